"""Models of what lies below the encoded code: LLVM intrinsics, libc memory and
string functions, libm, a small in-memory POSIX file system, thread-locals, and
the panic entry points.  Everything else (including std) is executed from IR."""
import math
import re
import struct
from . import terms as tm
from .terms import T, ITE, Unsupported
from . import machine as mc

M64 = (1 << 64) - 1
ENOENT, EEXIST, ENOTDIR, EISDIR, ENOTEMPTY, EINVAL, EIO, ENOSYS, EACCES, EBADF, ENOSPC = 2, 17, 20, 21, 39, 22, 5, 38, 13, 9, 28
O_CREAT, O_EXCL, O_TRUNC, O_APPEND, O_DIRECTORY = 0o100, 0o200, 0o1000, 0o2000, 0o200000
O_NOFOLLOW = 0o400000

PANICS = ('panic_fmt', 'panic_bounds_check', 'panic_nounwind', 'panic_cannot_unwind', 'panic_display', 'panic_explicit',
          'unwrap_failed', 'expect_failed', 'slice_start_index', 'slice_end_index', 'slice_index_order', 'slice_error_fail',
          'slice_index_fail', 'panic_const', 'handle_alloc_error', 'capacity_overflow', 'begin_panic', 'panic_misaligned',
          'panic_null', 'array_out_of_bounds', 'rust_begin_unwind', 'panic_already_borrowed', 'panic_already_mutably_borrowed',
          'assert_failed', 'len_mismatch_fail', 'copy_from_slice_impl', 'panic_async', 'unwrap_none', 'panic_access_error',
          'handle_error')
NOTPANICS = ('rust_panic_with_hook', 'panic_count', 'panicking7try', 'set_hook', 'take_hook', 'PanicHook', 'hook', 'is_nonoverlapping')
IDENT = re.compile(r'\d+([A-Za-z_][A-Za-z0-9_]*)')


def last_ident(name):
    """last path component of a mangled name (legacy or v0)"""
    if name.startswith('_ZN'):
        out = []
        i = 3
        while i < len(name) and name[i].isdigit():
            j = i
            while name[j].isdigit():
                j += 1
            n = int(name[i:j])
            out.append(name[j:j + n])
            i = j + n
        if out and re.match(r'^h[0-9a-f]{16}$', out[-1]):
            out.pop()
        return out
    if name.startswith('_R'):
        out = []
        i = 2
        while i < len(name):
            m = re.compile(r'(?<![A-Za-z0-9_]{0})(\d+)').match(name, i)
            if m and not name[i - 1] in 'h':
                pass
            if name[i].isdigit():
                j = i
                while j < len(name) and name[j].isdigit():
                    j += 1
                n = int(name[i:j])
                if j < len(name) and name[j] == '_':
                    j += 1
                if 0 < n <= len(name) - j:
                    out.append(name[j:j + n])
                    i = j + n
                    continue
            i += 1
        return out
    return [name]


class Exit(Exception):
    pass


class FS(object):
    """in-memory POSIX-ish file system: path -> bytes-list (file) or None (directory)"""

    def __init__(self):
        self.files = {'/': None, '/w': None}
        self.fds = {}
        self.nfd = 10
        self.cwd = '/w'
        self.dirs = {}
        self.ops = []           # log of mutating operations
        self.stdout = []
        self.stderr = []
        self.fail = None        # callback (op, path) -> errno or 0

    def norm(self, p, base=None):
        if not p.startswith('/'):
            p = (base or self.cwd) + '/' + p
        out = []
        for c in p.split('/'):
            if c in ('', '.'):
                continue
            if c == '..':
                if out:
                    out.pop()
            else:
                out.append(c)
        return '/' + '/'.join(out)

    def parent(self, p):
        return p.rsplit('/', 1)[0] or '/'

    def kids(self, p):
        q = p.rstrip('/') + '/'
        return sorted(x[len(q):] for x in self.files if x.startswith(q) and x != q and '/' not in x[len(q):])


NMARK = 2160


def marker(k):
    """marker double number k: one digit and an exponent from 60 to 299, so that it survives printing with any precision"""
    return float('%de%d' % (1 + k // 240, 60 + k % 240))


def unmarker(x):
    """number of a marker, or None"""
    if not 1e60 <= x < 1e300:
        return None
    d, e = ('%.0e' % x).split('e+')
    k = (int(d) - 1) * 240 + int(e) - 60
    return k if marker(k) == x else None


class Externs(object):
    def __init__(self, mx):
        self.mx = mx
        self.fs = FS()
        self.errno_addr = None
        self.tls = {}
        self.tlsn = 0
        self.fmtlog = []
        self.cache = {}
        self.overrides = {}      # exact extern name -> handler
        self.choose = None       # schedule decision callback
        self.reset()

    def reset(self):
        self.fs = FS()
        self.errno_addr = None
        self.tls = {}
        self.tlsn = 0
        self.markers = []        # formatted symbolic values, in order

    # ------------------------------------------------------------------ rayon stub
    def x___vh_choose(self):
        n = self.mx.joins
        self.mx.joins += 1
        return self.choose(n) if self.choose else 0

    def x___vh_par(self, phase):
        """access tracing of the two halves of a rayon join"""
        mx = self.mx
        M = mx.M
        if not mx.limits.get('races'):
            return None
        if phase == 0:
            tr = mc.Trace()
            mx.par.append([M.trace, tr, None, mx.sp, mx.hp])
            M.trace = tr
        elif phase == 1:
            tr = mc.Trace()
            mx.par[-1][2] = tr
            M.trace = tr
        else:
            outer, a, b, sp, hp = mx.par.pop()
            mine = mx.private
            bad = [x for x in a.conflicts(b) if not (sp <= x < mc.HEAP0) and not (x >= hp) and not (x < mc.STACK0 and any(lo <= x < hi for lo, hi in mine))]
            for kind, what in (('memory', sorted(bad)[:4]), ('files', sorted(a.files(b))), ('alternating lock sections', a.mixing(b))):
                if what:
                    mx.races.append((list(mx.pc), kind, what))
            if outer is not None:
                outer.absorb(a, b)
            M.trace = outer
        return None

    # ------------------------------------------------------------------ float formatting
    def float_fmt(self, orig):
        """{:e} / {} of a symbolic f64: a marker number is formatted by the real
        code; the text is mapped back to the term when the output is read"""
        mx = self.mx

        def fmt(p, f, *rest):
            v = mx.M.load(p, 8, 'F')
            if v.__class__ is float:
                return orig(p, f, *rest)
            k = len(self.markers)
            if k >= NMARK:
                raise mc.ModelError('too many formatted symbolic values')
            self.markers.append(v)
            q = mx.malloc(8)
            mx.M.store(q, 8, marker(k))
            return orig(q, f, *rest)
        return fmt

    def json_fmt(self, orig):
        """serialisation of a configuration with symbolic numbers: markers in their place"""
        mx = self.mx

        def ser(r, p, *rest):
            M = mx.M
            saved = []
            for a in range(p, p + 512, 8):
                c = M.cells.get(a)
                if c is not None and c[0] == 8 and c[1].sort == 'F' and not r <= a < r + 32:
                    saved.append((a, c[1]))
            for a, v in saved:
                k = len(self.markers)
                if k >= NMARK:
                    raise mc.ModelError('too many formatted symbolic values')
                self.markers.append(v)
                M.store(a, 8, marker(k))
            x = orig(r, p, *rest)
            for a, v in saved:
                M.store(a, 8, v)
            return x
        return ser

    # ------------------------------------------------------------------ lookup
    def is_weak_absent(self, name):
        return True if name in ('statx', 'gettid', '__cxa_thread_atexit_impl', 'copy_file_range', 'splice', 'getrandom') else False

    def lookup(self, name):
        h = self.overrides.get(name)
        if h is not None:
            return h
        h = getattr(self, 'x_' + name, None)
        if h is not None:
            return h
        if name.startswith('_ZN') or name.startswith('_R'):
            ids = last_ident(name)
            last = ids[-1] if ids else ''
            full = '::'.join(ids)
            if 'fmt::float' in full and last == 'fmt' and name in self.mx.m.funcs:
                return self.float_fmt(self.mx.cg.raw(name))
            if 'serde_json' in full and 'to_string_pretty' in full and name in self.mx.m.funcs:
                return self.json_fmt(self.mx.cg.raw(name))
            for h, f in self.rust.items():
                if full.endswith(h):
                    return lambda *a, f=f: f(self, *a)
            if any(last.startswith(p) or (p in ('panic_const',) and p in full) for p in PANICS) and not any(n in full for n in NOTPANICS):
                mx = self.mx

                def pan(*a):
                    mx.panic(full + self.panic_text(full, a))
                return pan
        return None

    def panic_text(self, full, a):
        return ''

    # rust-level replacements, by demangled suffix
    def r_fmt_f64(self, *a):
        raise mc.ModelError('r_fmt')

    rust = {}

    # ------------------------------------------------------------------ libc memory
    def x_malloc(self, n):
        return self.mx.malloc(n)

    def x_calloc(self, a, b):
        n = a * b
        p = self.mx.malloc(n)
        self.mx.M.fill(p, 0, n)
        return p

    def x_realloc(self, p, n):
        q = self.mx.malloc(n)
        if p:
            old = self.mx.sizes.get(p, n) if hasattr(self.mx, 'sizes') else n
            self.mx.M.copy(q, p, min(n, old))
        return q

    def x_free(self, p):
        return None

    def x_posix_memalign(self, pp, al, n):
        p = self.mx.malloc(n, al)
        self.mx.M.store(pp, 8, p)
        return 0

    def cstr(self, p):
        M = self.mx.M
        e = M.mem.index(0, p)
        if M.words and M._over(p, e - p):
            raise mc.NeedFork('symbolic string')
        return M.mem[p:e].decode('utf-8', 'replace')

    def cbytes(self, p, n):
        """n bytes, concrete ints or terms"""
        M = self.mx.M
        n = self.conc(n)
        if M.trace is not None:
            M.trace.read(p, n)
        if M.words and M._over(p, n):
            return [M.load(p + k, 1, 8) for k in range(n)]
        return M.mem[p:p + n]

    def conc(self, n):
        if n.__class__ is T:
            n = self.mx.resolve(n)
            if n.__class__ is T:
                raise mc.NeedFork('symbolic length')
        return n

    def x_strlen(self, p):
        return self.mx.M.mem.index(0, p) - p

    def x_memcmp(self, a, b, n):
        x = self.cbytes(a, n)
        y = self.cbytes(b, n)
        if x.__class__ is list or y.__class__ is list:
            r = 0
            for p, q in reversed(list(zip(x, y))):
                r = ITE(tm.icmp('ult', 8, p, q), 0xffffffff, ITE(tm.icmp('ugt', 8, p, q), 1, r, 32), 32)
            return r
        x = bytes(x); y = bytes(y)
        return 0 if x == y else (1 if x > y else 0xffffffff)

    def x_bcmp(self, a, b, n):
        x = self.cbytes(a, n)
        y = self.cbytes(b, n)
        if x.__class__ is list or y.__class__ is list:
            return ITE(tm.ands([tm.icmp('eq', 8, p, q) for p, q in zip(x, y)]), 0, 1, 32)
        return 0 if bytes(x) == bytes(y) else 1

    def x_memchr(self, p, c, n):
        b = bytes(self.cbytes(p, n))
        i = b.find(bytes([c & 255]))
        return 0 if i < 0 else p + i

    def x_memrchr(self, p, c, n):
        b = bytes(self.cbytes(p, n))
        i = b.rfind(bytes([c & 255]))
        return 0 if i < 0 else p + i

    def x_memcpy(self, d, s, n):
        self.mx.M.copy(d, s, self.conc(n))
        return d
    x_memmove = x_memcpy

    def x_memset(self, d, v, n):
        self.mx.M.fill(d, v, self.conc(n))
        return d

    # ------------------------------------------------------------------ libm
    def x_exp(self, x):
        return math.exp(x) if x.__class__ is float and x < 700 else tm.fun('exp', x)

    def x_log(self, x):
        return math.log(x) if x.__class__ is float and x > 0 else self.logspecial(x) if x.__class__ is float else tm.fun('ln', x)

    def logspecial(self, x):
        return -math.inf if x == 0 else math.nan

    def x_log10(self, x):
        return math.log10(x) if x.__class__ is float and x > 0 else self.logspecial(x) if x.__class__ is float else tm.fun('log10', x)

    def x_pow(self, x, y):
        if x.__class__ is float and y.__class__ is float:
            try:
                return math.pow(x, y)
            except (ValueError, OverflowError):
                return math.nan
        return tm.fun('pow', x, y)

    def x_fmod(self, x, y):
        if x.__class__ is float and y.__class__ is float:
            return math.fmod(x, y)
        return tm.fun('fmod', x, y)

    # ------------------------------------------------------------------ process environment
    def x_getenv(self, p):
        return 0

    def x_dlsym(self, h, p):
        return 0

    def x___errno_location(self):
        if self.errno_addr is None:
            self.errno_addr = self.mx.gp
            self.mx.private.append((self.mx.gp, self.mx.gp + 16))
            self.mx.gp += 16
        return self.errno_addr

    def err(self, e):
        self.mx.M.store(self.x___errno_location(), 4, e)
        return 0xffffffff

    def err64(self, e):
        self.err(e)
        return M64

    def x_pthread_self(self):
        return 0x7777

    def x_gettid(self):
        return 1

    def x_pthread_key_create(self, pk, d):
        self.tlsn += 1
        self.mx.M.store(pk, 4, self.tlsn)
        return 0

    def x_pthread_key_delete(self, k):
        return 0

    def x_pthread_setspecific(self, k, v):
        self.tls[k] = v
        return 0

    def x_pthread_getspecific(self, k):
        return self.tls.get(k, 0)

    def x___cxa_thread_atexit_impl(self, *a):
        return 0

    def x_sysconf(self, k):
        return 4096 if k == 30 else 2

    def x_sched_getaffinity(self, *a):
        return self.err(ENOSYS)

    def x_getauxval(self, k):
        return 0

    def x_abort(self):
        self.mx.panic('abort: ' + self.mx.lastpanic)

    def x_exit(self, c):
        self.mx.panic('exit(%r)' % c)

    def x_syscall(self, n, *a):
        if n == 202:   # futex
            return 0
        if n == 318:   # getrandom
            buf, ln = a[0], a[1]
            self.mx.M.fill(buf, 7, ln)
            return ln
        if n == 332:   # statx: use stat instead
            return self.err(ENOSYS)
        raise mc.ModelError('syscall %r' % n)

    def x_getrandom(self, buf, ln, fl):
        self.mx.M.fill(buf, 7, ln)
        return ln

    def x_clock_gettime(self, c, p):
        self.mx.M.store(p, 8, 1000)
        self.mx.M.store(p + 8, 8, 0)
        return 0

    def x_isatty(self, fd):
        return 0

    # ------------------------------------------------------------------ file system
    def io(self):
        if self.mx.M.depth:
            raise mc.NeedFork('input/output inside a merged region')

    def touch(self, p, w):
        tr = self.mx.M.trace
        if tr is not None:
            (tr.fw if w else tr.fr).add(p)

    def cwd_path(self, p):
        return self.fs.norm(self.cstr(p))

    def inject(self, op, path):
        f = self.fs.fail
        if f is None:
            return 0
        return f(op, path) or 0

    def x_getcwd(self, buf, n):
        b = self.fs.cwd.encode() + b'\0'
        self.mx.M.store(buf, len(b), int.from_bytes(b, 'little'))
        return buf

    def do_open(self, p, flags):
        self.io()
        fs = self.fs
        self.touch(p, flags & (O_CREAT | O_TRUNC) or flags & 3)
        e = self.inject('open', p) if flags & 3 or flags & O_CREAT else 0
        if e:
            return self.err(e)
        if p in fs.files:
            if fs.files[p] is None:
                if flags & 3 or flags & O_CREAT:
                    return self.err(EISDIR)
            else:
                if flags & O_DIRECTORY:
                    return self.err(ENOTDIR)
                if flags & O_CREAT and flags & O_EXCL:
                    return self.err(EEXIST)
                if flags & O_TRUNC:
                    fs.files[p] = []
                    fs.ops.append(('trunc', p))
        else:
            if not flags & O_CREAT:
                return self.err(ENOENT)
            if fs.parent(p) not in fs.files:
                return self.err(ENOENT)
            if fs.files[fs.parent(p)] is not None:
                return self.err(ENOTDIR)
            fs.files[p] = []
            fs.ops.append(('create', p))
        fd = fs.nfd
        fs.nfd += 1
        fs.fds[fd] = [p, 0, flags]
        return fd

    def x_open64(self, p, flags, *a):
        return self.do_open(self.cwd_path(p), flags)
    x_open = x_open64

    def x_openat64(self, dfd, p, flags, *a):
        base = None if dfd == 0xffffff9c else self.fs.fds[dfd][0]
        return self.do_open(self.fs.norm(self.cstr(p), base), flags)
    x_openat = x_openat64

    def x_close(self, fd):
        self.io()
        self.fs.fds.pop(fd, None)
        return 0

    def data_write(self, fd, data):
        self.io()
        fs = self.fs
        if fd == 1:
            fs.stdout += list(data)
            return len(data)
        if fd == 2:
            fs.stderr += list(data)
            return len(data)
        f = fs.fds[fd]
        self.touch(f[0], 1)
        e = self.inject('write', f[0])
        if e == -1:
            data = data[:1]
        elif e:
            return self.err64(e)
        if f[0] not in fs.files:
            return len(data)
        b = fs.files[f[0]]
        pos = len(b) if f[2] & O_APPEND else f[1]
        if pos > len(b):
            b.extend([0] * (pos - len(b)))
        b[pos:pos + len(data)] = list(data)
        f[1] = pos + len(data)
        fs.ops.append(('write', f[0], pos, len(data)))
        return len(data)

    def x_write(self, fd, p, n):
        return self.data_write(fd, self.cbytes(p, n))

    def x_writev(self, fd, iov, cnt):
        tot = []
        for i in range(cnt):
            b = self.mx.M.load(iov + 16 * i, 8, 64)
            n = self.mx.M.load(iov + 16 * i + 8, 8, 64)
            tot += list(self.cbytes(b, n))
        return self.data_write(fd, tot)

    def x_read(self, fd, p, n):
        self.io()
        f = self.fs.fds[fd]
        self.touch(f[0], 0)
        b = self.fs.files[f[0]]
        d = b[f[1]:f[1] + n]
        for k, x in enumerate(d):
            self.mx.M.store(p + k, 1, x)
        f[1] += len(d)
        return len(d)

    def x_lseek64(self, fd, off, wh):
        f = self.fs.fds.get(fd)
        if f is None:
            return self.err64(29)
        off = tm.sx(off, 64)
        if wh == 0:
            f[1] = off
        elif wh == 1:
            f[1] += off
        else:
            f[1] = len(self.fs.files[f[0]]) + off
        return f[1]

    def x_ftruncate64(self, fd, n):
        self.io()
        b = self.fs.files[self.fs.fds[fd][0]]
        del b[n:]
        return 0

    def x_fsync(self, fd):
        return 0
    x_fdatasync = x_fsync

    def put_stat(self, buf, p):
        M = self.mx.M
        M.fill(buf, 0, 144)
        d = self.fs.files[p]
        M.store(buf + 16, 8, 1)
        M.store(buf + 24, 4, 0o40755 if d is None else 0o100644)
        M.store(buf + 48, 8, 4096 if d is None else len(d))
        M.store(buf + 56, 8, 4096)

    def x_stat64(self, p, buf):
        p = self.cwd_path(p)
        self.touch(p, 0)
        if p not in self.fs.files:
            return self.err(ENOENT)
        self.put_stat(buf, p)
        return 0
    x_lstat64 = x_stat64

    def x_fstat64(self, fd, buf):
        f = self.fs.fds.get(fd)
        if f is None:
            return self.err(EBADF)
        self.put_stat(buf, f[0])
        return 0

    def x_fstatat64(self, dfd, p, buf, fl):
        base = None if dfd == 0xffffff9c else self.fs.fds[dfd][0]
        p = self.fs.norm(self.cstr(p), base)
        if p not in self.fs.files:
            return self.err(ENOENT)
        self.put_stat(buf, p)
        return 0

    def x_mkdir(self, p, mode):
        self.io()
        p = self.cwd_path(p)
        self.touch(p, 1)
        e = self.inject('mkdir', p)
        if e:
            return self.err(e)
        if p in self.fs.files:
            return self.err(EEXIST)
        if self.fs.parent(p) not in self.fs.files:
            return self.err(ENOENT)
        self.fs.files[p] = None
        self.fs.ops.append(('mkdir', p))
        return 0

    def do_unlink(self, p, isdir):
        self.io()
        fs = self.fs
        self.touch(p, 1)
        e = self.inject('unlink', p)
        if e:
            return self.err(e)
        if p not in fs.files:
            return self.err(ENOENT)
        if isdir:
            if fs.files[p] is not None:
                return self.err(ENOTDIR)
            if fs.kids(p):
                return self.err(ENOTEMPTY)
        elif fs.files[p] is None:
            return self.err(EISDIR)
        del fs.files[p]
        fs.ops.append(('unlink', p))
        return 0

    def x_unlink(self, p):
        return self.do_unlink(self.cwd_path(p), False)

    def x_rmdir(self, p):
        return self.do_unlink(self.cwd_path(p), True)

    def x_unlinkat(self, dfd, p, fl):
        base = None if dfd == 0xffffff9c else self.fs.fds[dfd][0]
        return self.do_unlink(self.fs.norm(self.cstr(p), base), bool(fl & 0x200))

    def x_rename(self, a, b):
        self.io()
        a = self.cwd_path(a); b = self.cwd_path(b)
        self.touch(a, 1)
        self.touch(b, 1)
        if a not in self.fs.files:
            return self.err(ENOENT)
        self.fs.files[b] = self.fs.files.pop(a)
        self.fs.ops.append(('rename', a, b))
        return 0

    def opendir_(self, p):
        fs = self.fs
        if p not in fs.files:
            self.err(ENOENT)
            return 0
        if fs.files[p] is not None:
            self.err(ENOTDIR)
            return 0
        h = self.mx.malloc(16)
        fs.dirs[h] = [p, ['.', '..'] + fs.kids(p), 0, self.mx.malloc(512)]
        return h

    def x_opendir(self, p):
        self.io()
        return self.opendir_(self.cwd_path(p))

    def x_fdopendir(self, fd):
        self.io()
        h = self.opendir_(self.fs.fds[fd][0])
        if h:
            self.fs.dirs[h].append(fd)
        return h

    def x_dirfd(self, h):
        d = self.fs.dirs[h]
        if len(d) < 5:
            fd = self.fs.nfd
            self.fs.nfd += 1
            self.fs.fds[fd] = [d[0], 0, 0]
            d.append(fd)
        return d[4]

    def x_closedir(self, h):
        d = self.fs.dirs.pop(h)
        if len(d) > 4:
            self.fs.fds.pop(d[4], None)
        return 0

    def x_readdir64(self, h):
        d = self.fs.dirs[h]
        if d[2] >= len(d[1]):
            return 0
        nm = d[1][d[2]]
        d[2] += 1
        M = self.mx.M
        M.fill(d[3], 0, 300)
        q = self.fs.norm(nm, d[0])
        isdir = self.fs.files.get(q, 0) is None
        M.store(d[3], 8, d[2])
        M.store(d[3] + 16, 2, 280)
        M.store(d[3] + 18, 1, 4 if isdir else 8)
        b = nm.encode() + b'\0'
        M.store(d[3] + 19, len(b), int.from_bytes(b, 'little'))
        return d[3]

    def x___xpg_strerror_r(self, e, p, n):
        b = ('errno %d' % e).encode() + b'\0'
        self.mx.M.store(p, len(b), int.from_bytes(b, 'little'))
        return 0

    def x_realpath(self, p, r):
        self.err(ENOENT)
        return 0

    def x__Unwind_Backtrace(self, *a):
        return 0

    # ------------------------------------------------------------------ intrinsics
    def intrinsic(self, name, at, rt):
        M = self.mx.M
        base = name.split('.')
        op = base[1]
        if op in ('memcpy', 'memmove'):
            return lambda d, s, n, v: M.copy(d, s, n)
        if op == 'memset':
            return lambda d, v, n, vv: M.fill(d, v, n)
        if op == 'threadlocal':
            return lambda p: p
        if op in ('trap', 'ubsantrap', 'debugtrap'):
            return lambda *a: self.mx.panic('abort: ' + (self.mx.lastpanic or 'trap'))
        if op == 'is' and base[2] == 'constant':
            return lambda x: 0
        if op == 'expect':
            return lambda x, *a: x
        if op == 'stacksave':
            return lambda: 0
        if op == 'is' and base[2] == 'fpclass':
            return self.fpclass
        if op == 'objectsize':
            return lambda *a: M64
        t = at[0] if at else None
        if t is not None and t[0] == 'vec' and op != 'vector':
            f = self.intrinsic(name, [x[2] if x[0] == 'vec' else x for x in at], rt[2])
            flags = [x[0] == 'vec' for x in at]
            n = t[1]

            def vec(*a):
                return tuple(f(*[x[i] if fl else x for x, fl in zip(a, flags)]) for i in range(n))
            return vec
        if t is not None and t[0] == 'f':
            if op == 'sqrt': return tm.fsqrt
            if op == 'fabs': return tm.fabs_
            if op in ('minnum', 'minimumnum'): return tm.fmin2
            if op in ('maxnum', 'maximumnum'): return tm.fmax2
            if op == 'floor': return tm.ffloor
            if op == 'ceil': return lambda a: -tm.ffloor(-a)
            if op in ('trunc', 'rint', 'nearbyint', 'roundeven', 'round'):
                def trunc(a):
                    if a.__class__ is float:
                        if not math.isfinite(a):
                            return a
                        return float(math.trunc(a)) if op == 'trunc' else float(round(a)) if op != 'round' else math.floor(abs(a) + 0.5) * math.copysign(1, a)
                    return ITE(tm.fcmp('olt', a, 0.0), -tm.ffloor(-a), tm.ffloor(a), 'F')
                return trunc
            if op == 'copysign':
                def cps(a, b):
                    if a.__class__ is float and b.__class__ is float:
                        return math.copysign(a, b)
                    x = tm.fabs_(a)
                    if b.__class__ is float:
                        return x if math.copysign(1, b) > 0 else -x
                    return ITE(tm.fcmp('olt', b, 0.0), -x, x, 'F')
                return cps
            if op == 'powi':
                def powi(a, n):
                    n = tm.sx(n, 32)
                    if a.__class__ is float:
                        # compiler-rt algorithm
                        r, x, k = 1.0, a, abs(n)
                        while True:
                            if k & 1:
                                r = r * x
                            k >>= 1
                            if not k:
                                break
                            x = x * x
                        return tm.fdiv(1.0, r) if n < 0 else r
                    r, x, k = None, a, abs(n)
                    while k:
                        if k & 1:
                            r = x if r is None else r * x
                        k >>= 1
                        if k:
                            x = x * x
                    r = 1.0 if r is None else r
                    return tm.fdiv(1.0, r) if n < 0 else r
                return powi
            if op == 'pow': return self.x_pow
            if op == 'exp': return self.x_exp
            if op == 'log': return self.x_log
            if op == 'log10': return self.x_log10
            if op in ('fma', 'fmuladd'):
                return lambda a, b, c: a * b + c
            if op == 'fptoui' or op == 'fptosi':
                n = rt[1]

                def sat(a):
                    if a.__class__ is T:
                        return tm.mk(op + 'sat', (a,), n)
                    lo, hi = (0, (1 << n) - 1) if op == 'fptoui' else (-(1 << n - 1), (1 << n - 1) - 1)
                    if a != a:
                        return 0
                    v = lo if a <= lo else hi if a >= hi else int(a)
                    return v & ((1 << n) - 1)
                return sat
            raise mc.ModelError('intrinsic ' + name)
        if op == 'vector' and base[2] == 'reduce':
            k = base[3]
            e = at[-1][2]
            cg = self.mx.cg

            def red(*a):
                v = a[-1]
                if k in ('fadd', 'fmul'):
                    acc = a[0]
                    for x in v:
                        acc = acc + x if k == 'fadd' else acc * x
                    return acc
                acc = v[0]
                for x in v[1:]:
                    if k in ('add', 'and', 'or', 'xor', 'mul'):
                        acc = cg.sbin(k, e, acc, x)
                    elif k == 'fmax':
                        acc = tm.fmax2(acc, x)
                    elif k == 'fmin':
                        acc = tm.fmin2(acc, x)
                    else:
                        n = e[1]
                        c = tm.icmp({'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[k], n, acc, x)
                        acc = ITE(c, acc, x, n)
                return acc
            return red
        n = t[1] if t is not None and t[0] == 'i' else 64
        mask = (1 << n) - 1
        if op in ('umax', 'umin', 'smax', 'smin'):
            p = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[op]

            def mm(a, b):
                c = tm.icmp(p, n, a, b)
                return (a if c else b) if c.__class__ is int else ITE(c, a, b, 'B' if n == 1 else n)
            return mm
        if op == 'abs':
            def iabs(a, z):
                c = tm.icmp('slt', n, a, 0)
                if c.__class__ is int:
                    return (-a) & mask if c else a
                return ITE(c, tm.bv('sub', n, 0, a), a, n)
            return iabs
        if op in ('ctpop', 'ctlz', 'cttz', 'bswap', 'bitreverse'):
            def bits(a, *z):
                if a.__class__ is T:
                    if tm.leafy(a):
                        return ITE(a.args[0], bits(a.args[1]), bits(a.args[2]), n)
                    raise mc.NeedFork(op + ' of symbolic value')
                if op == 'ctpop': return bin(a).count('1')
                if op == 'ctlz': return n - a.bit_length()
                if op == 'cttz': return n if a == 0 else (a & -a).bit_length() - 1
                if op == 'bswap': return int.from_bytes(a.to_bytes(n // 8, 'little'), 'big')
                return int(bin(a)[2:].zfill(n)[::-1], 2)
            return bits
        if op in ('fshl', 'fshr'):
            def fsh(a, b, c):
                c = c % n
                if c == 0:
                    return a if op == 'fshl' else b
                if op == 'fshr':
                    c = n - c
                return tm.bv('or', n, tm.bv('shl', n, a, c), tm.bv('lshr', n, b, n - c))
            return fsh
        if len(base) > 3 and base[2] == 'with' and base[3] == 'overflow':
            k = op[1:]
            signed = op[0] == 's'

            def wo(a, b):
                if a.__class__ is T or b.__class__ is T:
                    r = tm.bv(k, n, a, b)
                    if not signed and k == 'add':
                        return (r, tm.icmp('ult', n, r, a))
                    if not signed and k == 'sub':
                        return (r, tm.icmp('ult', n, a, b))
                    w = 2 * n
                    ex = tm.sext if signed else tm.zext
                    full = tm.bv(k, w, ex(n, w, a), ex(n, w, b))
                    return (r, tm.icmp('ne', w, full, ex(n, w, r)))
                x, y = (tm.sx(a, n), tm.sx(b, n)) if signed else (a, b)
                v = x + y if k == 'add' else x - y if k == 'sub' else x * y
                r = v & mask
                return (r, 1 if (tm.sx(r, n) if signed else r) != v else 0)
            return wo
        if len(base) > 2 and base[2] == 'sat':
            def sat2(a, b):
                if a.__class__ is T or b.__class__ is T:
                    r = tm.bv(op[1:], n, a, b)
                    if op == 'uadd':
                        return ITE(tm.icmp('ult', n, r, a), mask, r, n)
                    if op == 'usub':
                        return ITE(tm.icmp('ult', n, a, b), 0, r, n)
                    raise mc.ModelError(name)
                if op == 'uadd': return min(a + b, mask)
                if op == 'usub': return max(a - b, 0)
                x, y = tm.sx(a, n), tm.sx(b, n)
                v = x + y if op == 'sadd' else x - y
                return max(min(v, (1 << n - 1) - 1), -(1 << n - 1)) & mask
            return sat2
        if op in ('ucmp', 'scmp'):
            w = rt[1]
            lt, gt = ('ult', 'ugt') if op == 'ucmp' else ('slt', 'sgt')

            def cmp3(a, b):
                l = tm.icmp(lt, n, a, b)
                g = tm.icmp(gt, n, a, b)
                return ITE(l, (1 << w) - 1, ITE(g, 1, 0, w), w)
            return cmp3
        if op == 'ptrmask':
            return lambda p, m: p & m
        raise mc.ModelError('intrinsic ' + name)

    def fpclass(self, x, mask):
        if x.__class__ is float:
            b = tm.f2bits(x)
            neg = b >> 63
            e = (b >> 52) & 2047
            m = b & ((1 << 52) - 1)
            if e == 2047:
                cls = (2 if m >> 51 else 1) if m else (4 if neg else 512)
            elif e == 0 and m == 0:
                cls = 32 if neg else 64
            elif e == 0:
                cls = 16 if neg else 128
            else:
                cls = 8 if neg else 256
            return 1 if mask & cls else 0
        if tm.DOMAIN == 'real':
            neg = tm.fcmp('olt', x, 0.0)
            pos = tm.fcmp('ogt', x, 0.0)
            zero = tm.fcmp('oeq', x, 0.0)
            r = 0
            if mask & 8:
                r = tm.OR(r, neg)
            if mask & 256:
                r = tm.OR(r, pos)
            if mask & 64:
                r = tm.OR(r, zero)
            return r
        r = 0
        nan = tm.isnan(x)
        if mask & 3:
            if mask & 3 != 3:
                raise Unsupported('signalling nan test')
            r = tm.OR(r, nan)
        for bit, f in ((4, 'ninf'), (8, 'nnorm'), (16, 'nsub'), (32, 'nzero'), (64, 'pzero'), (128, 'psub'), (256, 'pnorm'), (512, 'pinf')):
            if mask & bit:
                r = tm.OR(r, tm.mk('fpis', (x,), 'B', f))
        return r
