"""Symbolic executor for LLVM IR (see DESIGN.md, section "executor").

Control flow, pointers, allocation and integers are concrete unless an input
makes them symbolic; f64 values are concrete floats or terms.  A branch on a
symbolic condition is executed on both sides and merged at the immediate
post-dominator (if-then-else terms), or, where the two sides cannot be merged
(I/O, un-mergeable pointers), forked by deterministic re-execution.
"""
import math
import re
import struct
import sys
from . import terms as tm
from .terms import T, ITE, NOT, AND, OR, icmp, Unsupported, MergeFail
from .llparse import (sizealign, stride, offset, PTR, VOID, MD, I1)

sys.setrecursionlimit(200000)

GLOB0 = 0x10000
STACK0 = 0x1000000      # 16 MB
HEAP0 = 0x2000000       # 32 MB
MEMSZ = 0x10000000      # 256 MB (lazily committed)
FUNC0 = 0x7000000000    # fake addresses of functions
M64 = (1 << 64) - 1


class DeadPath(Exception):
    """this path ends here (abort, unreachable, infeasible)"""


class NeedFork(Exception):
    pass


class Bound(Exception):
    """an execution bound was exceeded"""


class ModelError(Exception):
    """the code did something the executor has no model for"""


class Poison(object):
    def _no(self, *a):
        raise ModelError('use of a value that could not be merged')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __and__ = __or__ = __index__ = __lt__ = __gt__ = _no


POISON = Poison()
_udd = struct.Struct('<d')
_uq = struct.Struct('<Q')
_ui = struct.Struct('<I')
_uh = struct.Struct('<H')
_uf = struct.Struct('<f')


class SymBr(object):
    __slots__ = ('c', 'blk', 't', 'f')

    def __init__(self, c, blk, t, f):
        self.c = c
        self.blk = blk
        self.t = t
        self.f = f


class Meta(object):
    pass


class Memory(object):
    """flat memory: concrete bytes plus typed symbolic cells"""

    def __init__(self):
        self.mem = bytearray(MEMSZ)
        self.cells = {}      # addr -> (size, term)
        self.words = {}      # addr>>3 -> set of cell addrs
        self.log = []
        self.depth = 0
        self.trace = None    # access tracing for race detection: [reads,writes] sets
        self.resolve = None
        self.concretize = None

    # -- cells
    def _over(self, p, n):
        out = []
        seen = set()
        for w in range(p >> 3, ((p + n - 1) >> 3) + 1):
            for a in self.words.get(w, ()):
                if a not in seen:
                    seen.add(a)
                    s = self.cells[a][0]
                    if a < p + n and p < a + s:
                        out.append(a)
        return out

    def _del(self, a):
        s, _ = self.cells.pop(a)
        for w in range(a >> 3, ((a + s - 1) >> 3) + 1):
            st = self.words[w]
            st.discard(a)
            if not st:
                del self.words[w]

    def _put(self, a, n, t):
        self.cells[a] = (n, t)
        for w in range(a >> 3, ((a + n - 1) >> 3) + 1):
            self.words.setdefault(w, set()).add(a)

    def note(self, p, n):
        """record old contents for rollback"""
        old = [(a,) + self.cells[a] for a in self._over(p, n)] if self.words else ()
        self.log.append((p, n, bytes(self.mem[p:p + n]), old))

    def clear(self, p, n):
        """remove symbolic cells overlapping [p,p+n), splitting partial ones"""
        for a in self._over(p, n):
            s, t = self.cells[a]
            if self.depth and (a < p or a + s > p + n):
                self.note(a, s)
            self._del(a)
            if a < p or a + s > p + n:
                bits = tm.f2bits(t) if t.sort == 'F' else t
                for k in range(s):
                    if not (p <= a + k < p + n):
                        b = tm.trunc(8 * s, 8, tm.bv('lshr', 8 * s, bits, 8 * k))
                        if b.__class__ is T:
                            self._put(a + k, 1, b)
                        else:
                            self.mem[a + k] = b

    def load_slow(self, p, n, kind):
        """kind: 'F' or bit width"""
        if p.__class__ is T:
            return self.load_sym(p, n, kind)
        c = self.cells.get(p)
        if c is not None and c[0] == n:
            t = c[1]
            if kind == 'F':
                return t if t.sort == 'F' else tm.bits2f(t)
            if t.sort == 'F':
                return tm.f2bits(t)
            return t
        ov = self._over(p, n)
        if not ov:
            raw = self.mem[p:p + n]
            if kind == 'F':
                return _udd.unpack(raw)[0]
            return int.from_bytes(raw, 'little')
        # assemble from bytes
        W = 8 * n
        acc = 0
        for k in range(n):
            b = None
            for a in ov:
                s, t = self.cells[a]
                if a <= p + k < a + s:
                    bits = tm.f2bits(t) if t.sort == 'F' else t
                    b = tm.trunc(8 * s, 8, tm.bv('lshr', 8 * s, bits, 8 * (p + k - a))) if s > 1 else bits
                    break
            if b is None:
                b = self.mem[p + k]
            acc = tm.bv('or', W, acc, tm.bv('shl', W, tm.zext(8, W, b), 8 * k))
        if kind == 'F':
            return tm.bits2f(acc)
        return acc

    def load_sym(self, p, n, kind):
        p = self.resolve(p)
        if p.__class__ is int:
            return self.load(p, n, kind)
        if p.op != 'ite':
            return self.load(self.concretize(p), n, kind)
        todo = list(p.args[1:])
        bad = False
        while todo:
            x = todo.pop()
            if x.__class__ is int:
                bad = bad or x < 4096
            elif x.op == 'ite':
                todo += x.args[1:]
            else:
                bad = True
        if bad:
            return self.load(self.concretize(p), n, kind)
        a = self.load(p.args[1], n, kind) if not (p.args[1].__class__ is int and p.args[1] < 4096) else None
        b = self.load(p.args[2], n, kind) if not (p.args[2].__class__ is int and p.args[2] < 4096) else None
        if a is None and b is None:
            raise ModelError('null load')
        if a is None or b is None:
            raise NeedFork('load through a possibly-null pointer')
        try:
            return ITE(p.args[0], a, b, kind)
        except MergeFail:
            raise NeedFork('merge')

    def load(self, p, n, kind):
        if p.__class__ is T:
            return self.load_sym(p, n, kind)
        if p < 4096 or p + n > MEMSZ:
            raise ModelError('bad load address 0x%x' % p)
        if self.trace is not None:
            self.trace.read(p, n)
        if self.words and ((p >> 3) in self.words or ((p + n - 1) >> 3) in self.words):
            return self.load_slow(p, n, kind)
        if kind == 'F':
            return _udd.unpack_from(self.mem, p)[0]
        return int.from_bytes(self.mem[p:p + n], 'little')

    def store(self, p, n, v, kind=None):
        if p.__class__ is T:
            p = self.resolve(p)
            if p.__class__ is T:
                p = self.concretize(p)
        if p < 4096 or p + n > MEMSZ:
            raise ModelError('bad store address 0x%x' % p)
        if self.trace is not None:
            self.trace.write(p, n)
        if self.depth:
            self.note(p, n)
        if self.words:
            self.clear(p, n)
        if v.__class__ is T:
            if v.op == 'c' and tm.DOMAIN == 'fp':
                _udd.pack_into(self.mem, p, tm.fpval(v))
                return
            if v.sort == 'B':
                v = tm.zext(1, 8 * n, v)
            self._put(p, n, v)
        elif v.__class__ is float:
            if n == 8:
                _udd.pack_into(self.mem, p, v)
            else:
                _uf.pack_into(self.mem, p, v)
        elif v.__class__ is Poison:
            raise NeedFork('store of un-mergeable value')
        else:
            self.mem[p:p + n] = v.to_bytes(n, 'little')

    def copy(self, d, s, n):
        if n.__class__ is T:
            n = self.resolve(n)
        if d.__class__ is T:
            d = self.resolve(d)
        if s.__class__ is T:
            s = self.resolve(s)
        if n.__class__ is T or d.__class__ is T or s.__class__ is T:
            n, d, s = self.concretize(n), self.concretize(d), self.concretize(s)
        if n == 0:
            return
        if d < 4096 or s < 4096 or d + n > MEMSZ or s + n > MEMSZ:
            raise ModelError('bad memcpy')
        if self.trace is not None:
            self.trace.read(s, n)
            self.trace.write(d, n)
        if self.depth:
            self.note(d, n)
        if self.words:
            if len(self.cells) < n >> 3:
                src = [a for a in self.cells if a < s + n and s < a + self.cells[a][0]]
            else:
                src = self._over(s, n)
            items = []
            for a in src:
                sz, t = self.cells[a]
                if a < s or a + sz > s + n:
                    # partial overlap: copy bytewise through load
                    for k in range(max(a, s), min(a + sz, s + n)):
                        items.append((d + (k - s), 1, self.load_slow(k, 1, 8)))
                else:
                    items.append((d + (a - s), sz, t))
            self.clear(d, n)
            self.mem[d:d + n] = self.mem[s:s + n]
            for a, sz, t in items:
                if t.__class__ is T:
                    self._put(a, sz, t)
                else:
                    self.mem[a:a + sz] = t.to_bytes(sz, 'little')
        else:
            self.mem[d:d + n] = self.mem[s:s + n]

    def fill(self, d, v, n):
        if n.__class__ is T:
            n = self.resolve(n)
        if n == 0:
            return
        if self.trace is not None:
            self.trace.write(d, n)
        if self.depth:
            self.note(d, n)
        if self.words:
            self.clear(d, n)
        if v.__class__ is T:
            raise NeedFork('symbolic memset')
        self.mem[d:d + n] = bytes([v & 255]) * n

    # -- checkpoints
    def rollback(self, mark):
        log = self.log
        for i in range(len(log) - 1, mark - 1, -1):
            p, n, b, old = log[i]
            if self.words:
                for a in self._over(p, n):
                    self._del(a)
            self.mem[p:p + n] = b
            for a, s, t in old:
                if a not in self.cells:
                    self._put(a, s, t)
        del log[mark:]

    def delta(self, mark):
        """current contents of everything written since mark: list of (addr,size)->value pieces"""
        segs = set()
        for i in range(mark, len(self.log)):
            p, n, b, old = self.log[i]
            segs.add((p, n))
            for a, s, t in old:
                if a < p or a + s > p + n:
                    segs.add((a, s))
        return segs


def merge_segments(segs):
    """union of byte ranges as sorted disjoint list"""
    out = []
    for p, n in sorted(segs):
        if out and p <= out[-1][1]:
            if p + n > out[-1][1]:
                out[-1][1] = p + n
        else:
            out.append([p, p + n])
    return out


class Trace(object):
    """what one of two concurrent parts did: plain accesses by the locks held, atomic accesses, lock sections, files"""

    def __init__(self, held=()):
        self.acc = {}           # locks held -> (bytes read, bytes written)
        self.at = set()
        self.held = set(held)
        self.sections = {}      # lock -> number of times it was taken
        self.fr = set()
        self.fw = set()

    def cur(self):
        k = frozenset(self.held)
        x = self.acc.get(k)
        if x is None:
            x = self.acc[k] = (set(), set())
        return x

    def read(self, p, n):
        self.cur()[0].update(range(p, p + n))

    def write(self, p, n):
        self.cur()[1].update(range(p, p + n))

    def atomic(self, p, n, op, old, new):
        self.at.update(range(p, p + n))
        if op == 'cas' and n == 4 and old == 0 and new == 1:
            self.held.add(p)
            self.sections[p] = self.sections.get(p, 0) + 1
        elif op == 'xchg' and new == 0:
            self.held.discard(p)

    def conflicts(self, o):
        """bytes accessed by both without a common lock, at least one a write"""
        bad = set()
        for ka, (ra, wa) in self.acc.items():
            for kb, (rb, wb) in o.acc.items():
                if not ka & kb:
                    bad |= (wa & (rb | wb)) | (wb & ra)
        return bad - self.at - o.at

    def mixing(self, o):
        """locks under which the parts may alternate"""
        return [p for p, n in self.sections.items() if p in o.sections and max(n, o.sections[p]) > 1]

    def files(self, o):
        return (self.fw & (o.fr | o.fw)) | (o.fw & self.fr)

    def absorb(self, a, b):
        for t in (a, b):
            for k, (r, w) in t.acc.items():
                k = k | frozenset(self.held)
                x = self.acc.setdefault(k, (set(), set()))
                x[0].update(r)
                x[1].update(w)
            self.at |= t.at
            self.fr |= t.fr
            self.fw |= t.fw
        for p in set(a.sections) | set(b.sections):
            self.sections[p] = self.sections.get(p, 0) + max(a.sections.get(p, 0), b.sections.get(p, 0))


class Machine(object):
    def __init__(self, module, domain='real', codecache=None, feasible=None, limits=None):
        self.m = module
        tm.DOMAIN = domain
        self.M = Memory()
        self.M.resolve = self.resolve
        self.M.concretize = self.concretize
        self.domain = domain
        self.code = codecache if codecache is not None else {}
        self.sp = STACK0
        self.hp = HEAP0
        self.gp = GLOB0
        self.gaddr = {}
        self.faddr = {}
        self.fname = {}
        self.pc = []
        self.pcadd = []
        self.known_set = {}
        self.panics = []
        self.decisions = []
        self.prefix = []
        self.alts = []
        self.nofork = set()
        self.alwaysfork = set()
        self.feasible = feasible
        self.executed = {}
        self.blocks_run = 0
        self.merges = 0
        self.forks = 0
        self.calls = 0
        self.events = []
        self.tls = {}
        self.sizes = {}
        self.active = {}
        self.limits = limits or {}
        self.max_unroll = self.limits.get('unroll', 64)
        self.max_blocks = self.limits.get('blocks', 60_000_000)
        self.schedule = None
        self.unmodelled = None
        self.trace_dbg = set()
        self.lastpanic = ''
        self.private = []        # address ranges every thread has its own copy of
        from .codegen import Codegen
        from . import externs
        self.ext = externs.Externs(self)
        self.cg = Codegen(self)
        self.ns = self.cg.ns
        self.ginit = []
        self.spmax = STACK0
        self.par = []
        self.races = []
        self.joins = 0

    def reset(self, domain=None):
        """fresh program state; the compiled functions are kept"""
        if domain is not None:
            tm.DOMAIN = self.domain = domain
        M = self.M
        M.cells.clear()
        M.words.clear()
        del M.log[:]
        M.depth = 0
        M.trace = None
        self.spmax = max(self.spmax, self.sp)
        M.mem[STACK0:self.spmax + 65536] = bytes(self.spmax + 65536 - STACK0)
        M.mem[HEAP0:self.hp + 65536] = bytes(self.hp + 65536 - HEAP0)
        self.sp = STACK0
        self.hp = HEAP0
        for a, b in self.ginit:
            M.mem[a:a + len(b)] = b
        self.sizes.clear()
        self.pc = []
        self.pcadd = []
        self.known_set = {}
        self.panics = []
        self.decisions = []
        self.prefix = []
        self.alts = []
        self.active = {}
        self.lastpanic = ''
        self.blocks_run = 0
        self.par = []
        self.races = []
        self.joins = 0
        self.ext.reset()

    # --------------------------------------------------------------- values
    def known(self, c):
        """truth value of Bool term c under the current path condition, or None"""
        if c.__class__ is not T:
            return bool(c)
        k = self.known_set
        v = k.get(c.id)
        if v is not None:
            return v
        if c.op == 'not':
            v = self.known(c.args[0])
            return None if v is None else not v
        if c.op == 'and':
            a = self.known(c.args[0]); b = self.known(c.args[1])
            if a is False or b is False:
                return False
            if a and b:
                return True
        elif c.op == 'or':
            a = self.known(c.args[0]); b = self.known(c.args[1])
            if a or b:
                return True
            if a is False and b is False:
                return False
        return None

    def assume(self, c):
        """add c to the path condition"""
        self.pc.append(c)
        added = []
        self.pcadd.append(added)

        def add(t, v):
            if t.__class__ is not T:
                return
            if t.op == 'not':
                add(t.args[0], not v)
                return
            if t.id not in self.known_set:
                self.known_set[t.id] = v
                added.append(t.id)
            if t.op == 'and' and v:
                add(t.args[0], True); add(t.args[1], True)
            if t.op == 'or' and not v:
                add(t.args[0], False); add(t.args[1], False)
        add(c, True)

    def unassume(self):
        self.pc.pop()
        for i in self.pcadd.pop():
            del self.known_set[i]

    def resolve(self, x):
        """simplify an ite tree by the path condition"""
        while x.__class__ is T and x.op == 'ite':
            k = self.known(x.args[0])
            if k is None:
                return x
            x = x.args[1] if k else x.args[2]
        if x.__class__ is T and x.op in ('bvadd', 'bvsub'):
            y = [self.resolve(a) for a in x.args]
            if y[0] is not x.args[0] or y[1] is not x.args[1]:
                return tm.bv(x.op[2:], x.sort, y[0], y[1])
        return x

    def concretize(self, x):
        """a concrete value of an ite tree, by splitting the path"""
        while x.__class__ is T:
            y = self.resolve(x)
            if y is not x:
                x = y
                continue
            c = x
            while c.op in ('bvadd', 'bvsub'):
                c = next(a for a in c.args if a.__class__ is T)
            if c.op != 'ite':
                raise NeedFork('symbolic address ' + tm.show(x))
            c = c.args[0]
            if self.M.depth:
                r = self.prune(c)
                if r is None:
                    raise NeedFork('split on a symbolic address')
            else:
                r = self.decide(c)
            if self.known(c) is None:
                # known only by the solver
                return self.concretize(self.pick(x, c, r))
        return x

    def pick(self, x, c, v):
        if x.__class__ is not T:
            return x
        if x.op == 'ite' and x.args[0] is c:
            return x.args[1] if v else x.args[2]
        return tm.bv(x.op[2:], x.sort, *[self.pick(a, c, v) for a in x.args])

    # --------------------------------------------------------------- memory mgmt
    def malloc(self, n, align=16):
        if n.__class__ is T:
            n = self.concretize(n)
        align = max(align, 16)
        p = (self.hp + align - 1) // align * align
        self.hp = p + max(n, 1) + 16
        self.sizes[p] = max(n, self.sizes.get(p, 0))
        if self.hp > MEMSZ:
            raise Bound('heap exhausted')
        return p

    def alloca(self, n, align):
        p = (self.sp + align - 1) // align * align
        self.sp = p + n
        if self.sp > self.spmax:
            self.spmax = self.sp
        if self.sp > HEAP0:
            raise Bound('stack exhausted')
        return p

    def gaddress(self, name):
        a = self.gaddr.get(name)
        if a is not None:
            return a
        if name in self.m.funcs or (name in self.m.decls and name not in self.m.globs):
            return self.faddress(name)
        kind, ty, const, al, tls = self.m.glob(name)
        if kind == 'alias':
            a = self.constval(const, PTR)
            self.gaddr[name] = a
            return a
        sz = sizealign(ty)[0]
        al = max(al, 16)
        a = (self.gp + al - 1) // al * al
        self.gp = a + sz + 16
        if self.gp > STACK0:
            raise Bound('global area exhausted')
        self.gaddr[name] = a
        if tls:
            self.private.append((a, a + sz))
        if const is not None:
            d = self.M.depth
            self.M.depth = 0
            tr, self.M.trace = self.M.trace, None
            self.init_const(a, ty, const)
            self.M.depth = d
            self.M.trace = tr
        self.ginit.append((a, bytes(self.M.mem[a:a + sz])))
        return a

    def faddress(self, name):
        a = self.faddr.get(name)
        if a is None:
            if name in self.m.decls and name not in self.m.funcs and self.ext.is_weak_absent(name):
                a = 0
            else:
                a = FUNC0 + 16 * len(self.faddr)
            self.faddr[name] = a
            self.fname[a] = name
        return a

    def init_const(self, a, ty, c):
        k = c[0]
        if k in ('zero', 'undef'):
            return
        if k == 'str':
            self.M.mem[a:a + len(c[1])] = c[1]
            return
        if k == 'agg':
            if ty[0] == 'struct':
                for i, (t, v) in enumerate(c[1]):
                    self.init_const(a + offset(ty, i), t, v)
            else:
                s = stride(ty[2])
                for i, (t, v) in enumerate(c[1]):
                    self.init_const(a + i * s, t, v)
            return
        v = self.constval(c, ty)
        self.M.store(a, sizealign(ty)[0], v)

    def constval(self, c, ty):
        """python value of a constant"""
        k = c[0]
        if k == 'i':
            n = ty[1] if ty[0] == 'i' else 64
            return c[1] & ((1 << n) - 1)
        if k == 'f':
            return c[1]
        if k in ('zero', 'undef'):
            return self.zero(ty)
        if k == 'glob':
            return self.gaddress(c[1])
        if k == 'gep':
            base = self.constval(c[2], PTR)
            t = c[1]
            idx = [tm.sx(self.constval(i, ('i', 64)), 64) for i in c[3]]
            off = idx[0] * stride(t)
            for i in idx[1:]:
                if t[0] == 'struct':
                    off += offset(t, i)
                    t = t[1][i]
                else:
                    t = t[2]
                    off += i * stride(t)
            return (base + off) & M64
        if k == 'cast':
            v = self.constval(c[3], c[2])
            if c[4][0] == 'i':
                return v & ((1 << c[4][1]) - 1)
            return v
        if k == 'bin':
            return tm.bv(c[1], c[2][1] if c[2][0] == 'i' else 64, self.constval(c[3], c[2]), self.constval(c[4], c[2]))
        if k == 'agg':
            return tuple(self.constval(v, t) for t, v in c[1])
        if k == 'str':
            return tuple(c[1])
        raise ModelError('const ' + repr(c))

    def zero(self, ty):
        k = ty[0]
        if k == 'f':
            return 0.0
        if k == 'struct':
            return tuple(self.zero(t) for t in ty[1])
        if k in ('arr', 'vec'):
            return (self.zero(ty[2]),) * ty[1]
        return 0

    # --------------------------------------------------------------- execution
    def call(self, name, args):
        f = self.ns_fn(name)
        return f(*args)

    def ns_fn(self, name):
        return self.cg.fn(name)

    def call_ptr(self, p, args):
        if p.__class__ is T:
            p = self.resolve(p)
            if p.__class__ is T:
                p = self.concretize(p)
        nm = self.fname.get(p)
        if nm is None:
            raise ModelError('call to unknown address 0x%x' % p)
        return self.ns_fn(nm)(*args)

    def run_blocks(self, fm, R, b, stop):
        blocks = fm.blocks
        n = 0
        try:
            while b != stop:
                n += 1
                b = blocks[b](R)
                while b.__class__ is not int:
                    b = self.symbr(fm, R, b, stop)
                if b < 0:
                    break
        finally:
            self.blocks_run += n
            if self.blocks_run > self.max_blocks:
                raise Bound('block budget exceeded')
        return b

    def noasm(self):
        raise ModelError('inline assembly')

    def panic(self, msg):
        self.lastpanic = msg
        self.panics.append((list(self.pc), msg))
        raise DeadPath(msg)

    def symbr(self, fm, R, br, stop):
        c = br.c
        if c.__class__ is Poison:
            raise ModelError('branch on a value that could not be merged')
        if c.__class__ is T and c.op == 'ite':
            c = self.resolve(c)
        if c.__class__ is not T:
            return br.t(R) if c else br.f(R)
        k = self.known(c)
        if k is not None:
            return br.t(R) if k else br.f(R)
        blk = br.blk
        ipd = fm.ipdom[blk]
        key = (fm.name, blk)
        act = self.active.get(key, 0)
        if act:
            # symbolic loop: prune by feasibility before unrolling further
            if act > self.max_unroll:
                raise Bound('symbolic loop unrolled more than %d times in %s' % (self.max_unroll, fm.name))
            r = self.prune(c)
            if r is not None:
                return br.t(R) if r else br.f(R)
        if key not in self.alwaysfork and not self.wantfork(fm.name):
            self.active[key] = act + 1
            mark = len(self.M.log)
            R0 = R[:]
            saved = (self.sp, len(self.events), len(self.panics), len(self.pc), len(self.par), self.M.trace, self.joins)
            self.M.depth += 1
            try:
                return self.merge(fm, R, br, c, ipd)
            except (NeedFork, MergeFail, ModelError, tm.Unsupported) as e:
                if self.limits.get('debug'):
                    print('NEEDFORK', fm.name[-60:], blk, e, file=sys.stderr)
                self.M.rollback(mark)
                R[:] = R0
                self.sp = saved[0]
                del self.events[saved[1]:]
                del self.panics[saved[2]:]
                del self.par[saved[4]:]
                self.M.trace, self.joins = saved[5:]
                if len(self.pc) != saved[3]:
                    raise ModelError('path condition not restored')
                self.alwaysfork.add(key)
                if self.M.depth > 1:
                    raise NeedFork('nested: ' + str(e))
            finally:
                self.M.depth -= 1
                self.active[key] = act
        elif self.M.depth:
            r = self.prune(c)
            if r is not None:
                return br.t(R) if r else br.f(R)
            raise NeedFork('inner fork point')
        # fork
        v = self.decide(c)
        return br.t(R) if v else br.f(R)

    def wantfork(self, name):
        """the scenario asks for separate paths in this function"""
        fk = self.limits.get('fork')
        return bool(fk) and any(x in name for x in fk)

    def prune(self, c):
        """True/False if only that side is feasible, None if both may be"""
        if self.feasible is None:
            return None
        if not self.feasible(self.pc + [c]):
            self.assume(NOT(c)) if self.M.depth == 0 else None
            return False
        if not self.feasible(self.pc + [NOT(c)]):
            self.assume(c) if self.M.depth == 0 else None
            return True
        return None

    def decide(self, c):
        i = len(self.decisions)
        if i < len(self.prefix):
            v, cid = self.prefix[i]
            if cid != c.id:
                raise ModelError('replayed decision differs')
        else:
            r = self.prune(c)
            if r is not None:
                # counted as well, so that the decisions of a replayed prefix line up
                self.decisions.append((r, c.id))
                return r
            v = True
            self.alts.append(self.decisions + [(False, c.id)])
            self.forks += 1
        self.decisions.append((v, c.id))
        self.assume(c if v else NOT(c))
        return v

    def side(self, fm, R, edge, c, ipd):
        """run one side of a branch under c; (alive?, facts learnt on it)"""
        n0 = len(self.pc)
        self.assume(c)
        try:
            try:
                b = edge(R)
                while b.__class__ is not int:
                    b = self.symbr(fm, R, b, ipd)
                if b != ipd and b >= 0:
                    b = self.run_blocks(fm, R, b, ipd)
                if b != ipd:
                    raise NeedFork('side left the region')
                return True, self.pc[n0 + 1:]
            except DeadPath:
                return False, []
        finally:
            while len(self.pc) > n0:
                self.unassume()

    def merge(self, fm, R, br, c, ipd):
        self.merges += 1
        M = self.M
        mark = len(M.log)
        R0 = R[:]
        sp0 = self.sp
        hp0 = self.hp
        ev0 = len(self.events)
        okT, fT = self.side(fm, R, br.t, c, ipd)
        if okT:
            segsT = M.delta(mark)
            RT = R[:]
            mT = self.snapshot(segsT)
        spT = self.sp
        hpT = self.hp
        M.rollback(mark)
        R[:] = R0
        self.sp = sp0
        self.hp = hp0
        nc = NOT(c)
        okF, fF = self.side(fm, R, br.f, nc, ipd)
        self.hp = max(hpT, self.hp)
        if not okF:
            if not okT:
                M.rollback(mark)
                raise DeadPath('both sides dead')
            M.rollback(mark)
            R[:] = RT
            self.restore(mT)
            self.assume(c)
            for f in fT:
                self.assume(f)
            return ipd
        if not okT:
            self.assume(nc)
            for f in fF:
                self.assume(f)
            return ipd
        if len(self.events) != ev0:
            raise NeedFork('events inside a merged region')
        segsF = M.delta(mark)
        # merge memory
        self.merge_mem(c, segsT, segsF, mT, mark)
        # merge registers
        for i in range(len(R)):
            a = RT[i]
            b = R[i]
            if a is not b:
                R[i] = self.merge_val(c, a, b, fm.rsort[i])
        self.sp = max(spT, self.sp)
        for f in fT:
            f = OR(nc, f)
            if f.__class__ is T:
                self.assume(f)
        for f in fF:
            f = OR(c, f)
            if f.__class__ is T:
                self.assume(f)
        return ipd

    def merge_val(self, c, a, b, sort):
        ca, cb = a.__class__, b.__class__
        if a is None or b is None or ca is Poison or cb is Poison:
            return POISON
        if ca is tuple:
            if cb is not tuple or len(a) != len(b):
                return POISON
            if sort.__class__ is not tuple:
                sort = (None,) * len(a)
            return tuple(x if x is y else self.merge_val(c, x, y, s) for x, y, s in zip(a, b, sort))
        if cb is tuple:
            return POISON
        if ca is int and cb is int and a == b:
            return a
        if sort is None:
            sort = a.sort if ca is T else b.sort if cb is T else 'F' if ca is float or cb is float else None
            if sort is None:
                return POISON
        if ca is T and a.sort != sort or cb is T and b.sort != sort:
            return POISON
        return ITE(c, a, b, sort)

    def snapshot(self, segs):
        M = self.M
        out = []
        for lo, hi in merge_segments(segs):
            cells = [(a,) + M.cells[a] for a in M._over(lo, hi - lo)] if M.words else []
            out.append((lo, hi, bytes(M.mem[lo:hi]), cells))
        return out

    def restore(self, snap):
        M = self.M
        for lo, hi, b, cells in snap:
            if M.depth > 0:
                M.note(lo, hi - lo)
            if M.words:
                M.clear(lo, hi - lo)
            M.mem[lo:hi] = b
            for a, s, t in cells:
                if a not in M.cells:
                    M._put(a, s, t)

    def merge_mem(self, c, segsT, segsF, mT, mark):
        """current memory = F side.  For every written range combine with the T snapshot."""
        M = self.M
        # T-side values for ranges written only by F are the *old* contents
        snapF = self.snapshot(segsF | segsT)
        fin = {}
        # obtain old contents: rollback, snapshot, apply T, snapshot
        M.rollback(mark)
        self.restore(mT)
        snapT = self.snapshot(segsF | segsT)
        M.rollback(mark)
        for (lo, hi, bT, cT), (lo2, hi2, bF, cF) in zip(snapT, snapF):
            if bT == bF and cT == cF:
                self.restore([(lo, hi, bF, cF)])
                continue
            # write F side, then patch differing pieces
            dT = {a: (s, t) for a, s, t in cT}
            dF = {a: (s, t) for a, s, t in cF}
            pieces = []
            done = bytearray(hi - lo)
            for a in sorted(set(dT) | set(dF)):
                xs = dT.get(a); ys = dF.get(a)
                s = (xs or ys)[0]
                if xs and ys and xs[0] != ys[0]:
                    raise NeedFork('cell size mismatch')
                if a < lo or a + s > hi:
                    raise NeedFork('cell crosses segment')
                # must not overlap another cell of the other side partially
                vT = xs[1] if xs else int.from_bytes(bT[a - lo:a - lo + s], 'little')
                vF = ys[1] if ys else int.from_bytes(bF[a - lo:a - lo + s], 'little')
                if any(done[a - lo:a - lo + s]):
                    raise NeedFork('overlapping cells')
                done[a - lo:a - lo + s] = b'\1' * s
                srt = (xs or ys)[1].sort
                if srt == 'F' or (xs and xs[1].sort == 'F') or (ys and ys[1].sort == 'F'):
                    if vT.__class__ is int:
                        vT = tm.bits2f(vT)
                    elif vT.sort != 'F':
                        vT = tm.bits2f(vT)
                    if vF.__class__ is int:
                        vF = tm.bits2f(vF)
                    elif vF.sort != 'F':
                        vF = tm.bits2f(vF)
                    srt = 'F'
                pieces.append((a, s, ITE(c, vT, vF, srt)))
            # concrete differences
            k = 0
            n = hi - lo
            while k < n:
                if done[k] or bT[k] == bF[k]:
                    k += 1
                    continue
                # widen to an aligned 8-byte word if it is cell-free
                a = lo + k
                w = a & ~7
                if w >= lo and w + 8 <= hi and not any(done[w - lo:w - lo + 8]):
                    x = int.from_bytes(bT[w - lo:w - lo + 8], 'little')
                    y = int.from_bytes(bF[w - lo:w - lo + 8], 'little')
                    # split into smaller units when the upper part is equal (ints, flags)
                    s = 8
                    if k - (w - lo) == 0 or True:
                        pieces.append((w, 8, ITE(c, x, y, 64)))
                    done[w - lo:w - lo + 8] = b'\1' * 8
                    k = w - lo + 8
                else:
                    pieces.append((a, 1, ITE(c, bT[k], bF[k], 8)))
                    done[k] = 1
                    k += 1
            M.note(lo, hi - lo)
            M.clear(lo, hi - lo)
            M.mem[lo:hi] = bF
            for a, s, v in pieces:
                if v.__class__ is T:
                    M._put(a, s, v)
                elif v.__class__ is float:
                    _udd.pack_into(M.mem, a, v)
                else:
                    M.mem[a:a + s] = v.to_bytes(s, 'little')
