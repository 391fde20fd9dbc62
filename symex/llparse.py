"""Parser for the subset of textual LLVM IR that rustc emits."""
import re
import struct

TOK = re.compile(r'''
   c"(?:[^"\\]|\\.)*" | "(?:[^"\\]|\\.)*" |
   [%@](?:"[^"]*"|[-\w.$]+) |
   ![-\w.]* | \#\d+ |
   [-+]?\d+\.\d+(?:[eE][-+]?\d+)? | f?0x[HKLMR]?[0-9A-Fa-f]+ | [-+]?\d+ | [-+]?(?:inf|nan|qnan|snan)\b |
   [A-Za-z_][\w.]* | \.\.\. | <\{ | \}> | [()\[\]{}<>,=*:|]
''', re.X)


CMT = re.compile(r'/\*.*?\*/')


def tokenize(s):
    if '/*' in s:
        s = CMT.sub(' ', s)
    return TOK.findall(s)


I1 = ('i', 1); I8 = ('i', 8); I32 = ('i', 32); I64 = ('i', 64)
PTR = ('ptr',); VOID = ('void',); DOUBLE = ('f', 64); FLOAT = ('f', 32)
MD = ('metadata',)
LABEL = ('label',)


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ''

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError('expected %r got %r near %r' % (x, y, ' '.join(self.t[max(0, self.i - 8):self.i + 8])))

    def type(self):
        x = self.next()
        if x[0] == 'i' and x[1:].isdigit():
            t = ('i', int(x[1:]))
        elif x == 'ptr':
            t = PTR
            if self.peek() == 'addrspace':
                self.skip_parens_word()
        elif x == 'double':
            t = DOUBLE
        elif x == 'float':
            t = FLOAT
        elif x in ('half', 'bfloat'):
            t = ('f', 16)
        elif x in ('x86_fp80', 'fp128'):
            t = ('f', 128)
        elif x == 'void':
            t = VOID
        elif x == 'metadata':
            t = MD
        elif x == 'label':
            t = LABEL
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif x == '<':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect('>')
            t = ('vec', n, e)
        elif x in ('{', '<{'):
            els = []
            end = '}' if x == '{' else '}>'
            if not self.eat(end):
                while True:
                    els.append(self.type())
                    if self.eat(end):
                        break
                    self.expect(',')
            t = ('struct', tuple(els), x == '<{')
        elif x[0] == '%':
            t = self.mod.named_type(x)
        else:
            raise SyntaxError('type? %r near %r' % (x, ' '.join(self.t[max(0, self.i - 8):self.i + 8])))
        # function types "void (...)"
        if self.peek() == '(' and x == 'void':
            pass
        return t

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def skip_parens_word(self):
        self.next()
        if self.peek() == '(':
            self.skip_parens()

    def attrs(self):
        """skip parameter/return attributes"""
        while True:
            x = self.peek()
            if x in ATTRS:
                self.next()
                if x == 'align':
                    if self.peek() == '(':
                        self.skip_parens()
                    else:
                        self.next()
                elif self.peek() == '(' and x in PATTRS:
                    self.skip_parens()
            elif x.startswith('#') or x.startswith('"'):
                self.next()
                if self.peek() == '=':
                    self.next(); self.next()
            else:
                return


PATTRS = set('''sret byval byref preallocated inalloca elementtype dereferenceable dereferenceable_or_null captures
 range memory initializes nofpclass allocsize vscale_range align alignstack dead_on_return allockind uwtable'''.split())
ATTRS = set('''zeroext signext inreg noalias nocapture nofree nonnull returned noundef readonly writeonly readnone
 immarg swiftself swifterror swiftasync nest dead_on_unwind writable allocptr allocalign nounwind noreturn cold
 unnamed_addr local_unnamed_addr willreturn nosync mustprogress inlinehint alwaysinline noinline uwtable speculatable
 nocallback captures(none) fastcc ccc coldcc tailcc preserve_mostcc preserve_allcc fast nnan ninf nsz arcp contract afn reassoc'''.split()) | PATTRS


def sizealign(t):
    k = t[0]
    if k == 'i':
        n = t[1]
        if n <= 8: return 1, 1
        if n <= 16: return 2, 2
        if n <= 32: return 4, 4
        if n <= 64: return 8, 8
        if n <= 128: return 16, 16
        s = (n + 63) // 64 * 8
        return (s + 15) // 16 * 16, 16
    if k == 'ptr':
        return 8, 8
    if k == 'f':
        return (t[1] // 8, t[1] // 8)
    if k == 'arr':
        s, a = sizealign(t[2])
        return s * t[1], a
    if k == 'vec':
        s, a = sizealign(t[2])
        if t[2] == I1:
            n = (t[1] + 7) // 8
            return n, n
        n = s * t[1]
        a = 1
        while a < n:
            a *= 2
        return n, a
    if k == 'struct':
        off = 0
        al = 1
        for e in t[1]:
            s, a = sizealign(e)
            if not t[2]:
                off = (off + a - 1) // a * a
                al = max(al, a)
            off += s
        if not t[2]:
            off = (off + al - 1) // al * al
        return off, al
    raise SyntaxError('size of %r' % (t,))


def stride(t):
    s, a = sizealign(t)
    return (s + a - 1) // a * a


def offset(t, idx):
    """byte offset of field idx within struct t"""
    off = 0
    for i, e in enumerate(t[1]):
        s, a = sizealign(e)
        if not t[2]:
            off = (off + a - 1) // a * a
        if i == idx:
            return off
        off += s
    raise IndexError


def parse_float(tok, bits):
    if tok[:2] == '0x' or tok[:3] == 'f0x':
        h = tok[3:] if tok[0] == 'f' else tok[2:]
        v = int(h, 16)
        if tok[0] == 'f' and bits == 32:
            return struct.unpack('<f', struct.pack('<I', v))[0]
        return struct.unpack('<d', struct.pack('<Q', v))[0]
    if 'inf' in tok:
        return float('-inf') if tok[0] == '-' else float('inf')
    if 'nan' in tok:
        return float('nan')
    return float(tok)


# constants: ('int',n,v) handled as python values in a small tree:
#   ('i', v) ('f', v) ('zero',) ('undef',) ('str', bytes) ('agg', [(ty,const)...]) ('glob', name) ('gep', base, off) ...

CE = {'getelementptr', 'ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast', 'sub', 'add', 'xor', 'ptrtoaddr'}


def parse_const(p, ty):
    x = p.next()
    if x[0] == '@':
        return ('glob', unq(x))
    if x == 'true':
        return ('i', 1)
    if x == 'false' or x == 'null':
        return ('i', 0)
    if x in ('undef', 'poison'):
        return ('undef',)
    if x == 'zeroinitializer':
        return ('zero',)
    if x == 'none':
        return ('zero',)
    if x.startswith('c"'):
        return ('str', unescape(x[2:-1]))
    if x == 'splat':
        p.expect('(')
        t = p.type()
        c = parse_const(p, t)
        p.expect(')')
        return ('agg', [(t, c)] * ty[1])
    if x in ('{', '[', '<', '<{'):
        end = {'{': '}', '[': ']', '<': '>', '<{': '}>'}[x]
        els = []
        if not p.eat(end):
            while True:
                t = p.type()
                els.append((t, parse_const(p, t)))
                if p.eat(end):
                    break
                p.expect(',')
        return ('agg', els)
    if x in ('dso_local_equivalent', 'no_cfi'):
        return parse_const(p, ty)
    if x in CE:
        if x == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                w = p.next()
                if w == 'inrange' and p.peek() == '(':
                    p.skip_parens()
            p.expect('(')
            t = p.type()
            p.expect(',')
            pt = p.type()
            base = parse_const(p, pt)
            idx = []
            while p.eat(','):
                while p.peek() == 'inrange':
                    p.next()
                it = p.type()
                idx.append(parse_const(p, it))
            p.expect(')')
            return ('gep', t, base, idx)
        while p.peek() in ('nuw', 'nsw'):
            p.next()
        p.expect('(')
        t = p.type()
        a = parse_const(p, t)
        if x in ('sub', 'add', 'xor'):
            p.expect(',')
            t2 = p.type()
            b = parse_const(p, t2)
            p.expect(')')
            return ('bin', x, t, a, b)
        p.expect('to')
        t2 = p.type()
        p.expect(')')
        return ('cast', x, t, a, t2)
    if ty[0] == 'f':
        return ('f', parse_float(x, ty[1]))
    if re.match(r'[-+]?\d+$', x):
        return ('i', int(x))
    raise SyntaxError('const? %r : %r' % (x, ty))


def unq(x):
    """strip sigil and quotes"""
    return x[2:-1] if x[1] == '"' else x[1:]


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('utf-8')
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ('dst', 'op', 'a', 'dbg')

    def __init__(self, dst, op, a, dbg):
        self.dst = dst
        self.op = op
        self.a = a
        self.dbg = dbg


class Func:
    pass


LINKAGE = set('''private internal linkonce linkonce_odr weak weak_odr external extern_weak available_externally common appending
 dso_local dso_preemptable hidden protected default dllimport dllexport thread_local unnamed_addr local_unnamed_addr
 externally_initialized constant global addrspace'''.split())


class Module:
    def __init__(self, path):
        self.path = path
        self.funcs = {}      # name -> (header line, [body lines])
        self.decls = set()
        self.globs = {}      # name -> line
        self.types = {}
        self._nt = {}
        self.aliases = {}
        self.parsed = {}
        self.md = {}
        cur = None
        with open(path, encoding='utf-8', errors='surrogateescape') as f:
            for line in f:
                if cur is not None:
                    if line[0] == '}':
                        cur = None
                    else:
                        cur.append(line)
                    continue
                c = line[0]
                if c == 'd':
                    if line.startswith('define'):
                        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', line)
                        cur = []
                        nm = m.group(1)
                        if nm[0] == '"':
                            nm = nm[1:-1]
                        self.funcs[nm] = (line, cur)
                    elif line.startswith('declare'):
                        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', line)
                        self.decls.add(m.group(1).strip('"'))
                elif c == '@':
                    m = re.match(r'@("[^"]*"|[-\w.$]+) = ', line)
                    nm = m.group(1).strip('"')
                    self.globs[nm] = line[m.end():]
                elif c == '%':
                    m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = type ', line)
                    self.types[m.group(1)] = line[m.end():]
                elif c == '!':
                    m = re.match(r'!(\d+) = (.*)', line)
                    if m:
                        self.md[m.group(1)] = m.group(2)

    def named_type(self, n):
        if n not in self._nt:
            s = self.types[n].strip()
            if s == 'opaque':
                self._nt[n] = ('struct', (), False)
            else:
                self._nt[n] = P(tokenize(s), self).type()
        return self._nt[n]

    def glob(self, name):
        """-> (kind, type, const or None, align, tls)"""
        line = self.globs[name]
        toks = tokenize(re.sub(r', ![\w.]+ !\d+', '', line))
        p = P(toks, self)
        tls = False
        ext = False
        while True:
            x = p.peek()
            if x == 'alias':
                p.next()
                t = p.type()
                p.expect(',')
                pt = p.type()
                return ('alias', t, parse_const(p, pt), 1, False)
            if x in LINKAGE:
                p.next()
                if x in ('thread_local', 'addrspace') and p.peek() == '(':
                    p.skip_parens()
                if x == 'thread_local':
                    tls = True
                if x in ('external', 'extern_weak'):
                    ext = True
                if x in ('global', 'constant'):
                    break
            else:
                break
        t = p.type()
        if ext or p.peek() in (',', ''):
            c = None
        else:
            c = parse_const(p, t)
        al = sizealign(t)[1]
        m = re.search(r', align (\d+)', line)
        if m:
            al = max(al, int(m.group(1)))
        return ('global', t, c, al, tls)

    # -- functions ---------------------------------------------------------------
    def func(self, name):
        f = self.parsed.get(name)
        if f is None:
            f = self.parsed[name] = self._parse_func(name)
        return f

    def _parse_func(self, name):
        hdr, body = self.funcs[name]
        f = Func()
        f.name = name
        toks = tokenize(hdr)
        i = toks.index('@' + name) if '@' + name in toks else toks.index('@"' + name + '"')
        # return type: parse backwards is messy; only need params
        p = P(toks, self)
        p.i = i + 1
        p.expect('(')
        f.params = []
        f.varargs = False
        if not p.eat(')'):
            n = 0
            while True:
                if p.peek() == '...':
                    p.next()
                    f.varargs = True
                else:
                    t = p.type()
                    p.attrs()
                    if p.peek().startswith('%'):
                        nm = p.next()
                        nm = unq(nm)
                    else:
                        nm = str(n)
                    f.params.append((t, nm))
                    n += 1
                if p.eat(')'):
                    break
                p.expect(',')
        f.blocks = []     # (label, [Instr])
        label = None
        cur = None
        i = 0
        nparam_unnamed = len(f.params)
        L = body
        while i < len(L):
            line = L[i]
            i += 1
            if line == '\n':
                continue
            if line[0] != ' ':
                m = re.match(r'("[^"]*"|[-\w.$]+):', line)
                label = m.group(1).strip('"')
                cur = []
                f.blocks.append((label, cur))
                continue
            if cur is None:
                label = str(nparam_unnamed)   # implicit entry label
                cur = []
                f.blocks.append((label, cur))
            s = line.strip()
            if s.startswith('#dbg_') or s.startswith(';'):
                continue
            if (s.startswith('switch ') and s.endswith('[')):
                while not L[i].strip().startswith(']'):
                    s += ' ' + L[i].strip()
                    i += 1
                s += ' ' + L[i].strip()
                i += 1
            elif ' = landingpad ' in s or s.startswith('landingpad'):
                while i < len(L) and re.match(r'\s+(cleanup|filter|catch)', L[i]):
                    i += 1
            elif re.match(r'(%\S+ = )?(invoke|callbr)\b', s):
                s += ' ' + L[i].strip()
                i += 1
            ins = self.instr(s)
            if ins is not None:
                cur.append(ins)
        return f

    def instr(self, s):
        dbg = None
        k = s.find(', !')
        if k >= 0:
            # metadata attachments only ever trail the instruction
            m = re.search(r'!dbg !(\d+)', s[k:])
            if m:
                dbg = m.group(1)
            if ' metadata ' not in s[:k + 3]:
                s = s[:k]
        elif ' !srcloc' in s:
            s = s[:s.find(' !srcloc')]
        s = re.sub(r' #\d+$', '', s)
        toks = tokenize(s)
        p = P(toks, self)
        dst = None
        if toks[0][0] == '%' and len(toks) > 1 and toks[1] == '=':
            dst = unq(toks[0])
            p.i = 2
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        h = getattr(self, 'i_' + op, None)
        if h is None:
            if op in BIN:
                return Instr(dst, 'bin', self.p_bin(p, op), dbg)
            if op in CAST:
                return Instr(dst, 'cast', self.p_cast(p, op), dbg)
            raise SyntaxError('instruction? ' + s)
        r = h(p)
        if r is None:
            return None
        return Instr(dst, r[0], r[1:], dbg)

    def val(self, p, t):
        x = p.peek()
        if x[0] == '%':
            p.next()
            return ('l', unq(x))
        if x == 'asm':
            return ('asm',)
        return ('k', t, parse_const(p, t))

    def tval(self, p):
        t = p.type()
        p.attrs()
        return t, self.val(p, t)

    def p_bin(self, p, op):
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        a = self.val(p, t)
        p.expect(',')
        b = self.val(p, t)
        return (op, t, a, b)

    def p_cast(self, p, op):
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        a = self.val(p, t)
        p.expect('to')
        t2 = p.type()
        return (op, t, a, t2)

    def i_alloca(self, p):
        p.eat('inalloca')
        t = p.type()
        n = None
        al = sizealign(t)[1]
        while p.eat(','):
            if p.eat('align'):
                al = int(p.next())
            elif p.peek() == 'addrspace':
                p.skip_parens_word()
            else:
                n = self.tval(p)
        return ('alloca', t, n, al)

    def i_load(self, p):
        at = p.peek() == 'atomic'
        p.eat('atomic')
        p.eat('volatile')
        t = p.type()
        p.expect(',')
        _, a = self.tval(p)
        return ('load', t, a, at)

    def i_store(self, p):
        at = p.peek() == 'atomic'
        p.eat('atomic')
        p.eat('volatile')
        t, v = self.tval(p)
        p.expect(',')
        _, a = self.tval(p)
        return ('store', t, v, a, at)

    def i_getelementptr(self, p):
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        t = p.type()
        p.expect(',')
        _, base = self.tval(p)
        idx = []
        while p.eat(','):
            idx.append(self.tval(p))
        return ('gep', t, base, idx)

    def i_icmp(self, p):
        p.eat('samesign')
        pred = p.next()
        t = p.type()
        a = self.val(p, t)
        p.expect(',')
        b = self.val(p, t)
        return ('icmp', pred, t, a, b)

    def i_fcmp(self, p):
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        t = p.type()
        a = self.val(p, t)
        p.expect(',')
        b = self.val(p, t)
        return ('fcmp', pred, t, a, b)

    def i_fneg(self, p):
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        return ('fneg', t, self.val(p, t))

    def i_select(self, p):
        while p.peek() in FLAGS:
            p.next()
        tc, c = self.tval(p)
        p.expect(',')
        t, a = self.tval(p)
        p.expect(',')
        _, b = self.tval(p)
        return ('select', t, tc, c, a, b)

    def i_phi(self, p):
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = self.val(p, t)
            p.expect(',')
            lb = unq(p.next())
            p.expect(']')
            inc.append((v, lb))
            if not p.eat(','):
                break
        return ('phi', t, inc)

    def i_br(self, p):
        if p.peek() == 'label':
            p.next()
            return ('br', unq(p.next()))
        t = p.type()
        c = self.val(p, t)
        p.expect(','); p.expect('label')
        a = unq(p.next())
        p.expect(','); p.expect('label')
        b = unq(p.next())
        return ('cbr', c, a, b)

    def i_switch(self, p):
        t = p.type()
        v = self.val(p, t)
        p.expect(','); p.expect('label')
        d = unq(p.next())
        p.expect('[')
        cases = []
        while not p.eat(']'):
            p.type()
            k = p.next()
            k = {'true': 1, 'false': 0}.get(k, k)
            p.expect(','); p.expect('label')
            cases.append((int(k), unq(p.next())))
        return ('switch', t, v, d, cases)

    def i_ret(self, p):
        t = p.type()
        if t == VOID:
            return ('ret', None, None)
        return ('ret', t, self.val(p, t))

    def i_unreachable(self, p):
        return ('unreachable',)

    def i_resume(self, p):
        return ('unreachable',)

    def i_landingpad(self, p):
        return ('landingpad',)

    def i_fence(self, p):
        return None

    def i_freeze(self, p):
        t = p.type()
        return ('freeze', t, self.val(p, t))

    def i_extractvalue(self, p):
        t, a = self.tval(p)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        return ('extractvalue', t, a, idx)

    def i_insertvalue(self, p):
        t, a = self.tval(p)
        p.expect(',')
        t2, v = self.tval(p)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        return ('insertvalue', t, a, v, idx)

    def i_extractelement(self, p):
        t, a = self.tval(p)
        p.expect(',')
        _, i = self.tval(p)
        return ('extractelement', t, a, i)

    def i_insertelement(self, p):
        t, a = self.tval(p)
        p.expect(',')
        _, v = self.tval(p)
        p.expect(',')
        _, i = self.tval(p)
        return ('insertelement', t, a, v, i)

    def i_shufflevector(self, p):
        t, a = self.tval(p)
        p.expect(',')
        _, b = self.tval(p)
        p.expect(',')
        tm, m = self.tval(p)
        return ('shufflevector', t, a, b, tm, m)

    def i_cmpxchg(self, p):
        p.eat('weak'); p.eat('volatile')
        _, a = self.tval(p)
        p.expect(',')
        t, c = self.tval(p)
        p.expect(',')
        _, n = self.tval(p)
        return ('cmpxchg', t, a, c, n)

    def i_atomicrmw(self, p):
        p.eat('volatile')
        o = p.next()
        _, a = self.tval(p)
        p.expect(',')
        t, v = self.tval(p)
        return ('atomicrmw', o, t, a, v)

    def i_call(self, p, inv=False):
        while p.peek() in FLAGS or p.peek() in ATTRS:
            if p.peek() in ATTRS:
                j = p.i
                p.attrs()
                if p.i == j:
                    p.next()
            else:
                p.next()
        rt = p.type()
        if p.peek() == '(':       # explicit function type (varargs)
            p.skip_parens()
        p.eat('*')
        callee = self.val(p, PTR)
        if callee[0] == 'asm':
            return ('asm',)
        p.expect('(')
        args = []
        if not p.eat(')'):
            while True:
                t = p.type()
                if t == MD:
                    while p.peek() not in (',', ')'):
                        if p.peek() == '(':
                            p.skip_parens()
                        else:
                            p.next()
                    args.append((MD, None))
                else:
                    p.attrs()
                    args.append((t, self.val(p, t)))
                if p.eat(')'):
                    break
                p.expect(',')
        r = ('call', rt, callee, args)
        if inv:
            while p.peek() != 'to':
                p.next()
            p.next()
            p.expect('label')
            r = ('invoke', rt, callee, args, unq(p.next()))
        return r

    def i_invoke(self, p):
        return self.i_call(p, True)


BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CAST = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast ptrtoaddr'.split())
FLAGS = set('nuw nsw exact disjoint nneg samesign fast nnan ninf nsz arcp contract afn reassoc inbounds'.split())
