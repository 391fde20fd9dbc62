"""Translate LLVM functions to Python closures (one per basic block)."""
import math
import struct
from . import terms as tm
from .terms import T, Unsupported
from .llparse import sizealign, stride, offset, PTR, VOID, MD, I1
from . import machine as mc

M64 = (1 << 64) - 1


def sort_of(t):
    if t is None:
        return None
    k = t[0]
    if k == 'i':
        return 'B' if t[1] == 1 else t[1]
    if k == 'ptr':
        return 64
    if k == 'f':
        return 'F'
    if k == 'struct':
        return tuple(sort_of(x) for x in t[1])
    if k in ('arr', 'vec'):
        return tuple(sort_of(t[2]) for _ in range(t[1])) if t[1] <= 64 else None
    return None


def width(t):
    return t[1] if t[0] == 'i' else 64


SKIP = ('llvm.lifetime', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.dbg', 'llvm.donothing', 'llvm.prefetch',
        'llvm.invariant', 'llvm.var.annotation', 'llvm.x86.sse2.pause', 'llvm.stackrestore', 'llvm.sideeffect')


class Codegen(object):
    def __init__(self, machine):
        self.mx = machine
        self.mod = machine.m
        self.fns = {}
        self.ids = {}
        M = machine.M
        ns = self.ns = {
            'T': T, 'SB': mc.SymBr, 'INF': math.inf, 'NAN': math.nan,
            'fdiv': tm.fdiv, 'fcmp': tm.fcmp, 'icmp': tm.icmp, 'bv': tm.bv, 'ITE': tm.ITE, 'NOT': tm.NOT,
            'sext': tm.sext, 'zext': tm.zext, 'trunc': tm.trunc, 'sx': tm.sx,
            'alloca': machine.alloca, 'callp': machine.call_ptr,
            'load': M.load, 'store': M.store, 'MX': machine,
        }
        self.install_memory(ns)

    def install_memory(self, ns):
        M = self.mx.M
        mem = M.mem
        words = M.words
        load = M.load
        store = M.store
        uq = struct.Struct('<Q').unpack_from
        ud = struct.Struct('<d').unpack_from
        pq = struct.Struct('<Q').pack_into
        pd = struct.Struct('<d').pack_into
        MEMSZ = mc.MEMSZ

        def LQ(p):
            if p.__class__ is not int or p < 4096 or M.trace is not None or (words and (p >> 3 in words or (p + 7) >> 3 in words)):
                return load(p, 8, 64)
            return uq(mem, p)[0]

        def LD(p):
            if p.__class__ is not int or p < 4096 or M.trace is not None or (words and (p >> 3 in words or (p + 7) >> 3 in words)):
                return load(p, 8, 'F')
            return ud(mem, p)[0]

        def LB(p):
            if p.__class__ is not int or p < 4096 or M.trace is not None or (words and p >> 3 in words):
                return load(p, 1, 8)
            return mem[p]

        def SQ(p, v):
            if p.__class__ is not int or v.__class__ is not int or p < 4096 or M.depth or words or M.trace is not None:
                store(p, 8, v)
            else:
                pq(mem, p, v)

        def SD(p, v):
            if p.__class__ is not int or v.__class__ is not float or p < 4096 or M.depth or words or M.trace is not None:
                store(p, 8, v)
            else:
                pd(mem, p, v)

        def LI(p, n):
            """integer load of n bits"""
            k = (n + 7) // 8
            v = load(p, k, 8 * k)
            if n != 8 * k:
                v = tm.trunc(8 * k, n, v)
            return v

        def SI(p, n, v):
            k = (n + 7) // 8
            if v.__class__ is T and n == 1:
                v = tm.zext(1, 8, v)
            store(p, k, v)

        def LF(p):
            return struct.unpack('<f', struct.pack('<I', load(p, 4, 32)))[0]

        def SF(p, v):
            store(p, 4, struct.unpack('<I', struct.pack('<f', v))[0])
        def ATOM(p, n, op='', old=None, new=None):
            if M.trace is not None:
                M.trace.atomic(p, n, op, old, new)
        ns.update(ATOM=ATOM, LQ=LQ, LD=LD, LB=LB, SQ=SQ, SD=SD, LI=LI, SI=SI, LF=LF, SF=SF,
                  LAGG=self.load_agg, SAGG=self.store_agg, VBIN=self.vbin, GEP=self.gepdyn, CAST=self.castdyn,
                  EXV=exv, INV=inv, POISON=mc.POISON, SHUF=shuf, VMAP=vmap)

    def load_agg(self, p, ty):
        k = ty[0]
        ns = self.ns
        if k == 'struct':
            return tuple(self.load_agg(p + offset(ty, i), t) for i, t in enumerate(ty[1]))
        if k in ('arr', 'vec'):
            if k == 'vec' and ty[2] == I1:
                bits = self.mx.M.load(p, (ty[1] + 7) // 8, 8 * ((ty[1] + 7) // 8))
                return tuple((bits >> i) & 1 for i in range(ty[1]))
            s = stride(ty[2])
            return tuple(self.load_agg(p + i * s, ty[2]) for i in range(ty[1]))
        if k == 'f':
            return ns['LD'](p) if ty[1] == 64 else ns['LF'](p)
        if k == 'ptr':
            return ns['LQ'](p)
        return ns['LI'](p, ty[1])

    def store_agg(self, p, v, ty):
        k = ty[0]
        ns = self.ns
        if k == 'struct':
            for i, t in enumerate(ty[1]):
                self.store_agg(p + offset(ty, i), v[i], t)
            return
        if k in ('arr', 'vec'):
            if k == 'vec' and ty[2] == I1:
                b = 0
                for i in range(ty[1]):
                    b |= v[i] << i
                self.mx.M.store(p, (ty[1] + 7) // 8, b)
                return
            s = stride(ty[2])
            for i in range(ty[1]):
                self.store_agg(p + i * s, v[i], ty[2])
            return
        if k == 'f':
            return ns['SD'](p, v) if ty[1] == 64 else ns['SF'](p, v)
        if k == 'ptr':
            return ns['SQ'](p, v)
        return ns['SI'](p, ty[1], v)

    def vbin(self, op, ty, a, b):
        e = ty[2]
        out = []
        for x, y in zip(a, b):
            out.append(self.sbin(op, e, x, y))
        return tuple(out)

    def sbin(self, op, t, a, b):
        if op == 'fadd': return a + b
        if op == 'fsub': return a - b
        if op == 'fmul': return a * b
        if op == 'fdiv': return tm.fdiv(a, b)
        n = width(t)
        if n == 1 and (a.__class__ is T or b.__class__ is T):
            if op in ('and', 'mul'): return tm.AND(a, b)
            if op == 'or': return tm.OR(a, b)
            if op in ('xor', 'add', 'sub'): return tm.XOR(a, b)
            raise Unsupported('i1 ' + op)
        return tm.bv(op, n, a, b)

    def gepdyn(self, base, t, idx):
        off = idx[0] * stride(t) if idx[0].__class__ is not int else tm.sx(idx[0], 64) * stride(t)
        for i in idx[1:]:
            if t[0] == 'struct':
                off = off + offset(t, i)
                t = t[1][i]
            else:
                t = t[2]
                off = off + (tm.sx(i, 64) if i.__class__ is int else i) * stride(t)
        return (base + off) & M64

    def castdyn(self, op, t1, t2, a):
        if t1[0] == 'vec' and t2[0] == 'vec':
            if op == 'bitcast' and t1[1] != t2[1]:
                return self.bitcast_vec(t1, t2, a)
            return tuple(self.castdyn(op, t1[2], t2[2], x) for x in a)
        if op == 'bitcast' and (t1[0] == 'vec' or t2[0] == 'vec'):
            return self.bitcast_vec(t1, t2, a)
        if op == 'trunc':
            return tm.trunc(t1[1], t2[1], a)
        if op == 'zext':
            return tm.zext(t1[1], t2[1], a)
        if op == 'sext':
            return tm.sext(t1[1], t2[1], a)
        if op in ('ptrtoint', 'inttoptr', 'ptrtoaddr'):
            if op != 'inttoptr' and width(t2) < 64:
                return tm.trunc(64, width(t2), a)
            return a
        if op == 'bitcast':
            if t1[0] == 'f' and t2[0] == 'i':
                if t1[1] == 64:
                    return tm.f2bits(a)
                return struct.unpack('<I', struct.pack('<f', a))[0]
            if t1[0] == 'i' and t2[0] == 'f':
                if t2[1] == 64:
                    return tm.bits2f(a)
                return struct.unpack('<f', struct.pack('<I', a))[0]
            return a
        if op in ('sitofp', 'uitofp'):
            if a.__class__ is T:
                if a.sort == 'B' or tm.leafy(a):
                    a = tm.zext(1, 64, a) if a.sort == 'B' else a
                    n = t1[1]

                    def go(x):
                        if x.__class__ is T:
                            return tm.ITE(x.args[0], go(x.args[1]), go(x.args[2]), 'F')
                        return float(tm.sx(x, n) if op == 'sitofp' else x)
                    return go(a)
                return tm.mk(op, (a,), 'F', t1[1])
            return float(tm.sx(a, t1[1]) if op == 'sitofp' else a)
        if op in ('fptosi', 'fptoui'):
            if a.__class__ is T:
                return tm.mk(op, (a,), t2[1])
            if not math.isfinite(a):
                return 0
            return int(a) & ((1 << t2[1]) - 1)
        if op == 'fpext':
            return a
        if op == 'fptrunc':
            return struct.unpack('<f', struct.pack('<f', a))[0]
        raise Unsupported(op)

    def bitcast_vec(self, t1, t2, a):
        def tobits(t, v):
            if t[0] == 'vec':
                w = width(t[2]) if t[2][0] != 'f' else t[2][1]
                r = 0
                for i, x in enumerate(v):
                    r |= tobits(t[2], x) << (w * i)
                return r
            if t[0] == 'f':
                return self.castdyn('bitcast', t, ('i', t[1]), v)
            return v

        def frombits(t, v):
            if t[0] == 'vec':
                w = width(t[2]) if t[2][0] != 'f' else t[2][1]
                return tuple(frombits(t[2], (v >> (w * i)) & ((1 << w) - 1)) for i in range(t[1]))
            if t[0] == 'f':
                return self.castdyn('bitcast', ('i', t[1]), t, v)
            return v
        return frombits(t2, tobits(t1, a))

    # ------------------------------------------------------------------ functions
    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            f = self.make(name)
            self.fns[name] = f
        return f

    def fnid(self, name):
        i = self.ids.get(name)
        if i is None:
            i = self.ids[name] = 'f%d' % len(self.ids)
            cg = self

            def stub(*args):
                real = cg.fn(name)
                cg.ns[i] = real
                return real(*args)
            self.ns[i] = stub
        return i

    def make(self, name):
        mx = self.mx
        h = mx.ext.lookup(name)
        if h is not None:
            return h
        if name in self.mod.globs and name not in self.mod.funcs:
            kind, ty, const, al, tls = self.mod.glob(name)
            if kind == 'alias' and const[0] == 'glob':
                return self.fn(const[1])
        return self.raw(name)

    def raw(self, name):
        mx = self.mx
        if name not in self.mod.funcs:
            def missing(*a):
                raise mc.ModelError('no model for external function ' + name)
            return missing
        f = self.mod.func(name)
        src, fm = self.compile(f)
        # code objects are cached across machines via (name)
        co = compile(src, '<ll:%s>' % name[-40:], 'exec')
        loc = {}
        ns = self.ns
        exec(co, ns, loc)
        fm.blocks = [loc['b%d' % k] for k in range(len(f.blocks))]
        nreg = fm.nreg
        entry = fm.blocks[0]
        npar = len(f.params)
        run_blocks = mx.run_blocks
        pad = [None] * (nreg - npar - 1)
        executed = mx.executed
        dbgs = fm.dbgs

        def run(*args):
            executed[name] = executed.get(name, 0) + 1
            R = [None, *args[:npar], *pad]
            sp = mx.sp
            r = run_blocks(fm, R, 0, -2)
            mx.sp = sp
            return R[0]
        run.__name__ = name
        run.fm = fm
        return run

    def compile(self, f):
        mx = self.mx
        fm = mc.Meta()
        fm.name = f.name
        fm.dbgs = set()
        labels = {lb: k for k, (lb, _) in enumerate(f.blocks)}
        reg = {}
        fm.rsort = [None]
        for lb, ins in f.blocks:
            if ins[-1].op == 'ret' and ins[-1].a[0] is not None:
                fm.rsort[0] = sort_of(ins[-1].a[0])
        defblk = {}
        for t, n in f.params:
            reg[n] = len(fm.rsort)
            fm.rsort.append(sort_of(t))
            defblk[n] = -1
        for k, (lb, ins) in enumerate(f.blocks):
            for x in ins:
                if x.dst is not None:
                    defblk[x.dst] = -2 if x.op == 'phi' else k
        # which values must live in R
        inR = {}

        def rt(x):
            op, a = x.op, x.a
            if op in ('bin',): return a[1]
            if op == 'cast': return a[3]
            if op in ('alloca', 'gep'): return PTR
            if op == 'load': return a[0]
            if op == 'icmp':
                return ('vec', a[1][1], I1) if a[1][0] == 'vec' else I1
            if op == 'fcmp':
                return ('vec', a[1][1], I1) if a[1][0] == 'vec' else I1
            if op in ('fneg', 'freeze', 'phi', 'select'): return a[0]
            if op in ('call', 'invoke'): return a[0]
            if op == 'extractvalue':
                t = a[0]
                for i in a[2]:
                    t = t[1][i] if t[0] == 'struct' else t[2]
                return t
            if op == 'insertvalue': return a[0]
            if op == 'extractelement': return a[0][2]
            if op == 'insertelement': return a[0]
            if op == 'shufflevector': return ('vec', a[3][1], a[0][2])
            if op == 'cmpxchg': return ('struct', (a[0], I1), False)
            if op == 'atomicrmw': return a[1]
            return None

        types = {n: t for t, n in f.params}
        for k, (lb, ins) in enumerate(f.blocks):
            for x in ins:
                if x.dst is not None:
                    types[x.dst] = rt(x)

        def need(n):
            if n not in reg:
                reg[n] = len(fm.rsort)
                fm.rsort.append(sort_of(types.get(n)))
        for k, (lb, ins) in enumerate(f.blocks):
            for x in ins:
                if x.op == 'phi':
                    need(x.dst)
                    for v, l in x.a[1]:
                        if v[0] == 'l':
                            need(v[1])
                else:
                    for v in operands(x):
                        if v[0] == 'l' and defblk.get(v[1]) != k:
                            need(v[1])
        fm.nreg = len(fm.rsort)
        phis = {}
        for k, (lb, ins) in enumerate(f.blocks):
            ph = [x for x in ins if x.op == 'phi']
            if ph:
                phis[k] = ph
        out = []
        edges = []
        succ = []
        for k, (lb, ins) in enumerate(f.blocks):
            self.block(f, fm, k, lb, ins, labels, reg, defblk, phis, out, succ)
        fm.ipdom = ipdoms(succ, [ins[-1].op == 'unreachable' for lb, ins in f.blocks])
        return '\n'.join(out), fm

    def block(self, f, fm, k, lb, ins, labels, reg, defblk, phis, out, succ):
        mx = self.mx
        L = []
        names = {}

        def loc(n):
            i = names.get(n)
            if i is None:
                i = names[n] = 'v%d' % len(names)
            return i

        def V(v):
            if v[0] == 'l':
                n = v[1]
                if defblk.get(n) == k:
                    return names[n]
                return 'R[%d]' % reg[n]
            return self.lit(mx.constval(v[2], v[1]))

        def VR(v):
            """operand evaluated from R only (edge functions)"""
            if v[0] == 'l':
                return 'R[%d]' % reg[v[1]]
            return self.lit(mx.constval(v[2], v[1]))

        def D(x, expr):
            n = x.dst
            if n is None:
                L.append(' ' + expr)
                return
            r = loc(n)
            if n in reg:
                L.append(' %s=R[%d]=%s' % (r, reg[n], expr))
            else:
                L.append(' %s=%s' % (r, expr))

        def edge(to, val, ind, ret=True):
            s = labels[to]
            ph = phis.get(s)
            if ph:
                lhs = []
                rhs = []
                for x in ph:
                    for v, l in x.a[1]:
                        if l == lb:
                            lhs.append('R[%d]' % reg[x.dst])
                            rhs.append(val(v))
                            break
                    else:
                        raise mc.ModelError('phi without edge')
                L.append('%s%s=%s' % (ind, ','.join(lhs), ','.join(rhs)))
            L.append('%sreturn %d' % (ind, s))

        sc = []
        pre = []

        def edgefn(to, tag):
            s = labels[to]
            save = L[:]
            del L[:]
            edge(to, VR, ' ')
            body = L[:]
            L[:] = save
            nm = 'e%d_%s' % (k, tag)
            pre.append('def %s(R):' % nm)
            pre.extend(body)
            return nm
        edgenames = []
        for x in ins:
            if x.dbg:
                fm.dbgs.add(x.dbg)
            op, a = x.op, x.a
            if op == 'phi':
                continue
            if op == 'bin':
                o, t, p, q = a
                p = V(p); q = V(q)
                if t[0] == 'vec':
                    D(x, 'VBIN(%r,%r,%s,%s)' % (o, t, p, q))
                elif o in ('fadd', 'fsub', 'fmul'):
                    D(x, '%s%s%s' % (p, {'fadd': '+', 'fsub': '-', 'fmul': '*'}[o], q))
                elif o == 'fdiv':
                    D(x, 'fdiv(%s,%s)' % (p, q))
                else:
                    n = width(t)
                    m = (1 << n) - 1
                    if n == 1:
                        if o in ('and', 'mul'):
                            D(x, '%s&%s' % (p, q))
                        elif o == 'or':
                            D(x, '%s|%s' % (p, q))
                        elif o in ('xor', 'add', 'sub'):
                            D(x, '%s^%s' % (p, q))
                        else:
                            D(x, 'bv(%r,1,%s,%s)' % (o, p, q))
                    elif o in ('add', 'sub', 'mul'):
                        D(x, '(%s%s%s)&%d' % (p, {'add': '+', 'sub': '-', 'mul': '*'}[o], q, m))
                    elif o in ('and', 'or', 'xor'):
                        D(x, '%s%s%s' % (p, {'and': '&', 'or': '|', 'xor': '^'}[o], q))
                    elif o == 'lshr':
                        D(x, '%s>>%s' % (p, q))
                    else:
                        D(x, 'bv(%r,%d,%s,%s)' % (o, n, p, q))
            elif op == 'icmp':
                pred, t, p, q = a
                p = V(p); q = V(q)
                if t[0] == 'vec':
                    D(x, 'VMAP(lambda x,y:icmp(%r,%d,x,y),%s,%s)' % (pred, width(t[2]), p, q))
                else:
                    n = width(t)
                    if pred in ('eq', 'ne', 'ult', 'ule', 'ugt', 'uge'):
                        o = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}[pred]
                        D(x, '(1 if %s%s%s else 0) if %s.__class__ is int is %s.__class__ else icmp(%r,%d,%s,%s)' % (p, o, q, wrapc(p), wrapc(q), pred, n, p, q))
                    else:
                        D(x, 'icmp(%r,%d,%s,%s)' % (pred, n, p, q))
            elif op == 'fcmp':
                pred, t, p, q = a
                if t[0] == 'vec':
                    D(x, 'VMAP(lambda x,y:fcmp(%r,x,y),%s,%s)' % (pred, V(p), V(q)))
                else:
                    D(x, 'fcmp(%r,%s,%s)' % (pred, V(p), V(q)))
            elif op == 'fneg':
                if a[0][0] == 'vec':
                    D(x, 'VMAP(lambda x:-x,%s)' % V(a[1]))
                else:
                    D(x, '-(%s)' % V(a[1]))
            elif op == 'freeze':
                D(x, V(a[1]))
            elif op == 'cast':
                o, t, v, t2 = a
                v = V(v)
                if t[0] == 'i' and t2[0] == 'i' and o in ('trunc', 'zext', 'sext'):
                    n, m = t[1], t2[1]
                    if o == 'zext':
                        D(x, '%s if %s.__class__ is int else zext(%d,%d,%s)' % (v, wrapc(v), n, m, v))
                    else:
                        D(x, '%s(%d,%d,%s)' % (o, n, m, v))
                elif o in ('ptrtoint', 'inttoptr') and width(t2) == 64 and width(t) == 64 and t[0] != 'vec':
                    D(x, v)
                else:
                    D(x, 'CAST(%r,%r,%r,%s)' % (o, t, t2, v))
            elif op == 'alloca':
                t, n, al = a
                s = stride(t)
                if n is None:
                    D(x, 'alloca(%d,%d)' % (s, al))
                else:
                    D(x, 'alloca(%d*%s,%d)' % (s, V(n[1]), al))
            elif op == 'load':
                t, p, at = a
                p = V(p)
                if at:
                    L.append(' ATOM(%s,%d)' % (p, sizealign(t)[0]))
                if t == PTR or t == ('i', 64):
                    D(x, 'LQ(%s)' % p)
                elif t == ('f', 64):
                    D(x, 'LD(%s)' % p)
                elif t == ('f', 32):
                    D(x, 'LF(%s)' % p)
                elif t == ('i', 8):
                    D(x, 'LB(%s)' % p)
                elif t[0] == 'i':
                    D(x, 'LI(%s,%d)' % (p, t[1]))
                else:
                    D(x, 'LAGG(%s,%r)' % (p, t))
            elif op == 'store':
                t, v, p, at = a
                v = V(v); p = V(p)
                if at:
                    L.append(' ATOM(%s,%d)' % (p, sizealign(t)[0]))
                if t == PTR or t == ('i', 64):
                    D(x, 'SQ(%s,%s)' % (p, v))
                elif t == ('f', 64):
                    D(x, 'SD(%s,%s)' % (p, v))
                elif t == ('f', 32):
                    D(x, 'SF(%s,%s)' % (p, v))
                elif t[0] == 'i':
                    D(x, 'SI(%s,%d,%s)' % (p, t[1], v))
                else:
                    D(x, 'SAGG(%s,%s,%r)' % (p, v, t))
            elif op == 'gep':
                t, base, idx = a
                b = V(base)
                parts = []
                off = 0
                tt = t
                for i, (it, iv) in enumerate(idx):
                    if i == 0:
                        st = stride(tt)
                    elif tt[0] == 'struct':
                        fi = mx.constval(iv[2], iv[1])
                        off += offset(tt, fi)
                        tt = tt[1][fi]
                        continue
                    else:
                        tt = tt[2]
                        st = stride(tt)
                    if iv[0] == 'k':
                        off += tm.sx(mx.constval(iv[2], iv[1]), width(it)) * st
                    else:
                        e = V(iv)
                        if width(it) < 64:
                            e = 'sext(%d,64,%s)' % (width(it), e)
                        parts.append(e if st == 1 else '%s*%d' % (e, st))
                if not parts:
                    if off == 0:
                        D(x, b)
                    elif off > 0:
                        D(x, '%s+%d' % (b, off))
                    else:
                        D(x, '(%s%+d)&%d' % (b, off, M64))
                else:
                    D(x, '(%s+%s%s)&%d' % (b, '+'.join(parts), '%+d' % off if off else '', M64))
            elif op == 'select':
                t, tc, c, p, q = a
                c = V(c); p = V(p); q = V(q)
                if tc[0] == 'vec':
                    D(x, 'VMAP(lambda c,x,y:ITE(c,x,y,%r),%s,%s,%s)' % (sort_of(t[2]), c, p, q))
                elif t[0] in ('vec', 'struct', 'arr'):
                    D(x, '(%s if %s else %s) if %s.__class__ is int else MX.merge_val(%s,%s,%s,%r)' % (p, c, q, wrapc(c), c, p, q, sort_of(t)))
                else:
                    D(x, '(%s if %s else %s) if %s.__class__ is int else ITE(%s,%s,%s,%r)' % (p, c, q, wrapc(c), c, p, q, sort_of(t)))
            elif op in ('call', 'invoke'):
                self.gen_call(x, a, V, D, L)
                if op == 'invoke':
                    edge(a[3], V, ' ')
                    sc.append(labels[a[3]])
            elif op == 'asm':
                if x.dst is not None:
                    D(x, 'MX.noasm()')
            elif op == 'extractvalue':
                D(x, V(a[1]) + ''.join('[%d]' % i for i in a[2]))
            elif op == 'insertvalue':
                t, p, v, idx = a
                D(x, 'INV(%s,%s,%r)' % (V(p), V(v), tuple(idx)))
            elif op == 'extractelement':
                D(x, '%s[%s]' % (V(a[1]), V(a[2])))
            elif op == 'insertelement':
                D(x, 'INV(%s,%s,(%s,))' % (V(a[1]), V(a[2]), V(a[3])))
            elif op == 'shufflevector':
                D(x, 'SHUF(%s,%s,%s)' % (V(a[1]), V(a[2]), V(a[4])))
            elif op == 'cmpxchg':
                t, p, c, n = a
                p = V(p); c = V(c); n = V(n)
                r = loc(x.dst)
                w = width(t)
                L.append(' %s_o=LI(%s,%d)' % (r, p, w))
                L.append(' %s_k=icmp("eq",%d,%s_o,%s)' % (r, w, r, c))
                L.append(' if %s_k: SI(%s,%d,%s)' % (r, p, w, n))
                L.append(' ATOM(%s,%d,"cas" if %s_k else "",%s,%s)' % (p, w // 8, r, c, n))
                D(x, '(%s_o,%s_k)' % (r, r))
            elif op == 'atomicrmw':
                o, t, p, v = a
                p = V(p); v = V(v)
                w = width(t)
                r = loc(x.dst) if x.dst else 'tmp'
                L.append(' %s_o=LI(%s,%d)' % (r, p, w))
                if o == 'xchg':
                    L.append(' SI(%s,%d,%s)' % (p, w, v))
                elif o in ('add', 'sub', 'and', 'or', 'xor'):
                    L.append(' SI(%s,%d,bv(%r,%d,%s_o,%s))' % (p, w, o, w, r, v))
                elif o in ('umax', 'umin'):
                    L.append(' SI(%s,%d,%s(%s_o,%s))' % (p, w, o[1:], r, v))
                else:
                    raise mc.ModelError('atomicrmw ' + o)
                L.append(' ATOM(%s,%d,%r,%s_o,%s)' % (p, w // 8, o, r, v))
                D(x, '%s_o' % r) if x.dst else None
            elif op == 'br':
                edge(a[0], V, ' ')
                sc.append(labels[a[0]])
            elif op == 'cbr':
                c = V(a[0])
                e1 = edgefn(a[1], 't')
                e2 = edgefn(a[2], 'f')
                L.append(' if %s.__class__ is not int: return SB(%s,%d,%s,%s)' % (wrapc(c), c, k, 'E_%d_t' % k, 'E_%d_f' % k))
                L.append(' if %s:' % c)
                edge(a[1], V, '  ')
                edge(a[2], V, ' ')
                sc += [labels[a[1]], labels[a[2]]]
                edgenames = [('E_%d_t' % k, e1), ('E_%d_f' % k, e2)]
            elif op == 'switch':
                t, v, d, cases = a
                v = V(v)
                n = width(t)
                L.append(' if %s.__class__ is not int: return E_%d_sw(%s)(R)' % (wrapc(v), k, v))
                efs = []
                for ci, (cv, to) in enumerate(cases):
                    cvv = cv & ((1 << n) - 1)
                    efs.append((cvv, edgefn(to, 's%d' % ci)))
                    L.append(' if %s==%d:' % (v, cvv))
                    edge(to, V, '  ')
                    sc.append(labels[to])
                ed = edgefn(d, 'd')
                edge(d, V, ' ')
                sc.append(labels[d])
                pre.append('def sw%d(v):' % k)
                pre.append(' def g(i):')
                pre.append('  cs=(%s,)' % ','.join('(%d,%s)' % e for e in efs) if efs else '  cs=()')
                pre.append('  if i==len(cs): return %s' % ed)
                pre.append('  c=icmp("eq",%d,MX.resolve(v),cs[i][0])' % n)
                pre.append('  if c.__class__ is int: return cs[i][1] if c else g(i+1)')
                pre.append('  return lambda R: SB(c,%d,cs[i][1],lambda R: g(i+1)(R))' % k)
                pre.append(' return g(0)')
                edgenames = [('E_%d_sw' % k, 'sw%d' % k)]
            elif op == 'ret':
                if a[0] is not None:
                    L.append(' R[0]=%s' % V(a[1]))
                else:
                    L.append(' R[0]=None')
                L.append(' return -1')
            elif op == 'unreachable':
                L.append(' MX.panic("unreachable executed in "+%r)' % f.name)
            elif op == 'landingpad':
                L.append(' MX.panic("landingpad")')
                D(x, '0')
            else:
                raise mc.ModelError('codegen ' + op)
        fnm = 'b%d' % k
        # closures: edge functions must be visible inside the block -> define in a factory
        if pre:
            out.append('def mk%d():' % k)
            for s in pre:
                out.append(' ' + s)
            for e, s in edgenames:
                out.append(' %s=%s' % (e, s))
            out.append(' def b(R):')
            for s in L:
                out.append(' ' + s)
            out.append(' return b')
            out.append('%s=mk%d()' % (fnm, k))
        else:
            out.append('def %s(R):' % fnm)
            out.extend(L if L else [' pass'])
        succ.append(sc)

    def gen_call(self, x, a, V, D, L):
        mx = self.mx
        rt, callee, args = a[0], a[1], a[2]
        av = [V(v) for t, v in args if t != MD]
        if callee[0] == 'k' and callee[2][0] == 'glob':
            name = callee[2][1]
            if name.startswith('llvm.'):
                for s in SKIP:
                    if name.startswith(s):
                        return
                kk = name + repr([t for t, v in args])
                key = self.ids.get(kk)
                if key is None:
                    key = 'I%d' % len(self.ids)
                    self.ids[kk] = key
                    self.ns[key] = mx.ext.intrinsic(name, [t for t, v in args], rt)
                D(x, '%s(%s)' % (key, ','.join(av)))
                return
            D(x, '%s(%s)' % (self.fnid(name), ','.join(av)))
            return
        D(x, 'callp(%s,(%s))' % (V(callee), ','.join(av) + (',' if av else '')))

    def lit(self, v):
        if v.__class__ is float:
            if v != v:
                return 'NAN'
            if v == math.inf:
                return 'INF'
            if v == -math.inf:
                return '(-INF)'
            return repr(v) if v >= 0 and math.copysign(1, v) > 0 else '(%r)' % v
        if v.__class__ is tuple:
            return '(' + ','.join(self.lit(x) for x in v) + (',' if len(v) == 1 else '') + ')'
        return repr(v)


def wrapc(s):
    return '(%s)' % s if s[0].isdigit() else s


def exv(v, idx):
    for i in idx:
        v = v[i]
    return v


def inv(v, x, idx):
    i = idx[0]
    if len(idx) > 1:
        x = inv(v[i], x, idx[1:])
    return v[:i] + (x,) + v[i + 1:]


def shuf(a, b, m):
    ab = a + b
    return tuple(ab[i] if i < len(ab) else ab[0] for i in m)


def vmap(f, *vs):
    return tuple(f(*x) for x in zip(*vs))


def operands(x):
    op, a = x.op, x.a
    if op == 'bin': return [a[2], a[3]]
    if op == 'cast': return [a[2]]
    if op == 'alloca': return [a[1][1]] if a[1] else []
    if op == 'load': return [a[1]]
    if op == 'store': return [a[1], a[2]]
    if op == 'gep': return [a[1]] + [v for t, v in a[2]]
    if op in ('icmp', 'fcmp'): return [a[2], a[3]]
    if op in ('fneg', 'freeze'): return [a[1]]
    if op == 'select': return [a[2], a[3], a[4]]
    if op in ('call', 'invoke'):
        return [v for t, v in a[2] if v is not None] + [a[1]]
    if op == 'extractvalue': return [a[1]]
    if op == 'insertvalue': return [a[1], a[2]]
    if op == 'extractelement': return [a[1], a[2]]
    if op == 'insertelement': return [a[1], a[2], a[3]]
    if op == 'shufflevector': return [a[1], a[2], a[4]]
    if op == 'cmpxchg': return [a[1], a[2], a[3]]
    if op == 'atomicrmw': return [a[2], a[3]]
    if op == 'cbr': return [a[0]]
    if op == 'switch': return [a[1]]
    if op == 'ret': return [a[1]] if a[1] is not None else []
    return []


def ipdoms(succ, dead):
    """immediate post-dominators; virtual exit is -1.  Blocks that cannot reach
    a return (panic blocks) do not constrain the others."""
    n = len(succ)
    EXIT = n
    pred = [[] for _ in range(n + 1)]
    rets = []
    live = [not succ[k] and not dead[k] for k in range(n)]
    rp = [[] for _ in range(n)]
    for k in range(n):
        for t in succ[k]:
            rp[t].append(k)
    work = [k for k in range(n) if live[k]]
    while work:
        k = work.pop()
        for p in rp[k]:
            if not live[p]:
                live[p] = True
                work.append(p)
    s2 = [[t for t in dict.fromkeys(succ[k]) if live[t] or not live[k]] for k in range(n)]
    for k in range(n):
        for t in s2[k]:
            pred[t].append(k)
        if not s2[k]:
            pred[EXIT].append(k)
    # order: reverse postorder on reversed graph
    order = []
    seen = [False] * (n + 1)
    st = [(EXIT, iter(pred[EXIT]))]
    seen[EXIT] = True
    while st:
        x, it = st[-1]
        for y in it:
            if not seen[y]:
                seen[y] = True
                st.append((y, iter(pred[y])))
                break
        else:
            order.append(x)
            st.pop()
    order.reverse()
    num = {x: i for i, x in enumerate(order)}
    idom = {EXIT: EXIT}
    changed = True
    while changed:
        changed = False
        for x in order:
            if x == EXIT:
                continue
            ss = s2[x] if s2[x] else [EXIT]
            new = None
            for y in ss:
                if y in idom:
                    if new is None:
                        new = y
                    else:
                        a, b = y, new
                        while a != b:
                            while num[a] > num[b]:
                                a = idom[a]
                            while num[b] > num[a]:
                                b = idom[b]
                        new = a
            if new is not None and idom.get(x) != new:
                idom[x] = new
                changed = True
    out = []
    for k in range(n):
        d = idom.get(k, EXIT)
        out.append(-1 if d == EXIT else d)
    return out
