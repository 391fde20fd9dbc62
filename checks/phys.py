"""Conversions and derived quantities of the physics systems."""
from .lib import *

S = 3
SYS = {'isot': 2, 'adia': 3}
FIELDS = ('prim', 'cons', 'c', 'eig', 'flux')


def vnames(tag, E, S):
    return (['%s_prim%d_%d' % (tag, j, i) for j in range(E) for i in range(S)] +
            ['%s_cons%d_%d' % (tag, j, i) for j in range(E) for i in range(S)] +
            ['%s_c_%d' % (tag, i) for i in range(S)] +
            ['%s_eig%d_%d' % (tag, j, i) for j in range(E) for i in range(S)] +
            ['%s_flux%d_%d' % (tag, j, i) for j in range(E) for i in range(S)])


class V(object):
    """view of one dumped / loaded Variables"""

    def __init__(self, xs, E, S, gamma=None):
        it = iter(xs)
        row = lambda: [next(it) for _ in range(S)]
        self.prim = [row() for _ in range(E)]
        self.cons = [row() for _ in range(E)]
        self.c = row()
        self.eig = [row() for _ in range(E)]
        self.flux = [row() for _ in range(E)]
        self.gamma = gamma
        self.E, self.S = E, S

    @staticmethod
    def n(E, S):
        return 4 * E * S + S

    def get(self, f, j, i):
        x = getattr(self, f)
        return x[i] if f == 'c' else x[j][i]

    def slots(self):
        for f in FIELDS:
            for j in range(1 if f == 'c' else self.E):
                for i in range(self.S):
                    yield f, j, i


def views_in(inp, E, S):
    n = V.n(E, S)
    return [V(inp[1 + k * n:1 + (k + 1) * n], E, S, inp[0]) for k in range(3)]


def views_out(out, E, S):
    n = V.n(E, S) + 1
    return [V(out[k * n:(k + 1) * n - 1], E, S, out[(k + 1) * n - 1]) for k in range(3)]


# ---- reference definitions (ideal gas, one dimension)
def ref_cons(sysname, p, g):
    if sysname == 'isot':
        return [p[0], p[0] * p[1]]
    return [p[0], p[0] * p[1], p[2] / (g - 1.0) + 0.5 * p[0] * p[1] * p[1]]


def ref_prim(sysname, u, g):
    if sysname == 'isot':
        return [u[0], u[1] / u[0]]
    return [u[0], u[1] / u[0], (g - 1.0) * (u[2] - 0.5 * u[1] * u[1] / u[0])]


def ref_flux(sysname, p, u, c):
    if sysname == 'isot':
        return [u[1], u[0] * (p[1] * p[1] + c * c)]
    return [u[1], u[1] * p[1] + p[2], (u[2] + p[2]) * p[1]]


def ref_c2(p, g):
    return g * p[2] / p[0]


OPS = ['update_prim', 'update_cons', 'update_c_sound', 'update_eigen_vals', 'update_eigen_vals_min', 'update_eigen_vals_max',
       'update_flux', 'update_derived_variables', 'init_west_east', 'cons-then-prim', 'prim-then-cons']


def col(v, f, i):
    return [getattr(v, f)[j][i] for j in range(v.E)]


def writes(sysname, op, v, i, after):
    """{(field, row): expected value} of the cell i of the Variables the operation is applied to; `after` is the result"""
    E, g = v.E, v.gamma
    p, u, c = col(v, 'prim', i), col(v, 'cons', i), v.c[i]
    w = {}
    if op == 'update_prim':
        for j, x in enumerate(ref_prim(sysname, u, g)):
            w['prim', j] = x
    elif op == 'update_cons':
        for j, x in enumerate(ref_cons(sysname, p, g)):
            w['cons', j] = x
    elif op in ('update_c_sound', 'update_derived_variables', 'update_eigen_vals', 'update_eigen_vals_min', 'update_eigen_vals_max'):
        if op in ('update_c_sound', 'update_derived_variables') and sysname == 'adia':
            w['c', 0] = 'sound'
            c = after.c[i]
        if op in ('update_derived_variables', 'update_eigen_vals', 'update_eigen_vals_min'):
            w['eig', 0] = p[1] - c
        if op in ('update_derived_variables', 'update_eigen_vals', 'update_eigen_vals_max'):
            w['eig', E - 1] = p[1] + c
        if op in ('update_derived_variables', 'update_eigen_vals'):
            for j in range(1, E - 1):
                w['eig', j] = p[1]
    elif op == 'update_flux':
        for j, x in enumerate(ref_flux(sysname, p, u, c)):
            w['flux', j] = x
    elif op == 'cons-then-prim':
        for j in range(E):
            w['prim', j] = p[j]
        for j, x in enumerate(ref_cons(sysname, p, g)):
            w['cons', j] = x
    elif op == 'prim-then-cons':
        for j in range(E):
            w['cons', j] = u[j]
        for j, x in enumerate(ref_prim(sysname, u, g)):
            w['prim', j] = x
    return w


def run_ops(c, ops, dirs):
    for sysname, E in SYS.items():
        n = V.n(E, S)
        inp = [sym('gamma')] + [sym(x) for t in 'WCE' for x in vnames(t, E, S)]
        vin = views_in(inp, E, S)
        pre = [lt(1, inp[0]), lt(inp[0], 2)]
        for v in vin:
            for i in range(S):
                pre += [gt(v.prim[0][i], 0), gt(v.cons[0][i], 0)]
                if E == 3:
                    pre += [gt(v.prim[2][i], 0)]

        def gen(rng):
            out = [rng.uniform(1.1, 1.9)]
            for k in range(3):
                for f in FIELDS:
                    for j in range(1 if f == 'c' else E):
                        for i in range(S):
                            pos = f == 'c' or (f in ('prim', 'cons') and j in (0, 2))
                            out.append(rng.uniform(0.2, 3) if pos else rng.uniform(-3, 3))
            return out

        for op in ops:
            k = OPS.index(op)
            for d in dirs:
                if op == 'init_west_east' and d != 3:
                    continue

                def goals(inp, P, op=op, d=d):
                    vi = views_in(inp, E, S)
                    vo = views_out(P.out, E, S)
                    gs = []
                    tgt = {0: 0, 1: 1, 2: 2, 3: 1}[d]
                    for q in range(3):
                        gs.append(EQ('%s: gamma[%d] untouched' % (op, q), vo[q].gamma, inp[0]))
                        for i in range(S):
                            w = {}
                            if op == 'init_west_east':
                                if q != 1:
                                    for j in range(E):
                                        w['prim', j] = vi[1].prim[j][i]
                                        w['cons', j] = vi[1].cons[j][i]
                                    w['c', 0] = vi[1].c[i]
                            elif q == tgt:
                                w = writes(sysname, op, vi[q], i, vo[q])
                            for f, j, ii in vi[q].slots():
                                if ii != i:
                                    continue
                                nm = '%s: %s %s[%d][%d]' % (op, 'WCE'[q], f, j, i)
                                got = vo[q].get(f, j, i)
                                x = w.get((f, j))
                                if x is None:
                                    if op == 'init_west_east' and q != 1 and f in ('eig', 'flux'):
                                        continue
                                    gs.append(EQ(nm + ' untouched', got, vi[q].get(f, j, i)))
                                elif x.__class__ is str:
                                    g2 = ref_c2(col(vi[q], 'prim', i), inp[0])
                                    gs.append(EQ(nm + ' squared = gamma p / rho', got * got, g2))
                                    gs.append(LE(nm + ' nonnegative', 0.0, got))
                                else:
                                    gs.append(EQ(nm, got, x, scale=scale_of(inp, vi[q], i)))
                    return gs
                c.scenario('%s-%s-%d' % (sysname, op, d), 'vh_phys_' + sysname, inp, 3 * (n + 1), [k, d], pre, goals, gen=gen)
        c.flush()
    c.bounds.append('S=%d cells, every row and cell symbolic, Euler1DIsot and Euler1DAdiabatic, exact reals; 1 < gamma < 2, density > 0 (and pressure > 0)' % S)


def scale_of(inp, v, i):
    if anyT(*inp):
        return None
    # magnitude of the terms that may cancel
    p, u = col(v, 'prim', i), col(v, 'cons', i)
    m = max([abs(x) for x in p + u] + [1e-300])
    if v.cons[0][i]:
        m = max(m, abs(u[1] * u[1] / u[0]), abs(u[1] / u[0]))
    m = max(m, abs(p[0] * p[1] * p[1]), abs(p[0] * p[1]), v.c[i] ** 2)
    if v.E == 3 and v.gamma > 1:
        m = max(m, abs(p[2] / (v.gamma - 1)))
    return m


def conversions(c):
    run_ops(c, ['update_prim', 'update_cons', 'cons-then-prim', 'prim-then-cons'], [0, 1, 2, 3])


def derived(c):
    run_ops(c, ['update_c_sound', 'update_eigen_vals', 'update_eigen_vals_min', 'update_eigen_vals_max', 'update_flux',
                'update_derived_variables', 'init_west_east'], [0, 1, 2, 3] if c.tier == 'thorough' else [0, 1, 2, 3])
    # assign: prim, cons and c_sound of the addressed locations are copied, the source and everything else stay
    E = 3
    n = V.n(E, S)
    inp = [sym(u + x) for u in 'ab' for t in 'WCE' for x in vnames(t, E, S)]
    for k, locs in enumerate(((0, 1, 2), (1,), (0,), (2,))):
        def goals(inp, P, locs=locs):
            A = views_in([1.4] + list(inp[:3 * n]), E, S)
            B = views_in([1.4] + list(inp[3 * n:]), E, S)
            oA = views_out(P.out[:3 * (n + 1)], E, S)
            oB = views_out(P.out[3 * (n + 1):], E, S)
            gs = []
            for q in range(3):
                for f, j, i in A[q].slots():
                    gs.append(EQ('source %s[%d][%d][%d]' % (f, q, j, i), oB[q].get(f, j, i), B[q].get(f, j, i)))
                    if f in ('prim', 'cons', 'c'):
                        gs.append(EQ('target %s[%d][%d][%d]' % (f, q, j, i), oA[q].get(f, j, i), (B if q in locs else A)[q].get(f, j, i)))
            return gs
        c.scenario('assign-%d' % k, 'vh_assign_adia', inp, 6 * (n + 1), [k], [], goals,
                   gen=lambda rng: [rng.uniform(-3, 3) for _ in inp])
    c.flush()


CHECKS = {'C08': conversions, 'C09': derived}
