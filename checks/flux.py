"""Numerical fluxes: Hll, Kt, reconstruction, conservation, free stream, symmetry."""
from .lib import *

S = 8
IN, OUT = 2, 5          # first / last interior cell for S = 8


def hll_spec(emin, emax, fl, u, i, j):
    """numerical flux between cells i and i+1, equation j (doc of Hll)"""
    sl = mn2(0.0, mn2(emin[i], emin[i + 1]))
    sr = mx2(0.0, mx2(emax[i], emax[i + 1]))
    return (sr * fl[j][i] - sl * fl[j][i + 1] + sr * sl * (u[j][i + 1] - u[j][i])) / (sr - sl)


def hll_flux(c):
    names = ['xi_in', 'xi_out'] + ['emin%d' % i for i in range(S)] + ['emax%d' % i for i in range(S)]
    names += ['f%d_%d' % (j, i) for j in range(2) for i in range(S)]
    names += ['stale%d_%d' % (j, i) for j in range(2) for i in range(S)]
    names += ['u%d_%d' % (j, i) for j in range(2) for i in range(S)]
    names += ['d%d_%d' % (j, i) for j in range(2) for i in range(S)]

    def unpack(inp):
        it = iter(inp[2:])
        row = lambda: [next(it) for _ in range(S)]
        emin, emax = row(), row()
        f = [row(), row()]
        stale = [row(), row()]
        u = [row(), row()]
        d = [row(), row()]
        return emin, emax, f, u, d, list(it)

    for twice in (0, 1):
        nm = list(names)
        if twice:
            nm += ['g%d_%d' % (k, i) for k in range(6) for i in range(S)]
        inp = [1.0, 2.0] + [sym(n) for n in nm[2:]]

        def last(inp):
            emin, emax, f, u, d, rest = unpack(inp)
            if rest:
                r = [rest[k * S:(k + 1) * S] for k in range(6)]
                emin, emax, f, u = r[0], r[1], r[2:4], r[4:6]
            return emin, emax, f, u, d

        emin, emax, f, u, d = last(inp)
        pre = []
        sets = [(emin, emax)]
        if twice:
            e0, e1 = unpack(inp)[:2]
            sets.append((e0, e1))
        for lo, hi in sets:
            for i in range(S):
                pre.append(lt(lo[i], hi[i]))

        def goals(inp, P):
            emin, emax, f, u, d = last(inp)
            dv = P.out[:S]
            df = [P.out[S:2 * S], P.out[2 * S:3 * S]]
            co = [P.out[3 * S:4 * S], P.out[4 * S:5 * S]]
            gs = []
            for j in range(2):
                for i in range(S):
                    if IN <= i <= OUT:
                        a = hll_spec(emin, emax, f, u, i, j)
                        b = hll_spec(emin, emax, f, u, i - 1, j)
                        sc = None if anyT(*inp) else abs(dv[i]) * (abs(a) + abs(b)) + 1e-12
                        gs.append(EQ('dflux[%d][%d]' % (j, i), df[j][i], dv[i] * (a - b), scale=sc))
                    gs.append(EQ('cons untouched[%d][%d]' % (j, i), co[j][i], u[j][i]))
            return gs

        def gen(rng):
            v = [1.0, 2.0]
            v += [rng.uniform(-3, 0.5) for _ in range(S)]
            v += [rng.uniform(0.6, 3) for _ in range(S)]
            v += [rng.uniform(-2, 2) for _ in range(8 * S)]
            if twice:
                v += [rng.uniform(-3, -0.5) for _ in range(S)] + [rng.uniform(-0.4, 3) for _ in range(S)]
                v += [rng.uniform(-2, 2) for _ in range(4 * S)]
            return v
        c.scenario('hll-free-%d' % twice, 'vh_hll_free', inp, 5 * S, [twice], pre, goals, gen=gen)
    c.bounds.append('S=8 cells, E=2 equations, cartesian mesh [1,2], exact reals, every eigen value with eigen_min < eigen_max')
    c.flush()



LIMITERS = ['NoLimiter', 'MinMod', 'Superbee', 'Monocent', 'VanLeer']


def limited(k, theta, a, b):
    """documented slope (times the cell width) from the backward / forward differences a, b"""
    mag = None
    if k == 0:
        return 0.5 * (a + b)
    if k == 1:
        mag = mn2(absv(a), absv(b))
    elif k == 2:
        mag = mn2(mn2(absv(a), absv(b)), 0.5 * mx2(absv(a), absv(b)))
    elif k == 3:
        mag = mn2(mn2(theta * absv(a), theta * absv(b)), 0.5 * absv(a + b))
    else:
        den = absv(a) + absv(b)
        return ite(lt(0.0, den), (a * absv(b) + b * absv(a)) / ite(lt(0.0, den), den, 1.0), 0.0)
    return ite(lt(0.0, a * b), ite(lt(0.0, a), mag, -mag), 0.0)


def kt_inputs(c):
    names = ['theta'] + ['a%d' % k for k in range(12)] + ['u%d_%d' % (j, i) for j in range(2) for i in range(S)]
    names += ['d%d_%d' % (j, i) for j in range(2) for i in range(S)]
    inp = [sym(n) for n in names]

    def gen(rng):
        return ([rng.uniform(1.01, 2)] + [-3.0 + rng.uniform(0, 1), rng.uniform(-.3, .3), rng.uniform(-.3, .3), rng.uniform(2, 3),
                                         rng.uniform(-.3, .3), rng.uniform(-.3, .3)] + [rng.uniform(-2, 2) for _ in range(6)] +
                [rng.uniform(-2, 2) for _ in range(4 * S)])
    return inp, gen


def kt_parts(inp, P):
    o = P.out
    dv = o[:S]
    d = [o[S:2 * S], o[2 * S:3 * S]]
    co = [o[3 * S:4 * S], o[4 * S:5 * S]]
    w = [o[5 * S:6 * S], o[6 * S:7 * S]]
    e = [o[7 * S:8 * S], o[8 * S:9 * S]]
    u = [inp[13:13 + S], inp[13 + S:13 + 2 * S]]
    return dv, d, co, w, e, u


def limiter_pre(inp, k):
    pre = [lt(1, inp[0])]
    # the guard against 0/0 in VanLeer is negligible for differences that are not subnormal
    if k == 4:
        for j in range(2):
            u = inp[13 + j * S:13 + (j + 1) * S]
            for i in range(S - 1):
                a = absv(u[i + 1] - u[i])
                pre.append(OB(eq(a, 0), le(F(1, 10 ** 100), a)))
    return pre


def documented(inp, k, u, j, i, w, e):
    """the face states used by the fluxes have the documented slope"""
    gs = []
    x, a, b = u[j][i], u[j][i] - u[j][i - 1], u[j][i + 1] - u[j][i]
    sc = absv(x) + absv(a) + absv(b)
    for tag, f, sg, used in (('west', w[j][i], -0.5, i >= IN), ('east', e[j][i], 0.5, i <= OUT)):
        if used:
            nm = '%s %s face[%d][%d]: documented slope' % (LIMITERS[k], tag, j, i)
            ref = sg * limited(k, inp[0], a, b)
            if k != 4:
                gs.append(EQ(nm, f, x + ref, scale=sc))
            else:
                gs.append(LE(nm, absv((f - x) - ref), F(1, 10 ** 12) * absv(ref), scale=sc))
    return gs


def limiter_check(c):
    """reconstruction: documented formula and its bounds"""
    inp, gen = kt_inputs(c)
    for k, lname in enumerate(LIMITERS):
        pre = limiter_pre(inp, k)

        def goals(inp, P, k=k, lname=lname):
            dv, d, co, w, e, u = kt_parts(inp, P)
            gs = []
            for j in range(2):
                for i in range(1, S - 1):
                    x, a, b = u[j][i], u[j][i] - u[j][i - 1], u[j][i + 1] - u[j][i]
                    gs += documented(inp, k, u, j, i, w, e)
                    for tag, f, sg, used in (('west', w[j][i], -0.5, i >= IN), ('east', e[j][i], 0.5, i <= OUT)):
                        if not used:
                            continue
                        nm = '%s %s face[%d][%d]' % (lname, tag, j, i)
                        sc = absv(x) + absv(a) + absv(b)
                        if k:
                            lo, hi = mn2(mn2(u[j][i - 1], x), u[j][i + 1]), mx2(mx2(u[j][i - 1], x), u[j][i + 1])
                            ok = le(inp[0], 2) if k == 3 else 1
                            gs.append(LE(nm + ': not below the neighbours', lo, f, scale=sc, when=ok))
                            gs.append(LE(nm + ': not above the neighbours', f, hi, scale=sc, when=ok))
                            gs.append(EQ(nm + ': flat at extrema', f, x, scale=sc, when=le(a * b, 0.0)))
                    gs.append(EQ('centre untouched[%d][%d]' % (j, i), co[j][i], x))
            return gs
        c.scenario('limiter-' + lname, 'vh_kt_affine', inp, 9 * S, [k], pre, goals, gen=gen)
        c.flush()
    c.bounds.append('five limiters, S=8 cells, E=2, every state; Monocent: every theta > 1 (bounds between neighbours: theta <= 2); '
                    'VanLeer: differences of neighbours 0 or at least 1e-100')


def kt_flux(c):
    """face flux of Kt from the reconstructed face states"""
    inp, gen = kt_inputs(c)
    for k in range(5):
        pre = limiter_pre(inp, k)

        def goals(inp, P, k=k):
            dv, d, co, w, e, u = kt_parts(inp, P)
            A = inp[1:13]
            gs = []
            for j in range(2):
                for i in range(S):
                    gs.append(EQ('centre untouched[%d][%d]' % (j, i), co[j][i], u[j][i]))
                for i in range(1, S - 1):
                    gs += documented(inp, k, u, j, i, w, e)
            if k > 1 and c.tier == 'quick':
                return gs
            symb = anyT(*inp)
            cuts = None
            if symb:
                cuts = {x.id: 1 for r in w + e for x in r if isT(x)}

            def speeds(p):
                return A[0] + A[1] * p[0] + A[2] * p[1], A[3] + A[4] * p[0] + A[5] * p[1]

            def flux(p):
                return [A[6] + A[7] * p[0] + A[8] * p[1], A[9] + A[10] * p[0] + A[11] * p[1]]

            def face(i):
                E_, W_ = [e[0][i], e[1][i]], [w[0][i + 1], w[1][i + 1]]
                (l1, r1), (l2, r2) = speeds(E_), speeds(W_)
                ap, am = mx2(0.0, mx2(r1, r2)), mn2(0.0, mn2(l1, l2))
                fe, fw = flux(E_), flux(W_)
                if symb:
                    # these nodes are shared with the executed physics: generalise over them
                    cuts.update((x.id, 1) for x in [l1, r1, l2, r2] + fe + fw if isT(x))
                ok = AB(lt(l1, r1), lt(l2, r2))
                return [(ap * fe[j] - am * fw[j] + ap * am * (W_[j] - E_[j])) / (ap - am) if symb or ap > am else 0.0 for j in range(2)], ok

            F_ = {i: face(i) for i in range(IN - 1, OUT + 1)}
            for j in range(2):
                for i in range(IN, OUT + 1):
                    (a, oka), (b, okb) = F_[i], F_[i - 1]
                    sc = None if symb else abs(dv[i]) * (abs(a[j]) + abs(b[j])) + 1e-12
                    gs.append(EQ('dflux[%d][%d]' % (j, i), d[j][i], dv[i] * (a[j] - b[j]), scale=sc, when=AB(oka, okb), cuts=cuts))
            return gs
        c.scenario('kt-' + LIMITERS[k], 'vh_kt_affine', inp, 9 * S, [k], pre, goals, gen=gen)
    c.flush()
    c.bounds.append('S=8 cells, E=2, physics with arbitrary affine flux, wave speeds (min < max at every face) and states, cartesian mesh [1,2]')


def conserve(c):
    """the sum over the cells does not depend on the inner cells"""
    n = 10
    names = ['theta'] + ['a%d' % k for k in range(12)] + ['u%d_%d' % (j, i) for j in range(2) for i in range(n)]
    names += ['v%d_%d' % (j, i) for j in range(2) for i in (4, 5)]
    inp = [sym(x) for x in names]

    def gen(rng):
        return ([rng.uniform(1.01, 2)] + [-3.0 + rng.uniform(0, 1), rng.uniform(-.3, .3), rng.uniform(-.3, .3), rng.uniform(2, 3),
                                         rng.uniform(-.3, .3), rng.uniform(-.3, .3)] + [rng.uniform(-2, 2) for _ in range(6)] +
                [rng.uniform(-2, 2) for _ in range(2 * n + 4)])
    for k, nm in enumerate(['Hll'] + LIMITERS):
        def goals(inp, P):
            o = P.out
            dv = o[:n]
            gs = []
            for j in range(2):
                s1 = sumv([o[n + j * n + i] / dv[i] for i in range(2, n - 2)])
                s2 = sumv([o[3 * n + j * n + i] / dv[i] for i in range(2, n - 2)])
                sc = None if anyT(*inp) else sum(abs(o[b + j * n + i] / dv[i]) for b in (n, 3 * n) for i in range(2, n - 2))
                gs.append(EQ('sum over the cells, equation %d' % j, s1, s2, scale=sc))
            return gs
        c.scenario('conserve-' + nm, 'vh_conserve', inp, 5 * n, [k], [lt(1, inp[0])], goals, gen=gen)
    c.flush()
    c.bounds.append('S=10 cells, E=2; the two innermost cells take two arbitrary values, all other cells and an affine physics are arbitrary')


def freestream(c):
    for sysname, E in (('isot', 2), ('adia', 3)):
        inp = [sym(x) for x in ['gamma', 'theta'] + ['p%d_%d' % (j, i) for j in range(E) for i in range(S)] + ['c%d' % i for i in range(S)]]
        rows = [inp[2 + j * S:2 + (j + 1) * S] for j in range(E + 1)]
        pre = [lt(1, inp[0]), lt(inp[0], 2), lt(1, inp[1])] + [lt(0, r[0]) for j, r in enumerate(rows) if j != 1]
        # every cell has its own variables; that they are equal is for the solver to use
        pre += [eq(x, r[0]) for r in rows for x in r[1:]]
        for k, nm in enumerate(['Hll'] + LIMITERS):
            def goals(inp, P):
                o = P.out
                gs = []
                sc = None if anyT(*inp) else sum(abs(x) for x in o[S + E * S:]) * (10 + abs(inp[2 + S]) ** 3) + 1
                for j in range(E):
                    for i in range(IN, OUT + 1):
                        gs.append(EQ('dflux[%d][%d] vanishes' % (j, i), o[S + j * S + i], 0.0, scale=sc))
                if anyT(*inp):
                    gs += defined('uniform state', o[S:S + E * S])
                return gs

            def gen(rng):
                x = [rng.uniform(1.1, 1.9), rng.uniform(1.1, 2)]
                r, v, p, cs = rng.uniform(.1, 3), rng.uniform(-3, 3), rng.uniform(.1, 3), rng.uniform(.1, 3)
                return x + [r] * S + [v] * S + ([p] * S if E == 3 else []) + [cs] * S
            c.scenario('uniform-%s-%s' % (sysname, nm), 'vh_flux_' + sysname, inp, S + 2 * E * S, [k], pre, goals, gen=gen)
    c.flush()
    c.bounds.append('S=8 cells, both physics systems, Hll and Kt with all limiters, every uniform state with positive density, pressure, sound speed')


CHECKS = {'C02': hll_flux, 'C03': kt_flux, 'C04': limiter_check, 'C05': conserve, 'C06': freestream}
