"""Whole steps with the real physics, boundaries and fluxes."""
from .lib import *
from .phys import ref_cons, V


def flatpar(m):
    return [100] if m == 100 else [len(m)] + [x for q in m for x in q]


def cut(*xs):
    return {x.id: 1 for x in xs if isT(x) and x.op not in ('var', 'c')}


def over(x, num):
    """the denominators of num / ... in the term x"""
    seen, todo, r = set(), [x], []
    while todo:
        x = todo.pop()
        if not isT(x) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'div' and x.args[0] is num and isT(x.args[1]):
            r.append(x.args[1])
        todo += x.args
    return r


# ------------------------------------------------------------------ C26 densities and pressures stay positive
# The lemmas are statements about numbers (solved once per run); the goals say that the code computes the formulas the lemmas speak
# about and that the premises hold. A lemma is a function of its numbers: conclusions are used for the terms of the code.

def hll_face(sl, sr, fa, ua, fb, ub):
    return 1.0 / (sr - sl) * (sr * fa - sl * fb + sr * sl * (ub - ua))


def euler(g, r, v, p):
    e = p / (g - 1.0) + 0.5 * r * v * v
    return [r, r * v, e], [r * v, r * v * v + p, (e + p) * v]


def speed_facts(l, r, va, ca, vb, cb):
    """what is used of the wave speeds of a face, va, ca left of it and vb, cb right of it"""
    return [le(l, 0.0), le(0.0, r), le(l, va - ca), le(l, vb - cb), le(va + ca, r), le(vb + cb, r)]


def lemma_density():
    a, w, l0, r0, l1, r1 = (sym('lem_' + x) for x in 'a w l0 r0 l1 r1'.split())
    r = [sym('lem_r%d' % k) for k in range(3)]
    v = [sym('lem_v%d' % k) for k in range(3)]
    c = [sym('lem_c%d' % k) for k in range(3)]
    pre = [lt(0, a), lt(a * w, 1)] + [lt(0, x) for x in r + c]
    pre += speed_facts(l0, r0, v[0], c[0], v[1], c[1]) + speed_facts(l1, r1, v[1], c[1], v[2], c[2])
    pre += [le(-l0, w), le(-l1, w), le(r0, w), le(r1, w)]
    new = r[1] - a * (hll_face(l1, r1, r[1] * v[1], r[1], r[2] * v[2], r[2]) - hll_face(l0, r0, r[0] * v[0], r[0], r[1] * v[1], r[1]))
    return [LT('lemma: density', 0, new, when=ands(pre), base=[])]


def lemma_pressure():
    """states with positive density and pressure form a convex cone, and an HLL step is a combination of elements of it"""
    g, s = sym('lem_g'), sym('lem_s')
    gs = []
    cone = lambda x: AND(lt(0, x[0]), lt(x[1] * x[1], 2.0 * x[0] * x[2]))
    closed = lambda x: ands([le(0, x[0]), le(0, x[2]), le(x[1] * x[1], 2.0 * x[0] * x[2])])
    r, v, p, c = (sym('lem_' + x) for x in 'rvpc')
    u, f = euler(g, r, v, p)
    state = [lt(1, g), lt(g, 2), lt(0, r), lt(0, p), lt(0, c), eq(c * c * r, g * p)]
    gs.append(OK('lemma: s u - f', cone([s * u[k] - f[k] for k in range(3)]), when=ands(state + [le(v + c, s)]), base=[]))
    gs.append(OK('lemma: f - s u', cone([f[k] - s * u[k] for k in range(3)]), when=ands(state + [le(s, v - c)]), base=[]))
    gs.append(OK('lemma: states', cone(u), when=ands(state), base=[]))
    x, y = [[sym('lem_%s%d' % (n, k)) for k in range(3)] for n in 'xy']
    al = sym('lem_al')
    gs.append(OK('lemma: sums', cone([x[k] + y[k] for k in range(3)]), when=ands([cone(x), closed(y)]), base=[]))
    gs.append(OK('lemma: multiples', closed([al * q for q in x]), when=ands([cone(x), le(0, al)]), base=[]))
    gs.append(OK('lemma: positive multiples', cone([al * q for q in x]), when=ands([cone(x), lt(0, al)]), base=[]))
    # weights, with u' = u - a (face1 - face0)
    a, w, l0, r0, l1, r1 = (sym('lem_' + n) for n in 'a w l0 r0 l1 r1'.split())
    pre = ands([lt(0, a), lt(a * w, F(1, 2)), le(l0, 0), le(l1, 0), le(0, r0), le(0, r1), lt(l0, r0), lt(l1, r1), le(-l0, w), le(-l1, w), le(r0, w), le(r1, w)])
    th, a1, a0 = 1 + a * l1 - a * r0, a * (-l1) / (r1 - l1), a * r0 / (r0 - l0)
    gs.append(OK('lemma: weights', ands([lt(0, th), le(0, a1), le(0, a0)]), when=pre, base=[]))
    # one component
    um, uu, up, fm, ff, fp = (sym('lem_q%d' % k) for k in range(6))
    new = uu - a * (hll_face(l1, r1, ff, uu, fp, up) - hll_face(l0, r0, fm, um, ff, uu))
    comb = th * uu + a1 * ((r1 * up - fp) + (ff - l1 * uu)) + a0 * ((r0 * uu - ff) + (fm - l0 * um))
    gs.append(EQ('lemma: combination', new, comb, when=pre, base=[]))
    return gs


def positive(c):
    S = 7
    for sysname, E in (('isot', 2), ('adia', 3)):
        names = ['gamma', 'ccfl', 'tnext'] + ['p%d_%d' % (j, i) for j in range(E) for i in range(S)] + ['c%d' % i for i in range(S)]
        inp = [sym(x) for x in names]
        ix = dict(zip(names, inp))
        top = F(1, 2) if E == 3 else F(1)
        pre = [lt(1, ix['gamma']), lt(ix['gamma'], 2), le(F(1, 100), ix['ccfl']), le(ix['ccfl'], top) if E == 3 else lt(ix['ccfl'], top), le(F(1, 1000), ix['tnext']), le(ix['tnext'], 1000)]
        for i in range(S):
            pre += [lt(0, ix['p0_%d' % i]), lt(0, ix['c%d' % i]), le(ix['c%d' % i], 1000), le(absv(ix['p1_%d' % i]), 1000)]
            if E == 3:
                pre += [lt(0, ix['p2_%d' % i]), le(ix['gamma'] * ix['p2_%d' % i], 10 ** 6 * ix['p0_%d' % i])]
        small = pre[:4]

        def goals(inp, P, E=E, sysname=sysname, top=top, small=small):
            symb = anyT(*inp)
            gs = []
            out = list(P.out)
            n = 2 * S + V.n(E, S) + 1
            if symb:
                # primitive variables that went to the conservative ones and back are the same, and replaced as such
                pairs = {}
                for m in range(E * S):
                    a, b = out[n + m], out[2 * S + m]
                    gs.append(EQ('back and forth, variable %d' % m, a, b))
                    if isT(a) and a is not b and a.op not in ('var', 'c'):
                        pairs[a.id] = b
                out = tm.rewrite(out, pairs)
            it = iter(out)
            row = lambda: [next(it) for _ in range(S)]
            dv, cwi = row(), row()
            old = V([next(it) for _ in range(V.n(E, S))], E, S, next(it))
            [row() for _ in range(E)]
            t, dt = next(it), next(it)
            k = [row() for _ in range(E)]
            p2, u2 = [row() for _ in range(E)], [row() for _ in range(E)]
            p, cs = old.prim, old.c
            g = inp[0]
            cc = cut(*(cs + [dt]))
            # the step width
            gs.append(LT('step width', 0, dt))
            st, lim = {}, {}
            for i in range(1, S - 1):
                gs.append(LT('sound speed of cell %d' % i, 0, cs[i]))
                gs += [LT('density of cell %d before' % i, 0, p[0][i])] + ([LT('pressure of cell %d before' % i, 0, p[2][i])] if E == 3 else [])
                if symb:
                    st[i] = ands([lt(0, cs[i]), lt(0, p[0][i]), lt(0, dt)])
                    lim[i] = le(dt * (absv(p[1][i]) + cs[i]) * cwi[i], inp[1])
                    rates = over(dt, inp[1])
                    if len(rates) == 1:
                        # the width is c_cfl over a number: at least this cell's rate, and the width times anything up to that number is at most c_cfl
                        R, X = rates[0], sym('lem_x')
                        gs.append(LE('rate of cell %d' % i, (absv(p[1][i]) + cs[i]) * cwi[i], R, when=lt(0, cs[i]), cuts=cut(*cs), base=[]))
                        if i == 1:
                            gs.append(LE('width and rate', dt * X, inp[1], when=ands([lt(0, dt), lt(0, X), le(X, R)]), cuts=cut(R), base=small))
                    else:
                        gs.append(OK('no wave leaves cell %d' % i, lim[i], when=st[i], cuts=cut(*cs), base=small))
                    if E == 3:
                        gs.append(EQ('sound speed and pressure of cell %d' % i, cs[i] * cs[i] * p[0][i], g * p[2][i]))
            u = [ref_cons(sysname, [q[i] for q in p], g) for i in range(S)]
            for i in range(1, S - 1):
                for j in range(E):
                    gs.append(EQ('conservative variable %d of cell %d' % (j, i), old.cons[j][i], u[i][j]))
            if symb and E == 3:
                u = [[old.cons[j][i] for j in range(E)] for i in range(S)]
                cc.update(cut(*old.cons[2]))
            f = [[u[i][1], u[i][1] * p[1][i] + (p[0][i] * cs[i] * cs[i] if E == 2 else p[2][i])] + ([(u[i][2] + p[2][i]) * p[1][i]] if E == 3 else []) for i in range(S)]
            sc = None if symb else 100 * max(abs(x) for r in f + u for x in r) * max(abs(p[1][i]) + cs[i] for i in range(S))

            def waves(v, cs, i):
                return mn2(0.0, mn2(v[i] - cs[i], v[i + 1] - cs[i + 1])), mx2(0.0, mx2(v[i] + cs[i], v[i + 1] + cs[i + 1]))
            good = 1
            orig = P.out[len(P.out) - 2 * E * S:len(P.out) - E * S]
            for i in range(2, S - 2):
                (l0, r0), (l1, r1) = waves(p[1], cs, i - 1), waves(p[1], cs, i)
                pos = 1
                if symb:
                    pos = ands([st[i - 1], st[i], st[i + 1]])
                    # the premises of the lemmas, with a = dt dv and w = c_cfl / (dt / width), from what was shown above about dt and the sound speeds
                    D, C, W = sym('lem_dt'), [sym('lem_c%d' % m) for m in range(S)], sym('lem_cfl')
                    (L0, R0), (L1, R1) = [waves(p[1], C, m) for m in (i - 1, i)]
                    have = ands([lt(0, D), lt(0, W), lt(W, top) if E == 2 else le(W, top)] + [lt(0, C[m]) for m in (i - 1, i, i + 1)] +
                                [le(D * (absv(p[1][m]) + C[m]) * cwi[i], W) for m in (i - 1, i, i + 1)])
                    facts = speed_facts(L0, R0, p[1][i - 1], C[i - 1], p[1][i], C[i]) + speed_facts(L1, R1, p[1][i], C[i], p[1][i + 1], C[i + 1])
                    facts += [le(D * x * cwi[i], W) for x in (-L0, -L1, R0, R1)] + [lt(D * dv[i] * W, top * D * cwi[i])]
                    for m, a in enumerate(facts):
                        gs.append(OK('premise %d of cell %d' % (m, i), a, when=have, base=[]))
                d = [(hll_face(l1, r1, f[i][j], u[i][j], f[i + 1][j], u[i + 1][j]) - hll_face(l0, r0, f[i - 1][j], u[i - 1][j], f[i][j], u[i][j])) * dv[i] for j in range(E)]
                for j in range(E):
                    gs.append(EQ('right-hand side %d of cell %d' % (j, i), k[j][i], d[j], when=pos, cuts=cc, scale=sc, base=small))
                if symb:
                    gs += defined('right-hand side of cell %d' % i, [k[j][i] for j in range(E)], when=pos, cuts=cc)
                new = [u[i][j] - dt * k[j][i] for j in range(E)]
                gs.append(EQ('new density of cell %d' % i, p2[0][i], new[0], cuts=cut(dt, k[0][i]), scale=sc))
                gs.append(EQ('new momentum of cell %d' % i, p2[0][i] * p2[1][i], new[1], when=lt(0, new[0]), cuts=cut(dt, k[0][i], k[1][i]), scale=sc, base=small))
                if E == 3:
                    gs.append(EQ('new pressure of cell %d' % i, 2.0 * p2[0][i] * p2[2][i], (g - 1.0) * (2.0 * new[0] * new[2] - new[1] * new[1]), when=lt(0, new[0]),
                                 cuts=cut(dt, k[0][i], k[1][i], k[2][i]), scale=None if symb else sc * sc, base=small))
                if symb:
                    good = AND(good, lt(0, orig[i]))
                    if E == 3:
                        good = AND(good, lt(0, orig[2 * S + i]))
            gs.append(OK('the step succeeds, given that', okay(P), when=good, cuts=cut(*orig)))
            if symb and P.status == 0:
                gs += lemma_density() + (lemma_pressure() if E == 3 else [])
            for x in gs:
                x.step = 'denominator' not in x.name
            # by the lemmas
            end = [LT('density of cell %d' % i, 0, orig[i]) for i in range(2, S - 2)]
            if E == 3:
                end += [LT('pressure of cell %d' % i, 0, orig[2 * S + i]) for i in range(2, S - 2)]
            end.append(OK('the step succeeds', okay(P)))
            for x in end:
                x.final = True
            return gs + end

        def gen(rng, E=E):
            w = rng.choice((1, 2, 4, 6))
            rows = [[2.0 ** rng.uniform(-w, w) if j != 1 else rng.uniform(-w, w) for _ in range(S)] for j in range(E)]
            return [1.4, rng.choice((rng.uniform(0.1, 0.5), 0.5, 0.5 if E == 3 else 0.98)), 1.5] + [x for r in rows for x in r] + [2.0 ** rng.uniform(-w, w) for _ in range(S)]
        c.scenario('positive-' + sysname, 'vh_godunov_' + sysname, inp, 2 * S + V.n(E, S) + 3 + 4 * E * S, flatpar(100) * 2, pre, goals, gen=gen, nvalid=6, expect='any')
    c.flush()
    c.bounds.append('S=7 cells, both physics systems, Hll, RK1, no gradients boundaries, every state with positive density, sound speed (and pressure), speeds up to 1000; CFL parameter below 1 '
                    '(pressure: at most 1/2), every next output time; exact reals')


CHECKS = {'C26': positive}
