"""Runge-Kutta(-Fehlberg) time stepping."""
from .lib import *

E, S = 2, 6
MODES = ['RK1', 'RK2', 'RK3', 'RK4', 'Heun2', 'RKF12', 'RKF45', 'SSPRK3', 'SSPRK5']


def fr(s):
    return [F(x) for x in s.split()]


# (A by rows, b high, b low or None, order of b high, tolerance of the published coefficients)
TAB = {
    'RK1': ([[]], fr('1'), None, 1, 0),
    'RK2': ([[], fr('1/2')], fr('0 1'), None, 2, 0),
    'RK3': ([[], fr('1/2'), fr('-1 2')], fr('1/6 2/3 1/6'), fr('0 1 0'), 3, 0),
    'RK4': ([[], fr('1/2'), fr('0 1/2'), fr('0 0 1')], fr('1/6 1/3 1/3 1/6'), None, 4, 0),
    'Heun2': ([[], fr('1')], fr('1/2 1/2'), fr('1 0'), 2, 0),
    'RKF12': ([[], fr('1/2'), fr('1/256 255/256')], fr('1/512 255/256 1/512'), fr('1/256 255/256 0'), 2, 0),
    'RKF45': ([[], fr('1/4'), fr('3/32 9/32'), fr('1932/2197 -7200/2197 7296/2197'), fr('439/216 -8 3680/513 -845/4104'),
               fr('-8/27 2 -3544/2565 1859/4104 -11/40')],
              fr('16/135 0 6656/12825 28561/56430 -9/50 2/55'), fr('25/216 0 1408/2565 2197/4104 -1/5 0'), 5, 0),
    'SSPRK3': ([[], fr('1'), fr('1/4 1/4')], fr('1/6 1/6 2/3'), fr('1/2 1/2 0'), 3, 0),
    'SSPRK5': ([[], fr('0.36717'), fr('0.26802 0.31720'), fr('0.11606 0.13735 0.18816'), fr('0.11212 0.13269 0.18178 0.41980')],
               fr('0.17279 0.094505 0.12947 0.29899 0.30424'), fr('0.12293 0.31981 -0.15316 0.31887 0.39155'), 3, F(1, 10000)),
}


def order_conditions(A, b, order):
    """residuals of the order conditions (Butcher) up to `order` (at most 5)"""
    n = len(b)
    a = [list(r) + [F(0)] * (n - len(r)) for r in A]
    c = [sum(r) for r in a]
    mv = lambda v: [sum(a[i][j] * v[j] for j in range(n)) for i in range(n)]
    had = lambda *vs: [math.prod(x) for x in zip(*vs)]
    dot = lambda v: sum(x * y for x, y in zip(b, v))
    one = [F(1)] * n
    Ac, c2, c3 = mv(c), had(c, c), had(c, c, c)
    conds = [
        [(one, 1)],
        [(c, 2)],
        [(c2, 3), (Ac, 6)],
        [(c3, 4), (had(c, Ac), 8), (mv(c2), 12), (mv(Ac), 24)],
        [(had(c, c3), 5), (had(c2, Ac), 10), (had(Ac, Ac), 20), (had(c, mv(c2)), 15), (mv(c3), 20), (had(c, mv(Ac)), 30),
         (mv(had(c, Ac)), 40), (mv(mv(c2)), 60), (mv(mv(Ac)), 120)],
    ]
    return [abs(dot(v) - F(1, g)) for k in range(order) for v, g in conds[k]]


def stages(c):
    for m in MODES:
        A, b, bl, order, tol = TAB[m]
        if max(order_conditions(A, b, order)) > tol:
            raise EngineError('reference tableau of %s violates its order conditions' % m)
        if order < 5 and max(order_conditions(A, b, order + 1)) < F(1, 1000):
            raise EngineError('reference tableau of %s has a higher order' % m)
    n_in = S - 4
    for k, m in enumerate(MODES):
        A, b, bl, order, tol = TAB[m]
        ns = len(b)
        hdr = ['t', 'dt']
        body = ['u%d_%d' % (j, i) for j in range(E) for i in range(S)]
        ks = ['k%d_%d_%d' % (q, j, i) for q in range(ns) for j in range(E) for i in range(n_in)]
        far = 1e6
        inp = [sym('t'), sym('dt'), far, 1e9, 1e-9, 0.001, 0.001, 0.08] + [sym(x) for x in body + ks]
        pre = [ge(inp[0], 0), le(inp[0], 100), ge(inp[1], F(1, 1000)), le(inp[1], 100)]

        def goals(inp, P, A=A, b=b, ns=ns):
            t, dt = inp[0], inp[1]
            u = inp[8:8 + E * S]
            K = inp[8 + E * S:]
            o = P.out
            at = lambda q, j, i: K[(q * E + j) * n_in + i - 2]
            cons, prim, rec = o[4:4 + E * S], o[4 + E * S:4 + 2 * E * S], o[4 + 2 * E * S:]
            gs = [EQ('t advances by dt', o[1], t + dt), EQ('dt is the CFL step', o[2], dt), EQ('one iteration', o[3], 1.0)]
            for j in range(E):
                for i in range(S):
                    inner = 2 <= i < S - 2
                    x = u[j * S + i]
                    sc = None if anyT(*inp) else max(abs(x), dt * max([abs(at(q, j, i)) for q in range(ns)]) if inner else 0.0)
                    fin = x
                    for q in range(ns):
                        st = x
                        if inner:
                            for p in range(q):
                                st = st - dt * A[q][p] * at(p, j, i)
                            fin = fin - dt * b[q] * at(q, j, i)
                        gs.append(EQ('stage %d state[%d][%d]' % (q, j, i), rec[q * E * S + j * S + i], st, scale=sc))
                    gs.append(EQ('new state[%d][%d]' % (j, i), cons[j * S + i], fin, scale=sc))
                    gs.append(EQ('prim follows[%d][%d]' % (j, i), prim[j * S + i], cons[j * S + i]))
            return gs

        def gen(rng):
            return ([rng.uniform(0, 3), rng.uniform(0.01, 2), far, 1e9, 1e-9, 0.001, 0.001, 0.08] +
                    [rng.uniform(-3, 3) for _ in body + ks])
        c.scenario('stages-' + m, 'vh_rk', inp, 4 + (2 + ns) * E * S, [k, 0, ns, ns], pre, goals, gen=gen)
    # the next steps start from the state and time of the one before, and from nothing else
    for k, m in enumerate(MODES):
        A, b, bl, order, tol = TAB[m]
        ns = len(b)
        for asc in ((0, 1) if bl else (0,)):
            steps = 2 if c.tier == 'quick' or asc else 3
            names = ['t'] + ['dt%d' % n for n in range(steps)]
            body = ['u%d_%d' % (j, i) for j in range(E) for i in range(S)]
            # with step control: a trial without any right-hand side has no error, and is followed by a step of fourfold width
            ev = ns * (1 + asc)
            at1 = (1, 3) if asc else None
            ks = [sym('k%d_%d_%d' % (q, j, i)) if q % ev >= ev - ns and at1 in (None, (j, i + 2)) else 0.0 for q in range(ev * steps) for j in range(E) for i in range(n_in)]
            us = [sym(x) if at1 in (None, (k // S, k % S)) else 1.5 for k, x in enumerate(body)]
            inp = [sym(x) for x in names] + us + ks
            pre = [ge(inp[0], 0), le(inp[0], 100)] + [AB(ge(x, F(1, 1000)), le(x, 1 if asc else 100)) for x in inp[1:1 + steps]]
            if asc:
                pre += [AB(le(50, x), le(x, 100)) for x in us if isT(x)] + [AB(le(-1, x), le(x, 1)) for x in ks if isT(x)]

            def goals(inp, P, A=A, b=b, ns=ns, steps=steps, ev=ev, asc=asc):
                t, dts = inp[0], [x * (1 + 3 * asc) for x in inp[1:1 + steps]]
                u = inp[1 + steps:1 + steps + E * S]
                K = inp[1 + steps + E * S:]
                o = P.out
                at = lambda q, j, i: K[(q * E + j) * n_in + i - 2]
                cons, rec = o[3:3 + E * S], o[3 + E * S:]
                gs = [EQ('every step evaluates each stage', o[0], float(ev * steps)), EQ('t advances by all steps', o[1], t + sumv(dts)), EQ('iterations', o[2], float(steps))]
                for j in range(E):
                    for i in range(S):
                        inner = 2 <= i < S - 2
                        x = u[j * S + i]
                        sc = None if anyT(*inp) else abs(x) + sum(dts) * sum(abs(at(q, j, i)) for q in range(ev * steps)) if inner else 1.0
                        for n in range(steps):
                            fin = x
                            if asc:
                                for q in range(ns):
                                    gs.append(EQ('step %d trial stage %d state[%d][%d]' % (n, q, j, i), rec[(n * ev + q) * E * S + j * S + i], x, scale=sc))
                            for q in range(ns):
                                st = x
                                if inner:
                                    for p in range(q):
                                        st = st - dts[n] * A[q][p] * at(n * ev + ev - ns + p, j, i)
                                    fin = fin - dts[n] * b[q] * at(n * ev + ev - ns + q, j, i)
                                gs.append(EQ('step %d stage %d state[%d][%d]' % (n, q, j, i), rec[(n * ev + ev - ns + q) * E * S + j * S + i], st, scale=sc))
                            x = fin
                        gs.append(EQ('state after step %d[%d][%d]' % (steps - 1, j, i), cons[j * S + i], x, scale=sc))
                return gs

            def gen(rng, us=us, ks=ks, asc=asc):
                return ([rng.uniform(0, 3)] + [rng.uniform(0.01, 1) for _ in range(steps)] + [rng.uniform(50, 100) if isT(x) else x for x in us] +
                        [rng.uniform(-1, 1) * (1 if asc else 9) if isT(x) else x for x in ks])
            c.scenario('steps-%s-%d' % (m, asc), 'vh_rk_steps', inp, 3 + (1 + ev * steps) * E * S, [k, asc, ev, steps], pre, goals, gen=gen, fork=['3rkf'] if asc else [], nenv=20 if asc else 2)
    c.flush()
    c.bounds.append('two consecutive steps (thorough: three) of each scheme, all right-hand sides and step widths symbolic; with step control: two steps whose trials have no error')
    c.bounds.append('all nine schemes, asc off, S=6 cells, E=2 equations, every state, right-hand side, time and step width (1e-3 <= dt <= 100) symbolic')



# ------------------------------------------------------------------ C17 automated step control
def stepcontrol(c):
    n_in = S - 4
    cases = [('Heun2', 1), ('Heun2', 2), ('RKF12', 1)]
    if c.tier == 'thorough':
        cases += [('RK3', 1), ('SSPRK3', 1), ('RKF12', 2), ('RKF45', 1), ('SSPRK5', 1), ('Heun2', 3)]
    for m, nt in cases:
        k = MODES.index(m)
        A, b, bl, order, tol = TAB[m]
        ns = len(b)
        # evaluations of nt trials are free, everything after returns zero (which has no error and is accepted)
        free = nt * ns
        names = ['t', 'dt', 'tnext', 'dtmax', 'dtmin']
        body = ['u%d_%d' % (j, i) for j in range(E) for i in range(S)]
        # ranges in which the error of a trial may exceed the tolerance, and the weight of the error stays positive
        R, U, rtol = (100, 50, 1 / 4096) if m.startswith('RKF') else (1, 1, 1 / 64)
        atol, fric = 0.5, 0.125
        inp = [sym(x) for x in names] + [rtol, atol, fric] + [sym(x) if x in ('u0_2', 'u1_3') else 1.5 * U for x in body]
        for q in range(free + ns):
            for j in range(E):
                for i in range(2, S - 2):
                    if j == 0 and i == 2:
                        inp.append(1 / 64 if q % ns == 0 else 0.0)     # shows the step width of each trial
                    elif q >= free or (j, i) != (1, 3):
                        inp.append(0.0)
                    else:
                        inp.append(sym('k%d_%d_%d' % (q, j, i)))
        t, dt, tn, dmax, dmin = inp[:5]
        pre = [le(0, t), lt(t, tn), le(tn, 100), lt(0, dmin), le(dmin, dt), le(dt, F(1, 10)), lt(0, dmax)]
        pre += [AB(le(U, x), le(x, 2 * U)) for x in inp[8:8 + E * S] if isT(x)]
        pre += [AB(le(-R, x), le(x, R)) for x in inp[8 + E * S:] if isT(x)]
        nrec = (nt + 2) * ns

        def goals(inp, P, A=A, b=b, bl=bl, ns=ns, nt=nt, nrec=nrec, order=order):
            t, dt, tn, dmax, dmin, rtol, atol, fric = inp[:8]
            conc = not anyT(*inp)
            u = inp[8:8 + E * S]
            K = inp[8 + E * S:]
            at = lambda q, j, i: K[(q * E + j) * n_in + i - 2] if (q * E + j) * n_in + i - 2 < len(K) else 0.0
            o = P.out
            ok = okay(P)
            n = o[0]
            cons, prim, rec = o[4:4 + E * S], o[4 + E * S:4 + 2 * E * S], o[4 + 2 * E * S:]
            st = lambda q, j, i: rec[q * E * S + j * S + i]
            if isT(P.status):
                raise EngineError('status is symbolic')
            gs = []
            if P.status != 0:
                # rejected once too often: only if a rejected step shrank below dt_min
                return [OK('an error is for steps below the minimum', int(P.status == 1))]
            if isT(n):
                raise EngineError('number of evaluations is symbolic')
            n = int(n)
            gs.append(OK('whole trials', int(n % ns == 0 and n >= 2 * ns)))
            trials = n // ns - 1
            if trials > nt + 1 or n % ns:
                gs.append(OK('not more trials than needed', 0))
                return gs
            cap = mn2(mn2(dt, dmax), tn - t)
            # step width of a trial, from its second stage
            c1 = A[1][0]
            d = [(u[2] - st(m * ns + 1, 0, 2)) * 64 / c1 for m in range(trials)]
            gs.append(EQ('the first trial uses the capped CFL step', d[0], cap))
            for m in range(trials):
                # within tolerance?
                good, bad = 1, 0
                for j in range(E):
                    for i in range(2, S - 2):
                        hi = u[j * S + i]
                        lo = hi
                        for q in range(ns):
                            hi = hi - d[m] * b[q] * at(m * ns + q, j, i)
                            lo = lo - d[m] * bl[q] * at(m * ns + q, j, i)
                        e, w = absv(hi - lo), rtol * absv(hi + atol)
                        if conc:
                            w *= 1 + (1e-9 if m == trials - 1 else -1e-9)
                        good = AB(good, lt(e, w))
                        bad = OB(bad, le(w, e))
                if m == trials - 1:
                    gs.append(OK('only a step within tolerance is accepted', good))
                else:
                    gs.append(OK('a step within tolerance is not repeated (%d)' % m, bad))
                    gs.append(LE('a rejected step is not increased (%d)' % m, d[m + 1], d[m]))
                    gs.append(LE('a rejected step shrinks to a quarter at most (%d)' % m, d[m] / 4, d[m + 1]))
                    gs.append(LE('no trial below the minimum (%d)' % m, dmin, d[m + 1]))
            h = o[2]
            gs += [LT('the step is positive', 0, h), LE('the step grows fourfold at most', h, 4 * d[-1]), LE('capped by dt_max', h, dmax),
                   LE('capped by the next output', t + h, tn, scale=tn if conc else None), EQ('t advances by the step', o[1], t + h), EQ('one iteration', o[3], 1.0)]
            for j in range(E):
                for i in range(S):
                    inner = 2 <= i < S - 2
                    for m in range(trials + 1):
                        for q in range(ns):
                            x = u[j * S + i]
                            if inner:
                                dd = d[m] if m < trials else h
                                for p in range(q):
                                    x = x - dd * A[q][p] * at(m * ns + p, j, i)
                            gs.append(EQ('trial %d stage %d state[%d][%d]' % (m, q, j, i), st(m * ns + q, j, i), x))
                    fin = u[j * S + i]
                    if inner:
                        for q in range(ns):
                            fin = fin - h * b[q] * at(trials * ns + q, j, i)
                    gs.append(EQ('new state[%d][%d]' % (j, i), cons[j * S + i], fin))
                    gs.append(EQ('prim follows[%d][%d]' % (j, i), prim[j * S + i], cons[j * S + i]))
            return gs

        def gen(rng, inp=inp, R=R, U=U):
            x = []
            for v in inp:
                if not isT(v):
                    x.append(v)
                else:
                    x.append(rng.uniform(U, 2 * U) if v.val[0] == 'u' else rng.uniform(-R, R))
            x[:5] = [1.0, rng.uniform(0.01, 0.1), rng.choice([2.0, 1.05]), rng.choice([10.0, 0.05]), rng.choice([1e-6, 1e-6, 0.009])]
            return x
        c.scenario('asc-%s-%d' % (m, nt), 'vh_rk', inp, 4 + 2 * E * S + nrec * E * S, [k, 1, free + ns, nrec], pre, goals, gen=gen, expect='any', fork=['3rkf'], nenv=100)
    c.flush()
    c.bounds.append('schemes Heun2, RKF12 (thorough: all embedded ones), up to 2 (thorough: 3) trials with free right-hand sides followed by one without error; states in [1,2] (RKF: [50,100]), right-hand sides in [-1,1] (RKF: [-100,100]), fixed tolerances')


CHECKS = {'C01': stages, 'C17': stepcontrol}
