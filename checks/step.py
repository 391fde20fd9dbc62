"""Mesh, boundary conditions, time step widths, state validation, whole steps."""
from .lib import *
from . import rk
from .phys import ref_cons, ref_prim, V

TINY = F(1, 10 ** 6)


def strip(x):
    """the value in the case where the run did not end early (output slots start as 0)"""
    while x.op == 'ite' and any(isT(a) and a.op == 'c' and a.val == 0 or not isT(a) and a == 0 for a in x.args[1:]):
        x = [a for a in x.args[1:] if isT(a) and a.op != 'c'][0]
    return x


# ------------------------------------------------------------------ C11 mesh
ARR = ['xi_cent', 'xi_west', 'xi_east', 'xi_cent_inv', 'xi_west_inv', 'xi_east_inv',
       'h_xi_cent', 'h_xi_west', 'h_xi_east', 'h_eta_cent', 'h_eta_west', 'h_eta_east',
       'h_phi_cent', 'h_phi_west', 'h_phi_east', 'sqrt_g', 'line_xi', 'line_xi_inv',
       'd_area_west', 'd_area_east', 'area_cell', 'area_west', 'area_east',
       'volume', 'ddv', 'cell_width', 'cell_width_inv',
       'cexe', 'cpxp', 'cxex', 'cpep', 'cxpx', 'cepe',
       'minus_cexe', 'minus_cpxp', 'minus_cxex', 'minus_cpep', 'minus_cxpx', 'minus_cepe']


def mesh_pre(a, b, S):
    dxi = (b - a) * F(1, S - 4)
    return [lt(0, a - 2 * dxi), le(F(1, 1000), dxi), le(b, 10 ** 6)]


def mesh_pre_any(a, b, S):
    """any domain, negative or with the origin inside; only no face or centre at the origin itself"""
    dxi = (b - a) * F(1, S - 4)
    pre = [le(F(1, 1000), dxi), le(absv(a), 10 ** 6), le(absv(b), 10 ** 6)]
    for k in range(-4, 2 * (S - 2) + 1):
        pre.append(le(F(1, 100) * dxi, absv(a + F(k, 2) * dxi)))
    return pre


def mesh_geometry(c):
    for S in (6, 9, 14):
        inp = [sym('xi_in'), sym('xi_out')]
        nout = 12 + len(ARR) * S

        def goals(inp, P, S=S):
            a, b = inp
            o = P.out
            m = {k: o[12 + n * S:12 + (n + 1) * S] for n, k in enumerate(ARR)}
            d = (b - a) / (S - 4)
            conc = not anyT(*inp)
            sc = max(abs(a), abs(b)) if conc else None
            gs = [EQ('int[%d]' % k, o[k], float(v)) for k, v in enumerate([S - 4, 2, S, 0, S - 1, 2, S - 3])]
            gs += [EQ('xi_in', o[7], a), EQ('xi_out', o[8], b), EQ('dxi', o[9], d, scale=sc), EQ('deta', o[10], 1.0), EQ('dphi', o[11], 1.0)]
            gs += [EQ('first interior face', m['xi_west'][2], a, scale=sc), EQ('last interior face', m['xi_east'][S - 3], b, scale=sc)]
            vol = sumv(m['volume'][2:S - 2])
            gs.append(EQ('volumes add up to the domain', vol, b - a, scale=sc))
            for i in range(S):
                w = a + d * (i - 2)
                n = lambda s: '%s[%d]' % (s, i)
                gs += [EQ(n('xi_west'), m['xi_west'][i], w, scale=sc), EQ(n('xi_east'), m['xi_east'][i], w + d, scale=sc),
                       EQ(n('xi_cent'), m['xi_cent'][i], w + d * F(1, 2) if not conc else w + d / 2, scale=sc)]
                if i + 1 < S:
                    gs.append(EQ(n('cells share their face'), m['xi_east'][i], m['xi_west'][i + 1], scale=sc))
                gs += [LT(n('ordered'), m['xi_west'][i], m['xi_cent'][i]), LT(n('ordered'), m['xi_cent'][i], m['xi_east'][i])]
                for k in ('cent', 'west', 'east'):
                    gs.append(EQ(n('inverse of xi_' + k), m['xi_%s_inv' % k][i] * m['xi_' + k][i], 1.0))
                    for h in ('xi', 'eta', 'phi'):
                        gs.append(EQ(n('h_%s_%s' % (h, k)), m['h_%s_%s' % (h, k)][i], 1.0))
                for k, v in (('sqrt_g', 1.0), ('d_area_west', 1.0), ('d_area_east', 1.0), ('area_west', 1.0), ('area_east', 1.0),
                             ('line_xi', d), ('volume', d), ('cell_width', d), ('area_cell', d * d),
                             ('cexe', 0.0), ('cpxp', 0.0), ('cxex', 1.0), ('cpep', 1.0), ('cxpx', 1.0), ('cepe', 1.0)):
                    # cell widths are differences of coordinates
                    gs.append(EQ(n(k), m[k][i], v, scale=(sc if k != 'area_cell' or not conc else sc * d) if v is d or k == 'area_cell' else None))
                for k in ('cexe', 'cpxp', 'cxex', 'cpep', 'cxpx', 'cepe'):
                    gs.append(EQ(n('minus_' + k), m['minus_' + k][i], -m[k][i]))
                gs += [EQ(n('line_xi_inv'), m['line_xi_inv'][i] * m['line_xi'][i], 1.0),
                       EQ(n('cell_width_inv'), m['cell_width_inv'][i] * m['cell_width'][i], 1.0),
                       LE(n('1/volume from below'), m['ddv'][i] * m['volume'][i], 1.0 if conc else F(1), scale=1.0),
                       LE(n('1/volume from above'), 1 - TINY if not conc else 1 - 1e-6, m['ddv'][i] * m['volume'][i], scale=1.0)]
            return gs

        def gen(rng, S=S):
            while True:
                a = rng.uniform(-10, 10)
                x = [a, a + rng.uniform(0.5, 15)]
                if all(mesh_pre_any(x[0], x[1], S)):
                    return x
        c.scenario('mesh-%d' % S, 'vh_mesh', inp, nout, [S], mesh_pre_any(inp[0], inp[1], S), goals, gen=gen, nvalid=4)
    c.flush()
    c.bounds.append('S = 6, 9, 14 cells, every xi_in < xi_out (of either sign, the origin inside or outside; no face or centre at the origin, where the code refuses the mesh), '
                    'cell width >= 1e-3, |xi| <= 1e6')


# ------------------------------------------------------------------ C10 boundary conditions
MODES = ['Extrapolate', 'ExtrapolateDensityKepler', 'ExtrapolateEtaVelocityKepler', 'NearZero', 'NoGradients', 'OutflowNoGradients',
         'OutFlowExtrapolate', 'Reflecting']


def bc_goals(side, mode, j, S, p_in, p_out, xi, conc):
    """p_in: row before (interior), p_out: row after, xi: cell centres"""
    gs = []
    if side == 'west':
        g, a, b = [1, 0], 2, 3
        outflow = lambda: lt(p_in[2], 0)
        inflow = lambda: lt(0, p_in[2])
    else:
        g, a, b = [S - 2, S - 1], S - 3, S - 4
        outflow = lambda: lt(0, p_in[S - 3])
        inflow = lambda: lt(p_in[S - 3], 0)
    sc = max(abs(x) for x in p_in) if conc else None
    nm = lambda k: '%s %s row %d, ghost %d' % (side, mode, j, k)

    def lin(when):
        for k in (1, 2):
            gs.append(EQ(nm(k) + ' linear', p_out[g[k - 1]], (k + 1) * p_in[a] - k * p_in[b], scale=sc, when=when))

    def refl(when):
        gs.append(EQ(nm(1) + ' mirrored', p_out[g[0]], -p_in[a], when=when))
        gs.append(EQ(nm(2) + ' mirrored', p_out[g[1]], -p_in[b], when=when))

    def flat(when):
        for k in (1, 2):
            gs.append(EQ(nm(k) + ' copied', p_out[g[k - 1]], p_in[a], when=when))
    if mode == 'Extrapolate':
        lin(1)
    elif mode.endswith('Kepler'):
        # ~ xi^(-1/2)
        for k in (1, 2):
            x = p_out[g[k - 1]]
            gs.append(EQ(nm(k) + ' ~ xi^-1/2', x * x * xi[g[k - 1]], p_in[a] * p_in[a] * xi[a]))
            gs.append(LE(nm(k) + ' keeps the sign', 0, x * p_in[a]))
    elif mode == 'NearZero':
        for k in (1, 2):
            gs.append(EQ(nm(k) + ' near zero', p_out[g[k - 1]], p_in[a] * (F(1, 10 ** 10) if not conc else 1e-10)))
    elif mode == 'NoGradients':
        flat(1)
    elif mode == 'OutflowNoGradients':
        flat(outflow())
        refl(inflow())
    elif mode == 'OutFlowExtrapolate':
        lin(outflow())
        refl(inflow())
    else:
        refl(1)
    return gs


def boundary(c):
    S, E = 8, 2
    cases = []
    for k in range(8):
        # every mode on both sides, on each row, next to every other mode
        cases.append(([(0, k)], [(1, (k + 3) % 8)]))
        cases.append(([(1, k)], [(0, (k + 5) % 8)]))
        cases.append(([(0, k), (1, (k + 1) % 8)], [(1, (k + 6) % 8), (0, (k + 2) % 8)]))
    cases.append((100, 100))
    cases.append((100, [(0, 7)]))
    cases.append(([(1, 7)], 100))
    cases.append(([], []))
    if c.tier == 'thorough':
        cases += [([(0, a), (1, b)], [(0, b), (1, a)]) for a in range(8) for b in range(8)]
    for frm in (0, 1):
        for w, e in cases:
            flatpar = lambda m: [100] if m == 100 else [len(m)] + [x for q in m for x in q]
            norm = lambda m: [(0, 4), (1, 4)] if m == 100 else m
            inp = [sym('xi_in'), sym('xi_out')] + [sym('p%d_%d' % (j, i)) for j in range(E) for i in range(S)]

            def goals(inp, P, w=norm(w), e=norm(e)):
                a, b = inp[0], inp[1]
                d = (b - a) / (S - 4)
                conc = not anyT(*inp)
                xi = [a + d * (F(2 * (i - 2) + 1, 2) if not conc else i - 1.5) for i in range(S)]
                rows = lambda o: [o[j * S:(j + 1) * S] for j in range(E)]
                pin, prim, cons = rows(inp[2:]), rows(P.out), rows(P.out[E * S:])
                gs = []
                for j in range(E):
                    for i in range(2, S - 2):
                        gs.append(EQ('interior prim[%d][%d]' % (j, i), prim[j][i], pin[j][i]))
                    for i in range(S):
                        gs.append(EQ('cons follows prim[%d][%d]' % (j, i), cons[j][i], prim[j][i]))
                for side, ms in (('west', w), ('east', e)):
                    for j, k in ms:
                        gs += bc_goals(side, MODES[k], j, S, pin[j], prim[j], xi, conc)
                    for j in range(E):
                        if j not in [x for x, _ in ms]:
                            for i in ([0, 1] if side == 'west' else [S - 2, S - 1]):
                                gs.append(EQ('%s row %d has no condition, ghost %d' % (side, j, i), prim[j][i], pin[j][i]))
                return gs

            def gen(rng):
                a = rng.uniform(5, 10)
                return [a, a + rng.uniform(0.5, 2)] + [rng.uniform(-2, 2) for _ in range(E * S)]
            c.scenario('bc-%d-%s-%s' % (frm, w, e), 'vh_bc', inp, 2 * E * S, [frm] + flatpar(w) + flatpar(e),
                       mesh_pre(inp[0], inp[1], S), goals, gen=gen, nvalid=1)
    c.flush()
    c.bounds.append('S=8 cells, E=2 rows, every state of all cells, every mesh with positive coordinates; each of the 8 modes on each side and row, in combination '
                    'with other modes on the other row and side; an outflow boundary at velocity exactly zero is not constrained')


# ------------------------------------------------------------------ C07 / C12 time step width
def cfl(c):
    S = 6
    for sysname, E in (('isot', 2), ('adia', 3)):
        names = ['gamma', 'ccfl', 'dtmin', 'dtmax', 't', 'tnext', 'xi_in', 'xi_out'] + ['p%d_%d' % (j, i) for j in range(E) for i in range(S)] + ['c%d' % i for i in range(S)]
        inp = [sym(x) for x in names]
        ix = dict(zip(names, inp))
        if E == 3 and c.tier == 'quick':
            inp[6:8] = [10.0, 12.0]
        pre = [lt(1, ix['gamma']), lt(ix['gamma'], 2), lt(0, ix['ccfl']), lt(0, ix['dtmin']), lt(0, ix['dtmax']), le(0, ix['t']), lt(ix['t'], ix['tnext'])]
        pre += mesh_pre(ix['xi_in'], ix['xi_out'], S)
        pre += [lt(0, ix['p%d_%d' % (j, i)]) for j in ((0, 2) if E == 3 else (0,)) for i in range(S)]
        pre += [lt(0, ix['c%d' % i]) for i in range(S)]

        def goals(inp, P, E=E):
            g, ccfl, dtmin, dtmax, t, tn, a, b = inp[:8]
            p = [inp[8 + j * S:8 + (j + 1) * S] for j in range(E)]
            o = P.out
            ok = okay(P)
            d = (b - a) / (S - 4)
            cs = o[4:4 + S]
            speed = [absv(p[1][i]) + cs[i] for i in range(S)]
            dt = o[0]
            gs = []
            cuts, okc = None, ok
            if anyT(*inp):
                # with arbitrary positive sound speeds
                cs = [strip(x) for x in cs]
                speed = [absv(p[1][i]) + cs[i] for i in range(S)]
                cuts = {x.id: 1 for x in cs if x.op != 'var'}
                for x in cs:
                    okc = AB(okc, lt(0, x))
            for i in range(S):
                gs.append(LE('no wave crosses more than c_cfl of cell %d' % i, dt * speed[i], ccfl * d, scale=None if anyT(*inp) else ccfl * d, when=okc, cuts=cuts))
                gs.append(LT('sound speed of cell %d is positive' % i, 0, cs[i], when=ok))
            if anyT(*inp):
                attained = 0
                for i in range(S):
                    attained = OB(attained, eq(dt * speed[i], ccfl * d))
                gs.append(OK('the step is as long as the fastest wave permits', attained, when=okc, cuts=cuts))
            else:
                gs.append(EQ('the step is as long as the fastest wave permits', dt * maxl(speed), ccfl * d, when=ok))
            gs.append(EQ('the step is limited by the CFL condition', o[1], 1.0, when=ok))
            gs.append(LE('what is taken is never longer than the CFL step', o[2], o[0], when=ok, cuts=None if not isT(o[0]) or o[0].op == 'var' else {o[0].id: 1}))
            return gs

        def gen(rng, E=E):
            a = rng.uniform(5, 10)
            rows = [[rng.uniform(0.5, 2) if j != 1 else rng.uniform(-2, 2) for _ in range(S)] for j in range(E)]
            w = [a, a + 1.0] if isT(inp[6]) else [10.0, 12.0]
            return [1.4, 0.4, 1e-9, 10.0, 1.0, 1.5] + w + [x for r in rows for x in r] + [rng.uniform(0.2, 2) for _ in range(S)]
        c.scenario('cfl-' + sysname, 'vh_dt_' + sysname, inp, 4 + S, [], pre, goals, gen=gen, expect='any')
    c.flush()
    taken(c)
    c.bounds.append('S=6 cells, both physics systems, every state with positive density, pressure and sound speed, every CFL parameter and adiabatic index; every mesh for the isothermal system (quick tier: cell width 1 for the adiabatic one)')


def taken(c):
    """the step that one call of the solver really takes"""
    S = 6
    names = ['ccfl', 'dtmin', 'dtmax', 't', 'tnext'] + ['v%d' % i for i in range(S)] + ['c%d' % i for i in range(S)]
    inp = [sym(x) for x in names]
    ix = dict(zip(names, inp))
    pre = [lt(0, ix['ccfl']), lt(0, ix['dtmin']), lt(0, ix['dtmax']), le(0, ix['t']), lt(ix['t'], ix['tnext'])]
    pre += [lt(0, ix['c%d' % i]) for i in range(S)]

    def goals(inp, P):
        ccfl, dtmin, dtmax, t, tn = inp[:5]
        v, cs = P.out[:S], inp[5 + S:]
        ok = okay(P)
        dt = P.out[S + 1]
        conc = not anyT(*inp)
        speed = [absv(v[i]) + cs[i] for i in range(S)]
        vmax = maxl(speed)
        if conc and abs(ccfl - dtmin * vmax) < 1e-9 * ccfl:
            return []
        sc = tn if conc else None
        gs = [LE('the step taken carries no wave over more than c_cfl of cell %d' % i, dt * speed[i], ccfl, when=ok) for i in range(S)]
        gs.append(LE('the step taken is at most dt_max', dt, dtmax, when=ok))
        gs.append(LE('the step taken does not pass the next output', P.out[S], tn, when=ok, scale=sc))
        gs.append(EQ('time advances by the step taken', P.out[S], t + dt, when=ok, scale=sc))
        # no needless shortening: one of the three limits is attained
        want = mn2(dtmax, tn - t)
        gs.append(OK('one of the limits is attained', 1 if conc and abs(dt - min(ccfl / vmax, want)) < 1e-9 * tn else
                     OB(eq(dt, want), eq(dt * vmax, ccfl)), when=ok))
        err = lt(ccfl, dtmin * vmax)
        gs.append(OK('error if and only if the CFL step is below dt_min', OB(AB(err, NB(ok)), AB(NB(err), ok))))
        return gs

    def gen(rng):
        return ([rng.uniform(0.1, 1), 10 ** rng.uniform(-3, 0), rng.uniform(0.01, 1), 1.0, rng.uniform(1.01, 1.5)] +
                [rng.uniform(-2, 2) for _ in range(S)] + [rng.uniform(0.2, 1) for _ in range(S)])
    c.scenario('taken', 'vh_taken', inp, S + 2, [], pre, goals, gen=gen, nvalid=6, expect='any')
    c.flush()


def limits(c):
    S, E = 6, 2
    # dt_min: error exactly when the CFL step is below
    names = ['ccfl', 'dtmin', 'dtmax', 't', 'tnext'] + ['v%d' % i for i in range(S)] + ['c%d' % i for i in range(S)]
    syms = [sym(x) for x in names]
    ix = dict(zip(names, syms))
    inp = [1.4] + syms[:5] + [10.0, 12.0] + [1.0] * S + syms[5:]
    pre = [lt(0, ix['ccfl']), lt(0, ix['dtmin']), lt(0, ix['dtmax']), le(0, ix['t']), lt(ix['t'], ix['tnext'])]
    pre += [lt(0, ix['c%d' % i]) for i in range(S)]

    def goals(inp, P):
        ccfl, dtmin, dtmax, t, tn = inp[1:6]
        v, cs = inp[8 + S:8 + 2 * S], inp[8 + 2 * S:]
        vmax = maxl([absv(v[i]) + cs[i] for i in range(S)])
        err = lt(ccfl, dtmin * vmax)      # width 1
        ok = okay(P)
        conc = not anyT(*inp)
        if conc and abs(ccfl - dtmin * vmax) < 1e-9 * ccfl:
            return []
        o = P.out
        want = mn2(mn2(ccfl / vmax, dtmax), tn - t)
        w = lambda: ok
        return [OK('error if and only if the CFL step is below dt_min', OB(AB(err, NB(ok)), AB(NB(err), ok))),
                EQ('step = min(CFL step, dt_max, time to the next output)', o[2], want, when=ok, scale=tn if conc else None),
                LT('step is positive', 0, o[2], when=ok),
                LE('never past the next output', t + o[2], tn, when=ok, scale=tn if conc else None),
                EQ('time itself is not touched', o[3], t, when=ok)]

    def gen(rng):
        return ([1.4, rng.uniform(0.1, 1), 10 ** rng.uniform(-3, 0), rng.uniform(0.01, 1), 1.0, rng.uniform(1.01, 1.5), 10.0, 12.0] + [1.0] * S +
                [rng.uniform(-2, 2) for _ in range(S)] + [rng.uniform(0.2, 1) for _ in range(S)])
    c.scenario('limits', 'vh_dt_isot', inp, 4 + S, [], pre, goals, gen=gen, nvalid=6, expect='any')
    # cap alone
    inp = [sym(x) for x in ('dt', 'dtmax', 't', 'tnext')]

    def goals2(inp, P):
        dt, dtmax, t, tn = inp
        sc = None if anyT(*inp) else tn
        return [EQ('cap', P.out[0], mn2(mn2(dt, dtmax), tn - t), scale=sc), EQ('t', P.out[1], t), EQ('t_next', P.out[2], tn)]
    c.scenario('cap', 'vh_cap', inp, 3, [], [lt(0, inp[0]), lt(0, inp[1]), le(0, inp[2]), lt(inp[2], inp[3])], goals2,
               gen=lambda r: [r.uniform(0, 1), r.uniform(0, 1), 1.0, r.uniform(1.01, 1.5)])
    c.flush()
    taken(c)
    # the step finally taken with step control: after a trial without error it would be four times as wide
    for m in ('Heun2', 'RKF45'):
        ns = len(rk.TAB[m][1])
        nu = rk.E * rk.S
        inp = [sym(x) for x in ('t', 'dt', 'tnext', 'dtmax', 'dtmin')] + [0.25, 0.5, 0.125] + [1.5] * nu + [0.0] * (2 * ns * rk.E * (rk.S - 4))
        t, dt, tn, dmax, dmin = inp[:5]
        pre = [le(0, t), lt(t, tn), le(tn, 100), lt(0, dmin), le(dmin, dt), le(dt, 10), lt(0, dmax)]

        def goals4(inp, P):
            t, dt, tn, dmax, dmin = inp[:5]
            h = P.out[2]
            sc = tn if not anyT(*inp) else None
            return [LE('step control: at most dt_max', h, dmax), LE('step control: never past the next output', t + h, tn, scale=sc), LT('step control: the step is positive', 0, h),
                    EQ('step control: the time advances by the step', P.out[1], t + h, scale=sc)]

        def gen4(rng, inp=inp):
            return [rng.uniform(0, 3), rng.uniform(0.01, 1), rng.uniform(3.01, 6), 10 ** rng.uniform(-2, 1), 1e-6] + inp[5:]
        c.scenario('asc-' + m, 'vh_rk', inp, 4 + 2 * nu, [rk.MODES.index(m), 1, 2 * ns, 0], pre, goals4, gen=gen4, fork=['3rkf'], nenv=30)
    c.flush()
    # bit-precise: whatever is rounded how, a capped step is at most dt_max and never longer than before
    tm.DOMAIN = 'fp'
    inp = [sym(x) for x in ('dt', 'dtmax', 't', 'tnext')]

    def goals3(inp, P):
        dt, dtmax, t, tn = inp
        return [LE('cap <= max(dt, time to output)', P.out[0], mx2(dt, tn - t)),
                LE('cap <= max(dt_max, time to output)', P.out[0], mx2(dtmax, tn - t))]
    c.scenario('cap-fp', 'vh_cap', inp, 3, [], [lt(0.0, inp[0]), lt(0.0, inp[1]), le(0.0, inp[2]), lt(inp[2], inp[3]), le(inp[3], 1e300), le(inp[0], 1e300)], goals3,
               gen=lambda r: [r.uniform(0, 1), r.uniform(0, 1), 1.0, r.uniform(1.01, 1.5)], tol=0.0)
    c.flush()
    tm.DOMAIN = 'real'
    c.bounds.append('S=6 cells of width 1, isothermal system, every velocity, sound speed > 0, CFL parameter, dt_min, dt_max, 0 <= t < t_next; with step control: Heun2 and RKF45 after a trial without error')


# ------------------------------------------------------------------ C16 state validation
def fin(x):
    if isT(x):
        return tm.fcmp('olt', absv(x), tm.lift(math.inf))
    return int(math.isfinite(x))


def validation(c):
    S = 6
    # bit-precise: a step whose result is not a finite state with positive density and pressure is an error
    tm.DOMAIN = 'fp'
    # first at rest with unit density, where models are found quickly, then everything at once
    for sysname, E, rest in (('adia', 3, True), ('isot', 2, True), ('isot', 2, False), ('adia', 3, False)):
        if sysname == 'isot' and not rest:
            c.flush()
        names = ['u%d_%d' % (j, i) for j in range(E) for i in range(2, S - 2)]
        inp = [1.5] + [sym(x) for x in names]
        if rest:
            inp[0] = 2.0
            inp[1 + 2:1 + 4] = [0.0, 0.0]
            if E == 3:
                inp[1:1 + 2] = [1.0, 1.0]
        nout = V.n(E, S) + 1

        def goals(inp, P, E=E, sysname=sysname):
            v = V(P.out, E, S)
            ok = okay(P)
            gs = []
            # generalise: whatever the resulting numbers are
            cuts = {x.id: 1 for x in P.out if isT(x) and x.op != 'var'}
            for i in range(S):
                for j in range(E):
                    gs.append(OK('accepted states are finite (prim %d %d)' % (j, i), fin(v.prim[j][i]), when=ok))
                    gs.append(OK('accepted states are finite (cons %d %d)' % (j, i), fin(v.cons[j][i]), when=ok))
                gs.append(OK('density is positive (%d)' % i, lt(0.0, v.prim[0][i]), when=ok))
                if sysname == 'adia':
                    gs.append(OK('pressure is positive (%d)' % i, lt(0.0, v.prim[2][i]), when=ok))
            if not anyT(*inp):
                # the converse on concrete inputs: a proper state is accepted
                n = S - 4
                u = [inp[1 + j * n:1 + (j + 1) * n] for j in range(E)]
                good = all(1e-3 < r < 1e3 for r in u[0]) and all(abs(m) < 1e3 for m in u[1])
                if sysname == 'adia':
                    good = good and all(1e-3 < u[2][i] - 0.5 * u[1][i] ** 2 / u[0][i] < 1e3 for i in range(n))
                if good:
                    gs.append(OK('a proper state is accepted', ok))
            for g in gs:
                g.cuts = cuts
            return gs

        def gen(rng, E=E):
            bad = [math.inf, -math.inf, math.nan, 0.0, -0.0, -1.0, 1e308, 5e-324]
            x = [rng.uniform(0.5, 2) if j == 0 else rng.uniform(-1, 1) if j == 1 else rng.uniform(2, 4) for j in range(E) for _ in range(S - 4)]
            if rng.random() < 0.7:
                x[rng.randrange(len(x))] = rng.choice(bad)
            if rest:
                x[2:4] = [0.0, 0.0]
                x[0:2] = [1.0, 1.0] if E == 3 else x[0:2]
                return [2.0] + x
            return [1.5] + x
        c.scenario('reject-%s%s' % (sysname, '-at-rest' if rest else ''), 'vh_reval_' + sysname, inp, nout, [], [], goals, gen=gen, nvalid=12, nenv=60, expect='any', tol=0.0)
    c.flush()
    tm.DOMAIN = 'real'
    # over the reals: precisely the states without positive density (and pressure) are rejected
    for sysname, E in (('isot', 2), ('adia', 3)):
        names = ['u%d_%d' % (j, i) for j in range(E) for i in range(2, S - 2)]
        inp = [1.5] + [sym(x) for x in names]
        n = S - 4

        def goals2(inp, P, E=E, sysname=sysname, n=n):
            u = [inp[1 + j * n:1 + (j + 1) * n] for j in range(E)]
            good = 1
            for i in range(n):
                good = AB(good, lt(0, u[0][i]))
                if sysname == 'adia':
                    good = AB(good, lt(u[1][i] * u[1][i], 2 * u[2][i] * u[0][i]))
            if not anyT(*inp):
                return []
            return [OK('proper states are accepted', okay(P), when=good), OK('improper states are rejected', NB(okay(P)), when=NB(good))]
        c.scenario('accept-' + sysname, 'vh_reval_' + sysname, inp, V.n(E, S) + 1, [], [NB(eq(inp[1 + i], F(0))) for i in range(n)], goals2, expect='any')
    # what counts is the result of the step, not only the states on the way to it
    for sysname, E in (('isot', 2), ('adia', 3)):
        for m in (('RK1', 'RK2') if c.tier == 'quick' else ('RK1', 'RK2', 'Heun2', 'SSPRK3')):
            A, b, _, _, _ = rk.TAB[m]
            ns, n = len(b), S - 4
            inp = [sym('k%d_%d_%d' % (q, j, i)) for q in range(ns) for j in range(E) for i in range(2, S - 2)]
            u0 = [1.0, 1.0, 1 / 0.5 + 0.5]

            def goals3(inp, P, E=E, b=b, ns=ns, n=n):
                ok = okay(P)
                bad = 0
                v = V(P.out[1:], E, S)
                gs = []
                for i in range(n):
                    r = [u0[j] - F(1, 16) * sumv([b[q] * inp[(q * E + j) * n + i] for q in range(ns)]) if anyT(*inp) else
                         u0[j] - 1 / 16 * sum(float(b[q]) * inp[(q * E + j) * n + i] for q in range(ns)) for j in range(E)]
                    bad = OB(bad, le(r[0], 0))
                    if E == 3:
                        bad = OB(bad, le(2 * r[2] * r[0], r[1] * r[1]))
                    for j in range(E):
                        gs.append(EQ('the result is what is accepted (%d %d)' % (j, i), v.cons[j][i + 2], r[j], scale=None if anyT(*inp) else 1 + max(abs(x) for x in inp), when=ok))
                if not anyT(*inp):
                    return gs
                if ns == 1:
                    gs.append(OK('a proper result is accepted', ok, when=NB(bad)))
                return gs + [OK('an improper result is an error', NB(ok), when=bad)]
            c.scenario('result-%s-%s' % (sysname, m), 'vh_result_' + sysname, inp, V.n(E, S) + 2, [rk.MODES.index(m), ns], [le(absv(x), 1000) for x in inp], goals3,
                       gen=lambda rng, k=len(inp): [rng.uniform(-2, 2) for _ in range(k)], expect='any')
    c.flush()
    c.bounds.append('bit-precise (IEEE 754 double): S=6, every value (including infinities and NaN) of all interior conservative variables after a step, both physics systems; '
                    'acceptance of proper states: exact reals')


# ------------------------------------------------------------------ C23 consistency after a step
def consistency(c):
    S = 6
    bcs = [('none-given', 100, 100), ('reflecting', [(0, 4), (1, 7), (2, 4)], [(0, 4), (1, 6), (2, 4)])]
    for sysname, E in (('isot', 2), ('adia', 3)):
        for bname, w, e in bcs:
            for scheme, nk in (('RK1', 1), ('SSPRK3', 3)):
                if bname != 'none-given' and scheme != 'RK1' and c.tier == 'quick':
                    continue
                code = {'RK1': 0, 'SSPRK3': 7}[scheme]
                cut = lambda m: m if m == 100 else [x for x in m if x[0] < E]
                flatpar = lambda m: [100] if m == 100 else [len(m)] + [x for q in m for x in q]
                w2, e2 = cut(w), cut(e)
                names = ['gamma', 't', 'dt'] + ['p%d_%d' % (j, i) for j in range(E) for i in range(S)] + ['c%d' % i for i in range(S)]
                ks = ['k%d_%d_%d' % (q, j, i) for q in range(nk) for j in range(E) for i in range(S - 4)]
                inp = [sym(x) for x in names + ks]
                ix = dict(zip(names + ks, inp))
                pre = [lt(1, ix['gamma']), lt(ix['gamma'], 2), le(0, ix['t']), le(ix['t'], 100), le(F(1, 100), ix['dt']), le(ix['dt'], F(1, 10))]
                for i in range(S):
                    pre += [lt(F(1, 10), ix['p0_%d' % i]), lt(F(1, 10), ix['c%d' % i]), lt(ix['c%d' % i], 10), le(absv(ix['p1_%d' % i]), 10)]
                    if E == 3:
                        pre += [lt(F(1, 10), ix['p2_%d' % i]), lt(ix['p2_%d' % i], 1)]
                nout = 2 + V.n(E, S) + 1

                def goals(inp, P, E=E, sysname=sysname, w=w2, e=e2, nk=nk, scheme=scheme):
                    g, t, dt = inp[:3]
                    p0 = [inp[3 + j * S:3 + (j + 1) * S] for j in range(E)]
                    c0 = inp[3 + E * S:3 + E * S + S]
                    K = inp[3 + E * S + S:]
                    conc = not anyT(*inp)
                    if not isT(P.status) and P.status != 0:
                        return []
                    ok = okay(P)
                    v = V(P.out[2:], E, S)
                    gs = [EQ('t', P.out[0], t + P.out[1]), LE('dt', P.out[1], dt)]
                    for i in range(S):
                        p = [v.prim[j][i] for j in range(E)]
                        for j, x in enumerate(ref_cons(sysname, p, g)):
                            gs.append(EQ('cons[%d][%d] agrees with prim' % (j, i), v.cons[j][i], x))
                        if sysname == 'adia':
                            gs.append(EQ('sound speed[%d] agrees' % i, v.c[i] * v.c[i] * p[0], g * p[2], when=AB(lt(0, p[0]), lt(0, p[2]))))
                        else:
                            gs.append(EQ('sound speed[%d] unchanged' % i, v.c[i], c0[i]))
                        gs.append(EQ('slowest wave[%d]' % i, v.eig[0][i], p[1] - v.c[i], scale=1.0 if conc else None))
                        gs.append(EQ('fastest wave[%d]' % i, v.eig[E - 1][i], p[1] + v.c[i], scale=1.0 if conc else None))
                    for side, ms in (('west', w), ('east', e)):
                        ms = [(j, 4) for j in range(E)] if ms == 100 else ms
                        for j, k in ms:
                            row = [v.prim[j][i] for i in range(S)]
                            gs += bc_goals(side, MODES[k], j, S, row, row, None, conc)
                    for g in gs:
                        g.when = AB(g.when, ok)
                    return gs

                def gen(rng, E=E, nk=nk):
                    rows = [[rng.uniform(0.2, 0.9) if j != 1 else rng.uniform(-2, 2) for _ in range(S)] for j in range(E)]
                    return [1.4, 1.0, 0.02] + [x for r in rows for x in r] + [rng.uniform(0.2, 2) for _ in range(S)] + [rng.uniform(-1, 1) for _ in range(nk * E * (S - 4))]
                c.scenario('after-%s-%s-%s' % (sysname, bname, scheme), 'vh_step_' + sysname, inp, nout, [code] + flatpar(w2) + flatpar(e2) + [nk], pre, goals,
                           gen=gen, expect='any')
    c.flush()
    c.bounds.append('S=6 cells, both physics systems, schemes RK1 and SSPRK3, two sets of boundary conditions, every bounded initial state and every right-hand side')


CHECKS = {'C07': cfl, 'C10': boundary, 'C11': mesh_geometry, 'C12': limits, 'C16': validation, 'C23': consistency}
