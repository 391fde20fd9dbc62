"""Configurations: validation, construction of the initial state, units."""
from .lib import *
from .phys import V, ref_cons
from .step import bc_goals, MODES

# stream, format, conversion, folder, name, clear, metadata, ghosts, precision, data names
OUT_STD = [0, 0, 0, 0, 0, 0, 0, 0, 3, 2, 5, 4]


def out(stream=1, fmt=0, conv=0, folder=1, name=1, clear=1, meta=0, ghosts=0, prec=3, data=(5, 4)):
    return [stream, fmt, conv, folder, name, clear, meta, ghosts, prec, len(data)] + list(data)


def flatouts(outs):
    return [len(outs)] + [x for o in outs for x in o]


FIELDS = ['gamma', 't0', 't_end', 'dt_min', 'dt_max', 'cfl', 'atol', 'rtol', 'friction', 'theta', 'xi_in', 'xi_out']


def config(c):
    nfin = 12
    tm.DOMAIN = 'fp'
    old = {'out': None, 'out/old.csv': b'1,2,3\n', 'out/f.csv': b'kept\n'}

    def valid(inp, lim, itermax, outs):
        g, t0, te, dmin, dmax, cfl, at, rt, fr, th, a, b = inp
        v = AB(AB(lt(1.0, g), lt(g, 2.0)), AB(le(0.0, t0), lt(t0, te)))
        for x in (dmin, dmax, cfl, at, rt, fr):
            v = AB(v, lt(0.0, x))
        if lim == 3:
            v = AB(v, lt(1.0, th))
        v = AB(v, lt(a, b))
        ok = itermax > 0
        for o in outs:
            stream, fmt, conv, folder, name = o[:5]
            ok = ok and (stream == 0 or folder != 0 and name != 0)
            ok = ok and (conv == 1 or not any(k < 4 or k >= 10 for k in o[10:]))
        return AB(v, int(ok))

    VEC = (0, 1, 2, 3, 10, 11, 20, 21)
    cases = [('hll', 0, 0, 9, [OUT_STD, out()]), ('monocent', 1, 3, 9, []), ('iter_max', 0, 0, 0, [out()]), ('no-folder', 0, 0, 9, [out(folder=0)]),
             ('no-name', 0, 0, 9, [OUT_STD, out(name=0)]), ('second-no-folder', 0, 0, 1, [out(), out(folder=0, name=1)])]
    cases += [('scalar-%d' % k, 0, 0, 5, [out(data=(4, k))]) for k in VEC] + [('scalar-first-%d' % k, 0, 0, 5, [OUT_STD, out(stream=0, data=(k, 5))]) for k in (3, 10)]
    cases += [('vector-%d' % k, 0, 0, 5, [out(conv=1, data=(4, k), clear=0)]) for k in (0, 3, 10, 21)]
    cases += [('limiter-%d' % k, 1, k, 9, []) for k in (0, 1, 2, 4)]
    for name, flux, lim, itermax, outs in cases:
        full = name in ('hll', 'monocent', 'scalar-3', 'no-folder') or c.tier == 'thorough'
        fixed = [1.4, 0.0, 1.0, 1e-12, 1e10, 0.4, 1.0, 1.0, 1.0, 1.2, 10.0, 12.0]
        inp = [sym(x) for x in FIELDS[:10]] + [10.0, 12.0] if full else list(fixed)

        def goals(inp, P, lim=lim, itermax=itermax, outs=outs):
            ok = okay(P)
            v = valid(inp, lim, itermax, outs)
            gs = [OK('a configuration outside the documented ranges is rejected', NB(ok), when=NB(v)),
                  OK('a proper configuration is accepted', ok, when=v),
                  OK('the initial condition is applied once iff accepted', eq(P.out[0], 1.0), when=ok),
                  OK('the initial condition is not applied otherwise', eq(P.out[0], 0.0), when=NB(ok))]
            gs.append(OK('a rejected run leaves all files alone', int(P.files == old), when=NB(ok)))
            clears = any(o[0] == 1 and o[5] == 1 for o in outs)
            gs.append(OK('old output is cleared iff requested', int(('out/old.csv' not in P.files) == clears), when=ok))
            return gs

        def gen(rng, full=full, fixed=fixed):
            x = list(fixed)
            if full:
                bad = [0.0, -0.0, -1.0, math.nan, math.inf, -math.inf, 1.0, 2.0, 5e-324]
                for k in range(rng.choice([0, 0, 1, 1, 2])):
                    x[rng.randrange(10)] = rng.choice(bad)
            return x
        c.scenario('config-' + name, 'vh_config', inp, 1, [flux, lim, itermax] + flatouts(outs), [], goals, gen=gen, nvalid=nfin if full else 1, nenv=30 if full else 0,
                   expect='any', io=True, files=old, tol=0.0)
    # mesh interval, bit precise: nothing but xi_in < xi_out is accepted
    inp = [1.4, 0.0, 1.0, 1e-12, 1e10, 0.4, 1.0, 1.0, 1.0, 1.2, sym('xi_in'), sym('xi_out')]

    def goals2(inp, P):
        v = lt(inp[10], inp[11])
        ok = okay(P)
        return [OK('an empty interval is rejected', NB(ok), when=NB(v)), OK('a rejected run leaves all files alone', int(P.files == old), when=NB(v))]

    def gen2(rng):
        bad = [0.0, -0.0, -1.0, math.nan, math.inf, -math.inf, 1.0, 2.0, 5e-324]
        while True:
            a, b = rng.choice(bad), rng.choice(bad)
            if not a < b:
                return inp[:10] + [a, b]
    c.scenario('interval', 'vh_config', inp, 1, [0, 0, 9] + flatouts([out()]), [NB(lt(inp[10], inp[11]))], goals2, gen=gen2, nvalid=12, nenv=60, expect='any', io=True, files=old, tol=0.0,
               )
    c.flush()
    tm.DOMAIN = 'real'
    c.bounds.append('bit-precise: every double (with infinities and NaN) for 10 numeric fields at once, for the mesh interval alone; limiters, output streams, folder and file names, data names enumerated')


# ------------------------------------------------------------------ C18 units
def units(c):
    for mode, name in ((0, 'SI'), (1, 'CGS')):
        inp = [sym('x')]

        def goals(inp, P, mode=mode):
            x = inp[0]
            o = P.out
            cm, gr = (F(1, 100), F(1, 1000)) if anyT(x) else (0.01, 0.001)
            if mode == 0:
                si, cgs = (x, x, x), (x * 100, x * 1000, x)
            else:
                si, cgs = (x * cm, x * gr, x), (x, x, x)
            return [EQ('%s to %s' % (q, t), y, z) for t, ys, zs in (('SI', o[:3], si), ('CGS', o[3:6], cgs)) for q, y, z in zip(('length', 'mass', 'time'), ys, zs)]
        c.scenario('units-' + name, 'vh_units', inp, 6, [mode], [], goals, gen=lambda r: [r.uniform(-10, 10)])
    c.flush()
    c.bounds.append('every value, both unit systems, exact reals')


# ------------------------------------------------------------------ C22 initial state
def initial(c):
    bcs = [('none-given', 100, 100), ('mixed', [(0, 4), (1, 7), (2, 4)], [(1, 0), (2, 4), (0, 4)]), ('outflow', [(1, 5), (0, 4)], [(2, 4), (1, 6), (0, 4)])]
    for S, suf in ((6, ''), (7, '7')):
        for sysname, E in (('isot', 2), ('adia', 3)):
            for which in (0, 1, 2):
                for bname, w, e in bcs:
                    if (which or S == 7) and bname != 'none-given' and c.tier == 'quick':
                        continue
                    cut = lambda m: m if m == 100 else [x for x in m if x[0] < E]
                    flatpar = lambda m: [100] if m == 100 else [len(m)] + [x for q in m for x in q]
                    w2, e2 = cut(w), cut(e)
                    names = ['gamma', 't0'] + ['p%d_%d' % (j, i) for j in range(E) for i in range(S)] + ['c%d' % i for i in range(S)]
                    inp = [sym(x) for x in names]
                    ix = dict(zip(names, inp))
                    pre = [lt(1, ix['gamma']), lt(ix['gamma'], 2), le(0, ix['t0']), lt(ix['t0'], 10)]
                    for i in range(S):
                        pre += [lt(0, ix['p0_%d' % i]), lt(0, ix['c%d' % i])]
                        if E == 3:
                            pre += [lt(0, ix['p2_%d' % i])]
                    nv = V.n(E, S) + 1
                    nout = 4 + 3 * nv

                    def goals(inp, P, E=E, S=S, sysname=sysname, w=w2, e=e2, which=which, nv=nv):
                        g, t0 = inp[:2]
                        conc = not anyT(*inp)
                        if which == 2 and sysname == 'isot':
                            return [OK('the Sod test needs the energy equation', NB(okay(P)))]
                        gs = [OK('succeeds', okay(P))]
                        if not isT(P.status) and P.status != 0:
                            return gs
                        p0 = [inp[2 + j * S:2 + (j + 1) * S] for j in range(E)]
                        c0 = inp[2 + E * S:2 + E * S + S]
                        if which == 1:
                            p0 = [[1.0] * S, [1.0 if i < S // 2 else -1.0 for i in range(S)], [1e-5] * S][:E]
                            c0 = [1.0] * S
                        elif which == 2:
                            p0 = [[1.0 if i < S // 2 else 0.125 for i in range(S)], [0.0] * S, [1.0 if i < S // 2 else 0.1 for i in range(S)]]
                        v = V(P.out[4:], E, S)
                        gs += [EQ('starts at t0', P.out[0], t0), EQ('no step yet', P.out[1], 0.0), EQ('no step width yet', P.out[2], 1.0), EQ('first output at t0', P.out[3], t0)]
                        pc = lambda x: x if isT(x) or conc else F(x)
                        for i in range(S):
                            if 2 <= i < S - 2:
                                for j in range(E):
                                    gs.append(EQ('prim[%d][%d] is the given one' % (j, i), v.prim[j][i], p0[j][i]))
                            p = [v.prim[j][i] for j in range(E)]
                            for j, x in enumerate(ref_cons(sysname, p, g)):
                                gs.append(EQ('cons[%d][%d] agrees with prim' % (j, i), v.cons[j][i], x))
                            if sysname == 'adia':
                                gs.append(EQ('sound speed[%d] agrees' % i, v.c[i] * v.c[i] * p[0], g * p[2], when=AB(lt(0, p[0]), lt(0, p[2]))))
                            else:
                                gs.append(EQ('sound speed[%d] is the given one' % i, v.c[i], c0[i]))
                            gs.append(EQ('slowest wave[%d]' % i, v.eig[0][i], p[1] - v.c[i], scale=1.0 if conc else None))
                            gs.append(EQ('fastest wave[%d]' % i, v.eig[E - 1][i], p[1] + v.c[i], scale=1.0 if conc else None))
                        for k, side in enumerate(('west', 'east')):
                            x = V(P.out[4 + (k + 1) * nv:], E, S)
                            for i in range(S):
                                for j in range(E):
                                    gs += [EQ('%s face prim[%d][%d]' % (side, j, i), x.prim[j][i], v.prim[j][i]), EQ('%s face cons[%d][%d]' % (side, j, i), x.cons[j][i], v.cons[j][i])]
                                gs.append(EQ('%s face sound speed[%d]' % (side, i), x.c[i], v.c[i]))
                        d = 2 / F(S - 4) if not conc else 2 / (S - 4)
                        xi = [10 + d * (F(2 * (i - 2) + 1, 2) if not conc else i - 1.5) for i in range(S)]
                        for side, ms in (('west', w), ('east', e)):
                            ms = [(j, 4) for j in range(E)] if ms == 100 else ms
                            for j, k in ms:
                                row = [v.prim[j][i] for i in range(S)]
                                gs += bc_goals(side, MODES[k], j, S, row, row, xi, conc)
                        return gs

                    def gen(rng, E=E, S=S):
                        rows = [[rng.uniform(0.2, 0.9) if j != 1 else rng.uniform(-2, 2) for _ in range(S)] for j in range(E)]
                        return [1.4, rng.uniform(0, 2)] + [x for r in rows for x in r] + [rng.uniform(0.2, 2) for _ in range(S)]
                    c.scenario('init-%s-%d-%d-%s' % (sysname, S, which, bname), 'vh_init_%s%s' % (sysname, suf), inp, nout, [which] + flatpar(w2) + flatpar(e2), pre, goals,
                               gen=gen, expect='any', nvalid=1)
    c.flush()
    c.bounds.append('S=6 and 7 cells, both physics systems, a prescribed initial condition with every state and the two built-in ones, several boundary conditions, exact reals')


CHECKS = {'C15': config, 'C18': units, 'C22': initial}
