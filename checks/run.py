"""Whole runs: output schedule, end of the run, error dumps."""
from .lib import *


def rows(P):
    """printed table: header names and rows of cells"""
    ls = P.stdout.decode().split('\n')
    assert ls[-1] == ''
    return ls[0].split(','), [x.split(',') for x in ls[1:-1]]


def schedule(c):
    cases = [(n, nq, 1) for n in (1, 2, 3) for nq in (0, 1, 2)] + [(1, 0, 3), (2, 1, 3)]
    if c.tier == 'thorough':
        cases += [(4, 0, 1), (4, 2, 1), (1, 3, 1), (2, 3, 1), (3, 3, 1), (1, 4, 1), (1, 1, 4), (3, 1, 4)]
    for n, nq, nmax in cases:
        if 1:
            qs = ['dt%d' % k for k in range(nq)]
            inp = [sym(x) for x in ['t0', 't_end', 'dt_min', 'dt_max'] + qs]
            t0, t_end, dt_min, dt_max = inp[:4]
            pre = [le(0, t0), lt(t0, t_end), lt(0, dt_min), lt(8 * n * dt_min, t_end - t0), lt(0, dt_max)]
            pre += [lt(0, x) for x in inp[4:]]
            pre += [le((t_end - t0), nmax * dt_max), lt(dt_min, dt_max), le(t_end, 10 ** 6)]
            pre += [le(dt_min, x) for x in inp[4:]]

            def goals(inp, P, n=n, nq=nq):
                t0, t_end, dt_min, dt_max = inp[:4]
                dto = (t_end - t0) / n
                hdr, rs = rows(P)
                conc = not anyT(*inp)
                if conc and P.status == 0 and any(abs(x) < 0 for x in inp):
                    return []
                ok = okay(P)
                sc = t_end if conc else None
                gs = [OK('header', int([x.strip() for x in hdr] == ['t', 'iter', 'dt', 'dt_kind'])),
                      OK('one output per interval, and the initial one', int(len(rs) == n + 1), when=ok),
                      OK('the run succeeds', ok)]
                for k, r in enumerate(rs[:n + 1]):
                    t = number(P, r[0])
                    want = t0 + k * dto
                    if k == 0:
                        gs.append(EQ('first output at t0', t, t0))
                    elif k == n:
                        gs.append(LE('last output at t_end', absv(t - t_end), dt_min * F(1, 100) if not conc else dt_min / 100, scale=sc))
                    else:
                        gs.append(LE('output %d in time' % k, absv(t - want), dt_min, scale=sc))
                    if k:
                        gs.append(LT('outputs are ordered', number(P, rs[k - 1][0]), t))
                        gs.append(LE('never past t_end', t, t_end, scale=sc))
                if rs:
                    gs.append(EQ('the last output shows the final state', number(P, rs[-1][0]), P.out[0]))
                    gs.append(EQ('the last output shows the final iteration', number(P, rs[-1][1]), P.out[2]))
                return gs

            def gen(rng, nq=nq, n=n):
                t0 = rng.choice([0.0, rng.uniform(0, 3)])
                te = t0 + rng.uniform(0.5, 2)
                return [t0, te, 1e-6, 10.0] + [rng.choice([rng.uniform(0.01, 1), (te - t0) / n - 5e-7]) for _ in range(nq)]
            c.scenario('run-%d-%d-%d' % (n, nq, nmax), 'vh_run', inp, 3, [n, nq, 0, 20], pre, goals, gen=gen, expect='any', io=True)
    c.flush()
    c.bounds.append('1 to 3 outputs, up to 2 free CFL steps (then steps limited by the next output or dt_max only, with dt_max >= a third of the run), every t0, t_end, dt_min (less than an eighth of the output interval)')



# ------------------------------------------------------------------ C14 failing runs
def error_dump(c):
    # (outputs, prescribed steps, failing evaluation, iter_max, steps may be below dt_min)
    cases = [('fails-1', 2, 2, 1, 20, 0), ('fails-2', 2, 2, 2, 20, 0), ('fails-3', 2, 2, 3, 20, 0), ('dtmin', 2, 2, 0, 20, 1), ('dtmin1', 1, 1, 0, 20, 1),
             ('itermax-1', 2, 1, 0, 1, 0), ('itermax-2', 2, 2, 0, 2, 0), ('itermax-3', 2, 2, 0, 3, 0), ('both', 1, 2, 2, 20, 1),
             ('invalid-1', 1, 1, 101, 20, 0), ('invalid-2', 2, 2, 102, 20, 0)]
    if c.tier == 'thorough':
        cases += [('invalid-3', 2, 3, 103, 20, 0), ('fails-4', 3, 2, 4, 20, 0), ('fails-5', 3, 3, 5, 20, 0), ('dtmin3', 3, 3, 0, 20, 1), ('itermax-4', 3, 3, 0, 4, 0), ('all', 2, 3, 3, 4, 1)]
    for name, n, nq, fail, imax, small in cases:
        inp = [sym(x) for x in ['t0', 't_end', 'dt_min', 'dt_max'] + ['dt%d' % k for k in range(nq)]]
        t0, t_end, dt_min, dt_max = inp[:4]
        pre = [le(0, t0), lt(t0, t_end), lt(0, dt_min), lt(8 * n * dt_min, t_end - t0), lt(0, dt_max), le(t_end - t0, dt_max), le(t_end, 10 ** 6)]
        pre += [lt(0, x) if small else le(dt_min, x) for x in inp[4:]]
        if fail > 100:
            pre.append(le(F(1, 10 ** 6), dt_min))

        def goals(inp, P, n=n, nq=nq, fail=fail % 100, imax=imax, small=small):
            t0, t_end, dt_min = inp[:3]
            hdr, rs = rows(P)
            ok = okay(P)
            t, it = P.out[0], P.out[2]
            err = [r[3].strip() == 'err' for r in rs]
            gs = [OK('a regular run shows no error row', int(not any(err)), when=ok),
                  OK('the state at the failure is written', int(bool(err) and err[-1]), when=NB(ok)),
                  OK('exactly one error row', int(sum(err) == 1), when=NB(ok)),
                  OK('the initial state was written before', int(len(rs) >= 2), when=NB(ok)),
                  LE('no step after the failure', it, min(x for x in (fail or 99, imax, 99) if x)),
                  LE('time is within the run', t, t_end, scale=None if anyT(*inp) else t_end)]
            if rs:
                gs += [EQ('last row shows the time reached', number(P, rs[-1][0]), t), EQ('last row shows the iteration', number(P, rs[-1][1]), it)]
            # why a run may end with an error
            cause = 0
            if fail:
                cause = OB(cause, eq(it, fail))
            if small:
                for k in range(nq):
                    cause = OB(cause, AB(eq(it, k + 1), lt(inp[4 + k], dt_min)))
            cause = OB(cause, le(imax, it))
            gs += [OK('an error is returned when something failed', NB(ok), when=cause), OK('no error without a cause', ok, when=NB(cause))]
            # an unfinished step does not count
            if not isT(it) and 1 <= it <= nq + 1:
                gs.append(LE('the failing step is not counted in t', t, t0 + sum(inp[4:4 + int(it) - 1]), when=AB(NB(ok), int(not imax <= it)),
                             scale=None if anyT(*inp) else t_end))
            return gs

        def gen(rng, nq=nq, small=small):
            t0 = rng.choice([0.0, rng.uniform(0, 3)])
            te = t0 + rng.uniform(0.5, 2)
            return [t0, te, 1e-6, 10.0] + [rng.choice([rng.uniform(0.01, 1), 1e-7 if small else 0.1]) for _ in range(nq)]
        c.scenario(name, 'vh_run', inp, 3, [n, nq, fail, imax], pre, goals, gen=gen, expect='any', io=True)
    c.flush()
    c.bounds.append('1 to 2 outputs, up to 2 free CFL steps (then steps limited by the next output only), failing right-hand side at evaluation 1 to 3, invalid result of step 1 to 2 (with dt_min at least 1e-6), step widths below dt_min, iteration limits 1 to 3; times symbolic')


CHECKS = {'C13': schedule, 'C14': error_dump}
