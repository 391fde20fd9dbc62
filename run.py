"""entry point of all checks: run.py <property> [--tier quick|thorough] | --replay <file>"""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
import threading                                    # noqa: E402
threading.stack_size(256 * 1024 * 1024)


def registry():
    from checks import ALL
    return ALL()


def main():
    from checks import lib
    from symex import build, smt
    args = sys.argv[1:]
    if args[0] == '--replay':
        d = json.load(open(args[1]))
        c = lib.Ctx(d['property'], 'quick', 1)
        files = {k: v if v is None else v.encode('latin1') for k, v in d.get('files', {}).items()}
        P = c.native(d['entry'], [float.fromhex(x) for x in d['inputs_hex']], d['nout'], d['par'], files, d.get('limits'))
        print(json.dumps({'goal': d['goal'], 'observed then': d['observed'], 'status': P.status, 'dead': P.dead, 'out': P.out,
                          'stdout': P.stdout.decode(errors='replace')[:4000], 'files': {k: v if v is None else v.decode('latin1')[:4000] for k, v in P.files.items()}}, indent=1))
        return 0
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    fn = registry()[prop]
    rc = 0
    c = None
    try:
        c = lib.Ctx(prop, tier, seed)
        try:
            fn(c)
        except lib.Violated:
            raise
        except Exception as e:
            # what was queued before is decided all the same: a violation counts more than a question left open
            c.undecided(e)
        c.flush()
        if c.violations:
            rc = 1
        elif c.error is not None:
            raise c.error
        elif c.obl != c.discharged + len(c.known):
            print('INCONCLUSIVE: %d of %d obligations discharged' % (c.discharged, c.obl))
            rc = 2
        elif c.obl == 0:
            print('INCONCLUSIVE: nothing was checked')
            rc = 2
    except Exception as e:
        if c is not None and c.violations:
            rc = 1
        else:
            traceback.print_exc()
            print('INCONCLUSIVE: %s: %s' % (type(e).__name__, str(e)[:2000]))
            rc = 2
    if c is not None:
        write_evidence(c, lib, smt, build, time.time() - t0)
        if os.environ.get('VH_VERBOSE'):
            for q in sorted(c.logqueries, key=lambda q: -q[-1])[:15]:
                print('  q', q)
        print('%s: %s  obligations=%d discharged=%d paths=%d queries=%d solver=%.1fs build=%.1fs wall=%.1fs' % (
            prop, {0: 'holds', 1: 'VIOLATED', 2: 'INCONCLUSIVE'}[rc], c.obl, c.discharged, c.paths, smt.STATS['queries'],
            smt.STATS['time'], c.t_build, time.time() - t0))
    sys.stdout.flush()
    return rc


def write_evidence(c, lib, smt, build, wall):
    ex = sorted(c.mx.executed) if c.mx is not None else []
    own = [x for x in ex if 'corries' in x]
    st = smt.STATS
    ev = {
        'property': c.prop, 'tier': c.tier, 'seed': c.seed, 'level': 'model_checking',
        'coverage': {
            'states': c.blocks,
            'transitions': c.edges,
            'traces_validated_against_impl': c.traces + c.replays,
            'samples': c.samples[:3] or [{'note': 'no concrete trace in this check'}],
            'rule': 'states = IR basic blocks executed symbolically; transitions = control transfers between them; '
                    'traces = concrete runs on which executor and native library agreed bit for bit, plus replayed models',
            'paths': c.paths,
            'path_coverage_queries': c.cover,
            'obligations': c.obl,
            'discharged': c.discharged,
            'queries': st['queries'], 'queries_unsat': st['unsat'], 'queries_sat': st['sat'], 'queries_unknown': st['unknown'],
            'solver_seconds': round(st['time'], 2), 'decided_by': st['by'],
            'precondition_witnesses': c.witnesses,
            'functions_encoded': len(ex),
            'corries_functions_encoded': own,
            'bounds': c.bounds,
            'known_findings': c.known,
            'notes': c.notes[:20],
            'build_seconds': round(c.t_build, 2),
        },
        'assumptions': c.assumptions + [
            'f64 arithmetic is read as exact real arithmetic unless a bound says "bit-precise"; constants as the rationals they denote',
            'LLVM IR from rustc of the pinned toolchain; the executor, its models of libc/std I/O, and z3/cvc5 are trusted',
        ],
        'wall_s': round(wall, 2), 'violations': len(c.violations)}
    d = os.path.join(build.ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, c.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    res = []
    th = threading.Thread(target=lambda: res.append(main()))
    th.start()
    th.join()
    sys.exit(res[0] if res else 2)
