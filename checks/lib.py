"""Common driver of the checks: explore, prove, replay, report."""
import ctypes
import json
import math
import os
import random
import struct
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import concurrent.futures as cf
from fractions import Fraction

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from symex import terms as tm, machine, llparse, build, smt, externs     # noqa: E402
from symex.terms import T, AND, OR, NOT, ITE, ands, ors         # noqa: E402

F = Fraction


class Inconclusive(Exception):
    pass


class EngineError(Exception):
    pass


class Violated(Exception):
    """stops a check after the first flush that reported a violation"""


# ------------------------------------------------------------------ polymorphic helpers
def isT(x):
    return x.__class__ is T


def sym(name):
    return tm.var(name)


def Q(x):
    """exact constant usable with terms and with floats"""
    return x


def num(x):
    return F(x) if isinstance(x, int) else x


def _f(x):
    """operand for arithmetic with terms"""
    if x.__class__ is T:
        return x
    if isinstance(x, (int, Fraction)):
        return tm.const(Fraction(x)) if tm.DOMAIN == 'real' else tm.lift(float(x))
    return x


def anyT(*xs):
    return any(x.__class__ is T for x in xs)


def lt(a, b):
    return tm.fcmp('olt', _f(a), _f(b)) if anyT(a, b) else (1 if a < b else 0)


def le(a, b):
    return tm.fcmp('ole', _f(a), _f(b)) if anyT(a, b) else (1 if a <= b else 0)


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    return tm.fcmp('oeq', _f(a), _f(b)) if anyT(a, b) else (1 if a == b else 0)


def ite(c, a, b):
    if c.__class__ is T:
        return ITE(c, _f(a), _f(b), 'F')
    return a if c else b


def mx2(a, b):
    return ite(lt(a, b), b, a)


def mn2(a, b):
    return ite(lt(b, a), b, a)


def absv(a):
    return tm.fabs_(a) if a.__class__ is T else abs(a)


def sqrtv(a):
    return tm.fsqrt(a) if a.__class__ is T else math.sqrt(a) if a >= 0 else math.nan


def maxl(xs):
    r = xs[0]
    for x in xs[1:]:
        r = mx2(r, x)
    return r


def minl(xs):
    r = xs[0]
    for x in xs[1:]:
        r = mn2(r, x)
    return r


def sumv(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r + x
    return r


def AB(a, b):
    return AND(a, b) if anyT(a, b) else (1 if a and b else 0)


def OB(a, b):
    return OR(a, b) if anyT(a, b) else (1 if a or b else 0)


def NB(a):
    return NOT(a) if anyT(a) else (0 if a else 1)


# ------------------------------------------------------------------ goals
class Goal(object):
    """kind: eq (a == b), le (a <= b), lt (a < b), ok (boolean a)"""

    def __init__(self, name, kind, a, b=None, scale=None, when=1, cuts=None, base=None):
        self.name = name
        self.kind = kind
        self.a = a
        self.b = b
        self.scale = scale
        self.when = when
        self.cuts = cuts
        self.step = False           # an intermediate step: failing it violates nothing by itself
        self.final = False          # follows from the intermediate steps of its scenario; asked only if one of these fails
        self.base = base            # the assumptions to use instead of all preconditions and path conditions (a subset of them)

    def neg(self, margin=None):
        a, b = self.a, self.b
        if self.kind == 'ok':
            r = NOT(a) if isT(a) else (0 if a else 1)
        else:
            a, b = _f(a), _f(b)
            if self.kind == 'eq':
                if margin is None:
                    r = NOT(tm.fcmp('oeq', a, b))
                else:
                    d = a - b
                    r = OR(lt(margin, d), lt(d, -margin))
            elif self.kind == 'le':
                r = NOT(tm.fcmp('ole', a, b)) if margin is None else lt(margin, a - b)
            else:
                r = NOT(tm.fcmp('olt', a, b)) if margin is None else lt(margin, a - b)
        return AND(self.when, r)

    def negrel(self):
        """fails by more than rounding, relative to the quantities compared"""
        a, b = _f(self.a), _f(self.b)
        m = F(1, 10 ** 5) * mx2(absv(a), absv(b))
        if isT(self.scale):
            m = mx2(m, F(1, 10 ** 5) * absv(self.scale))
        d = a - b
        return AND(self.when, OR(lt(m, d), lt(d, -m)) if self.kind == 'eq' else lt(m, d))

    def broken(self, tol):
        """concrete evaluation: does it fail beyond rounding?"""
        if not self.when:
            return False
        a, b = self.a, self.b
        if self.kind == 'ok':
            return not a
        a, b = float(a), float(b)
        if a != a or b != b:
            return True
        s = max(abs(a), abs(b), abs(float(self.scale)) if self.scale is not None else 0.0)
        if math.isinf(s):
            return not (a == b if self.kind == 'eq' else a <= b if self.kind == 'le' else a < b)
        if self.kind == 'eq':
            return abs(a - b) > tol * s
        return a - b > tol * s


def EQ(name, a, b, scale=None, when=1, cuts=None, base=None):
    return Goal(name, 'eq', a, b, scale, when, cuts, base)


def LE(name, a, b, scale=None, when=1, cuts=None, base=None):
    return Goal(name, 'le', a, b, scale, when, cuts, base)


def LT(name, a, b, scale=None, when=1, cuts=None, base=None):
    return Goal(name, 'lt', a, b, scale, when, cuts, base)


def OK(name, a, when=1, cuts=None, base=None):
    return Goal(name, 'ok', a, when=when, cuts=cuts, base=base)


def defined(tag, outs, when=1, cuts=None):
    """goals: every division and root that reaches `outs` is well defined"""
    gs, seen, todo = [], set(), [x for x in outs if isT(x)]
    while todo:
        x = todo.pop()
        if x.id in seen or (cuts and x.id in cuts):
            continue
        seen.add(x.id)
        if x.op == 'div' and isT(x.args[1]) and x.args[1].op != 'c':
            gs.append(OK('%s: denominator is not zero (%d)' % (tag, len(gs)), NOT(eq(x.args[1], F(0))), when=when, cuts=cuts))
        if x.op == 'sqrt':
            gs.append(OK('%s: radicand is not negative (%d)' % (tag, len(gs)), le(F(0), x.args[0]), when=when, cuts=cuts))
        todo += [a for a in x.args if isT(a)]
    return gs


class Path(object):
    """result of one symbolic (or concrete, or native) execution"""

    def __init__(self):
        self.pc = []
        self.status = None
        self.out = None
        self.dead = None
        self.panics = []
        self.fs = None
        self.races = []
        self.stdout = b''
        self.files = {}
        self.markers = []
        self.faulted = False
        self.log = None

    def __repr__(self):
        return 'Path(status=%r dead=%r pc=%d)' % (self.status, self.dead, len(self.pc))


# ------------------------------------------------------------------ the check context
class Ctx(object):
    def __init__(self, prop, tier, seed):
        tm.DOMAIN = 'real'
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.rng = random.Random(seed)
        self.t0 = time.time()
        self.ll, self.so, self.t_build = build.build()
        self.module = llparse.Module(self.ll)
        self.mx = None
        self.lib = None
        self.obl = 0
        self.discharged = 0
        self.violations = []
        self.known = []
        self.blocks = 0
        self.edges = 0
        self.paths = 0
        self.traces = 0
        self.samples = []
        self.bounds = []
        self.notes = []
        self.assumptions = []
        self.witnesses = 0
        self.replays = 0
        self.workers = int(os.environ.get('VH_WORKERS', '8'))
        self.pool = cf.ThreadPoolExecutor(self.workers)
        self.pending = []
        self.covers = []
        self.error = None
        self.soft = 600 if tier == 'quick' else 3600
        self.lock = threading.Lock()
        self.same = {}
        self.cands = []
        self.timeout = 60 if tier == 'quick' else 300
        self.feascache = {}
        self.envs = []
        self.cover = {}
        self.logqueries = []
        self.known_findings = load_known(prop)
        smt.STATS.update(queries=0, unsat=0, sat=0, unknown=0, time=0.0, by={})

    # -- executor
    def machine(self, domain='real', **limits):
        if self.mx is None:
            self.mx = machine.Machine(self.module, domain, feasible=self.feasible, limits=dict(limits))
        mx = self.mx
        mx.limits.clear()
        mx.limits.update(limits)
        mx.max_unroll = mx.limits.get('unroll', 64)
        return mx

    def feasible(self, conds):
        cs = [c for c in conds if isT(c)]
        if any((not isT(c)) and not c for c in conds):
            return False
        key = (tm.DOMAIN, tuple(sorted(c.id for c in cs)))
        r = self.feascache.get(key)
        if r is None:
            self.deadline(self.soft)
            # a known input that takes this path answers the question at once
            r = any(self.takes(cs, env) for env in self.envs)
            if not r:
                s = smt.solve(cs, timeout=10 if tm.DOMAIN == 'real' else 3, getmodel=False).status
                r = s != 'unsat'
            self.feascache[key] = r
        return r

    @staticmethod
    def takes(cs, env):
        memo = {}
        try:
            for c in cs:
                if not tm.evalf(c, env, memo):
                    return False
            return True
        except Exception:
            return False

    # the tail of the inputs: numbers that say which half of a join runs first (used in turn), number of the operation that fails
    @staticmethod
    def tail(inp, limits):
        no, fk = limits.get('orders', 0), limits.get('fault')
        k = len(inp) - no - (fk is not None)
        return inp[k:k + no], inp[-1] if fk is not None else None

    def environment(self, mx, inp, limits, P):
        order, fault = self.tail(inp, limits)
        mx.ext.choose = mx.ext.fs.fail = None

        def cond(c):
            if not isT(c):
                return bool(c)
            k = mx.known(c)
            if k is None:
                if mx.M.depth:
                    raise machine.NeedFork('choice inside a merged region')
                k = mx.decide(c)
            return k

        if order:
            def choose(n):
                return 1 if cond(le(0.5, order[n % len(order)])) else 0
            mx.ext.choose = choose
        if fault is not None:
            kind = limits['fault']
            cnt = [0]

            def fail(op, path):
                # 0: error, 1: short write, 2: interrupted call
                if kind == 1 and op != 'write' or kind == 2 and op not in ('write', 'open'):
                    return 0
                n = cnt[0]
                cnt[0] += 1
                if cond(eq(fault, float(n))):
                    P.faulted = True
                    return (5, -1, 4)[kind]
                return 0
            mx.ext.fs.fail = fail

    def run(self, entry, inp, nout, par=(), pre=(), prefix=(), domain=None, setup=None, **limits):
        domain = domain or tm.DOMAIN
        mx = self.machine(domain, **limits)
        mx.reset(domain)
        mx.prefix = list(prefix)
        b0 = mx.blocks_run
        p = mx.malloc(8 * max(1, len(inp)))
        o = mx.malloc(8 * max(1, nout))
        q = mx.malloc(8 * max(1, len(par)))
        for i, v in enumerate(inp):
            if isinstance(v, (int, Fraction)):
                v = float(v)
            mx.M.store(p + 8 * i, 8, v)
        for i, v in enumerate(par):
            mx.M.store(q + 8 * i, 8, v)
        for i in range(nout):
            mx.M.store(o + 8 * i, 8, 0.0)
        for c in pre:
            if isT(c):
                mx.assume(c)
        npre = len(mx.pc)
        if setup:
            setup(mx)
        P = Path()
        P.faulted = False
        self.environment(mx, inp, limits, P)
        nfork = len(mx.alwaysfork)
        try:
            P.status = mx.call(entry, (p, o, q))
            P.out = [mx.M.load(o + 8 * i, 8, 'F') for i in range(nout)]
        except machine.DeadPath as e:
            P.dead = str(e) or 'dead'
        P.pc = list(mx.pc[npre:])
        P.panics = [(list(pc[npre:]), msg) for pc, msg in mx.panics]
        P.fs = mx.ext.fs
        P.markers = list(mx.ext.markers)
        P.stdout = mx.ext.fs.stdout
        P.files = {k[3:]: v for k, v in mx.ext.fs.files.items() if k.startswith('/w/')}
        if P.dead is None:
            P.stdout = flat(P.stdout)
            P.files = {k: None if v is None else flat(v) for k, v in P.files.items()}
        P.races = list(mx.races)
        P.alts = list(mx.alts)
        P.learnt = len(mx.alwaysfork) != nfork
        self.blocks += mx.blocks_run
        self.edges += max(0, mx.blocks_run - 1) + 2 * mx.merges
        mx.merges = 0
        return P

    def explore(self, entry, inp, nout, par=(), pre=(), domain=None, setup=None, maxpaths=256, **limits):
        """all paths (deterministic re-execution along un-merged branches)"""
        work = [[]]
        paths = []
        while work:
            prefix = work.pop()
            P = self.run(entry, inp, nout, par, pre, prefix, domain, setup, **limits)
            if P.learnt and (P.alts or prefix):
                # a branch that was merged before turned out to need separate paths: decisions would not line up
                work, paths = [[]], []
                continue
            work.extend(P.alts)
            paths.append(P)
            if len(paths) > maxpaths:
                raise Inconclusive('more than %d paths in %s' % (maxpaths, entry))
        self.paths += len(paths)
        return paths

    def concrete(self, entry, inp, nout, par=(), setup=None, **limits):
        """concrete execution by the executor"""
        P = self.run(entry, [float(x) for x in inp], nout, par, domain=tm.DOMAIN, setup=setup, **limits)
        return P

    # -- native
    def native(self, entry, inp, nout, par=(), files=None, limits=None, timeout=60):
        """run the real compiled code in a child process"""
        inp = [float(x) for x in inp]
        order, fault = self.tail(inp, limits or {})
        choice = sum((1 if order[k % len(order)] >= 0.5 else 0) << (2 * k) for k in range(16)) if order else 0
        env = dict(os.environ)
        nth = -1
        if fault is not None:
            nth = int(fault) if fault == int(fault) and fault >= 0 else -1
            env['LD_PRELOAD'] = build.fault_lib()
        req = struct.pack('<QQQQqQ', len(inp), nout, len(par), choice, nth, (limits or {}).get('fault') or 0)
        req += struct.pack('<%dd' % len(inp), *inp) + struct.pack('<%dQ' % len(par), *[int(x) for x in par])
        with tempfile.TemporaryDirectory(prefix='vh_native_') as td:
            d = os.path.join(td, 'w')
            os.mkdir(d)
            for k, v in sorted((files or {}).items()):
                q = os.path.join(d, k)
                if v is None:
                    os.makedirs(q, exist_ok=True)
                else:
                    with open(q, 'wb') as f:
                        f.write(v)
            r = subprocess.run([sys.executable, os.path.join(ROOT, 'checks', 'native.py'), self.so, entry, os.path.join(td, 'res.bin')],
                               input=req, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            P = Path()
            P.stdout = r.stdout
            for a, ds, fs in os.walk(d):
                for x in ds:
                    P.files[os.path.relpath(os.path.join(a, x), d)] = None
                for x in fs:
                    with open(os.path.join(a, x), 'rb') as f:
                        P.files[os.path.relpath(os.path.join(a, x), d)] = f.read()
            if r.returncode:
                P.dead = 'exit %d: %s' % (r.returncode, r.stderr.decode(errors='replace')[-300:].strip())
                return P
            data = open(os.path.join(td, 'res.bin'), 'rb').read()
        P.status = struct.unpack_from('<Q', data, 0)[0]
        P.out = list(struct.unpack_from('<%dd' % nout, data, 8))
        P.faulted = bool(data[-1])
        return P

    def native_many(self, entry, inputs, nout, par=()):
        """the real compiled code on many inputs, in one child process"""
        req = struct.pack('<QQQQqQ', len(inputs[0]), nout, len(par), 0, -1, 0)
        for inp in inputs:
            req += struct.pack('<%dd' % len(inp), *[float(x) for x in inp])
        req += struct.pack('<%dQ' % len(par), *[int(x) for x in par])
        with tempfile.TemporaryDirectory(prefix='vh_native_') as td:
            res = os.path.join(td, 'res.bin')
            subprocess.run([sys.executable, os.path.join(ROOT, 'checks', 'native.py'), self.so, entry, res, str(len(inputs))],
                           input=req, cwd=td, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
            data = open(res, 'rb').read() if os.path.exists(res) else b''
        n = 8 + 8 * nout
        for k in range(len(data) // n):
            P = Path()
            P.status = struct.unpack_from('<Q', data, n * k)[0]
            P.out = list(struct.unpack_from('<%dd' % nout, data, n * k + 8))
            yield P

    def native_fast(self, entry, inp, nout, par=()):
        """in-process native call (known to be well-behaved inputs)"""
        if self.lib is None:
            self.lib = ctypes.CDLL(self.so)
        I = (ctypes.c_double * max(1, len(inp)))(*[float(x) for x in inp])
        O = (ctypes.c_double * max(1, nout))()
        Pp = (ctypes.c_uint64 * max(1, len(par)))(*[int(x) for x in par])
        fn = getattr(self.lib, entry)
        fn.restype = ctypes.c_uint64
        st = fn(I, O, Pp)
        P = Path()
        P.status = st
        P.out = list(O)[:nout]
        return P

    def validate(self, entry, inputs, nout, par=(), files=None, limits=None):
        """executor (concrete) against the native library, bit for bit"""
        for inp in inputs:
            a = self.concrete(entry, inp, nout, par, setup=fs_setup(files), **(limits or {}))
            b = self.native(entry, inp, nout, par, files, limits)
            if (a.dead is None) != (b.dead is None) or (a.dead is None and (
                    a.status != b.status or a.faulted != b.faulted or a.stdout != b.stdout or a.files != b.files or (a.status == 0 and [bits(x) for x in a.out] != [bits(x) for x in b.out]))):
                raise EngineError('executor and native code disagree on %s%r: %r %r / %r %r' % (
                    entry, tuple(par), a, [] if a.out is None else a.out[:40], b, [] if b.out is None else b.out[:40]))
            self.traces += 1
            if len(self.samples) < 3:
                self.samples.append({'entry': entry, 'par': list(par), 'input': [float(x) for x in inp][:12],
                                     'output': (b.out or [])[:6], 'status': b.status})

    # -- obligations
    def scenario(self, name, entry, inp, nout, par=(), pre=(), goals=None, expect='ok', tol=1e-9, box=None,
                 split=True, configs=None, maxpaths=256, snap=True, witness=True, setup=None, nvalid=2, nenv=8, gen=None,
                 timeout=None, files=None, io=False, **limits):
        """explore `entry` on symbolic inputs and queue one query per goal.

        inp: list of terms/floats; goals(inp, path) -> list of Goal, called with terms and with floats.
        expect: 'ok' status must be 0 on every path; 'any' goals decide.
        gen(rng) -> concrete inputs satisfying `pre` (for validation of the executor and for the witness).
        """
        sc = Scn(self, name, entry, inp, nout, list(par), list(pre), goals, expect, tol, box, configs, snap, timeout or self.timeout)
        sc.files = files
        sc.limits = dict(limits)
        sc.gen = gen
        io = io or files is not None
        setup = setup or fs_setup(files)
        self.envs = []
        if gen is not None:
            self.envs = [{v.val: float(x) for v, x in zip(inp, gen(self.rng)) if isT(v)} for _ in range(nenv)]
            conc = [gen(self.rng) for _ in range(nvalid)]
            self.validate(entry, conc, nout, par, files, limits)
            for ci in conc:
                # precondition witness and a sanity run of the goals on a concrete execution
                P = self.native(entry, ci, nout, par, files, limits) if io else self.native_fast(entry, ci, nout, par)
                bad = sc.check_concrete(ci, P)
                if bad and sc.cand is None:
                    # kept as a candidate: the solver decides first, see _one and flush
                    sc.cand = (ci, bad[0])
                    self.cands.append(sc)
                self.witnesses += 1
        # when the compiled code is already seen to do something else, what the solver says about it is worth a minute
        self.soft = (600 if self.tier == 'quick' else 3600) if sc.cand is None else time.time() - self.t0 + 60
        limits.setdefault('maxpaths', maxpaths)
        mp = limits.pop('maxpaths')
        try:
            paths = self.explore(entry, inp, nout, par, pre, maxpaths=mp, setup=setup, **limits)
            return self._goals(sc, paths, inp, pre, goals, expect)
        except Violated:
            raise
        except Exception as e:
            if os.environ.get('VH_VERBOSE'):
                traceback.print_exc()
            self.mx = None
            self.undecided(e)
            return []

    def _goals(self, sc, paths, inp, pre, goals, expect):
        live = 0
        if any(P.pc or P.panics for P in paths):
            self.covers.append((sc, [P.pc for P in paths] + [pcs for P in paths for pcs, _ in P.panics], pre))
        for P in paths:
            for pcs, msg in P.panics:
                self.obligation(sc, P, OK('no panic: ' + msg[:80], 0), pcs)
            if P.dead is not None:
                if not P.panics:
                    self.obligation(sc, P, OK('no abort: ' + P.dead[:80], 0), P.pc)
                continue
            live += 1
            if expect == 'ok':
                g = OK('returns Ok', tm.icmp('eq', 64, P.status, 0))
                if isT(g.a) or not g.a:
                    self.obligation(sc, P, g, P.pc)
            for g in goals(inp, P):
                self.obligation(sc, P, g, P.pc)
        if not live:
            self.notes.append('%s: no completed path' % sc.name)
        return paths

    def obligation(self, sc, P, g, pc):
        self.obl += 1
        n = g.neg()
        if not isT(n):
            if not n:
                self.discharged += 1
                if g.kind == 'eq' and isT(g.a) and g.a is g.b and sc.domain == 'real':
                    # the same term on both sides: the solver sees it all the same
                    self.same.setdefault(id(P), (sc, P, []))[2].append(NOT(tm.mk('feq', [g.a, g.b], 'B')))
                return
            n = 1
        self.pending.append((sc, P, g, list(pc)))

    def flush(self):
        """solve the queued obligations"""
        todo, self.pending = self.pending, []
        todo, final = [x for x in todo if not x[2].final], [x for x in todo if x[2].final]
        # several goals over the same path condition: first try them as one query per small batch
        err = None
        dom0 = tm.DOMAIN
        for dom in ('real', 'fp'):
            groups = {}
            for sc, P, g, pc in todo:
                if sc.domain == dom:
                    groups.setdefault((id(sc), id(P), tuple(id(x) for x in pc), id(g.cuts), id(g.base)), []).append((sc, P, g, pc))
            if not groups and not final and not any(x[0].domain == dom for x in self.covers) and not (dom == 'real' and self.same):
                continue
            tm.DOMAIN = dom
            futs = [self.pool.submit(self._cover, *x) for x in self.covers if x[0].domain == dom]
            self.covers = [x for x in self.covers if x[0].domain != dom]
            if dom == 'real':
                futs += [self.pool.submit(self._same, *x) for x in self.same.values()]
                self.same = {}
            for k, items in groups.items():
                B = 8
                for i in range(0, len(items), B):
                    futs.append(self.pool.submit(self._batch, items[i:i + B]))
            for k in (0, 1):
                for f in futs:
                    try:
                        f.result()
                    except Exception as e:
                        err = err or e
                # what follows from the intermediate steps
                futs, ends = [], {}
                for x in final if not k else []:
                    if x[0].domain == dom:
                        if x[0].broken:
                            ends.setdefault((id(x[0]), id(x[1])), []).append(x)
                        else:
                            self.discharged += 1
                futs = [self.pool.submit(self._final, items) for items in ends.values()]
        tm.DOMAIN = dom0
        for sc in self.cands:
            if not self.violations:
                # holds over the reals, yet the compiled code is off by more than rounding
                self.report(sc, sc.cand[0], sc.cand[1], 'floating point evaluation')
        self.cands = []
        if self.violations:
            raise Violated()
        if err:
            self.undecided(err)

    def deadline(self, secs):
        if time.time() - self.t0 > secs:
            raise Inconclusive('out of time')

    def undecided(self, e):
        """keeps the first reason why something could not be decided, and goes on: a violation elsewhere counts more"""
        if self.error is None:
            self.error = e
            self.notes.append('undecided: %s' % str(e)[:300])
        if time.time() - self.t0 > 500:
            raise self.error

    def _cover(self, sc, pcs, pre):
        """the explored paths together cover every input (a check of the executor itself)"""
        cov = ors([ands(list(pc)) for pc in pcs])
        if not isT(cov):
            return
        r = smt.solve(list(pre) + [NOT(cov)], timeout=20, snapconst=False)
        if r.status == 'sat':
            raise EngineError('%s: paths do not cover %r' % (sc.name, r.model))
        self.cover[r.status] = self.cover.get(r.status, 0) + 1

    def _same(self, sc, P, neg):
        r = smt.solve(sc.pre + list(P.pc) + [ors(neg)], timeout=20, getmodel=False, snapconst=False)
        if r.status == 'sat':
            raise EngineError('%s: a term differs from itself' % sc.name)

    def _batch(self, items):
        if len(self.violations) >= 3:
            return
        sc, P, _, pc = items[0]
        base = sc.pre + list(pc)
        if items[0][2].base is not None:
            if any(all(x is not y for y in base) for x in items[0][2].base):
                raise EngineError('assumption out of nowhere')
        small = base if items[0][2].base is None else list(items[0][2].base)
        if len(items) > 1:
            neg = ors([g.neg() for _, _, g, _ in items])
            r = smt.solve(small + [neg], timeout=min(4, sc.timeout), configs=sc.configs and sc.configs[:1] or ('z3',), getmodel=False, snapconst=sc.snap,
                          cuts=items[0][2].cuts)
            if r.status == 'unsat':
                self.discharged += len(items)
                return
        for sc, P, g, pc in items:
            if len(self.violations) >= 3:
                return
            self._one(sc, P, g, pc, base)

    def _final(self, items):
        """an intermediate step failed: a counterexample with most inputs fixed first, then each goal by itself"""
        sc, P, _, pc = items[0]
        base = sc.pre + list(pc)
        g = OK('one of the final goals', NOT(ors([g.neg() for _, _, g, _ in items])))
        if sc.gen is not None and (self.aimed(sc, base, items, g) or self.pinned(sc, g, base, 60)):
            return
        for sc, P, g, pc in items:
            if self.violations:
                return
            self._one(sc, P, g, pc, base, True)

    def aimed(self, sc, base, items, g):
        """as `pinned`, around inputs that come close to breaking one of the goals (this decides nothing either)"""
        if sc.files or sc.limits:
            return False
        rng = random.Random(self.seed)
        t0 = time.time()
        vs = [v for v in sc.inp if isT(v)]
        snap = lambda x: round(x * 4096) / 4096.0 if math.isfinite(x) and 1e-2 < abs(x) < 1e12 else x
        N, best, tries = 300, [], 0
        while time.time() - t0 < 60 and not self.violations and tries < 40:
            pop = []
            while len(pop) < N:
                if not best or rng.random() < 0.3:
                    try:
                        ci = [snap(float(x)) for x in sc.gen(rng)]
                    except Exception:
                        return False
                else:
                    w = rng.choice((0.05, 0.3, 1.0))
                    ci = [snap(x + rng.gauss(0, w) * abs(x)) if isT(v) and rng.random() < 0.2 else x for v, x in zip(sc.inp, rng.choice(best)[1])]
                if sc.pre_holds(ci):
                    pop.append(ci)
            for ci, P in zip(pop, self.native_many(sc.entry, pop, sc.nout, sc.par)):
                try:
                    gs = [x for x in sc.goals(ci, P) if x.final]
                except Exception:
                    continue
                if any(x.broken(sc.tol) for x in gs) and not self.violations:
                    tries += 1
                    for k in (0, 1):
                        free = set(id(v) for v in rng.sample(vs, k))
                        fix = [eq(v, F(x)) for v, x in zip(sc.inp, ci) if isT(v) and v.sort == 'F' and id(v) not in free and math.isfinite(x)]
                        r = smt.solve(list(base) + fix + [g.neg()], timeout=5, configs=('z3',), snapconst=sc.snap)
                        if r.status == 'sat' and r.model is not None:
                            c2 = sc.assign(r.model)
                            bad = self.replay(sc, c2)
                            if bad:
                                self.report(sc, c2, bad[0], g.name)
                                return True
                best.append((min([x.b - x.a for x in gs if x.kind in ('lt', 'le')] or [0]), ci))
            best.sort()
            best = best[:40]
        return False

    def _one(self, sc, P, g, pc, base, last=False):
        t0 = time.time()
        if g.step and sc.broken:
            self.obl -= 1
            return
        self.deadline(700 if self.tier == 'quick' else 3600)
        if g.cuts or g.base is not None:
            r = smt.solve((base if g.base is None else list(g.base)) + [g.neg()], timeout=sc.timeout, configs=sc.configs, snapconst=sc.snap, getmodel=False, cuts=g.cuts)
            if r.status == 'unsat':
                self.discharged += 1
                self.logqueries.append((sc.name, g.name, r.status, r.by, round(time.time() - t0, 2)))
                return
        r = smt.solve(base + [g.neg()], timeout=3, configs=sc.configs and sc.configs[:1] or ('z3',), snapconst=sc.snap)
        if r.status == 'unknown' and not (g.step and (g.cuts or g.base is not None)):
            r = smt.solve(base + [g.neg()], timeout=sc.timeout, configs=sc.configs, snapconst=sc.snap)
        self.logqueries.append((sc.name, g.name, r.status, r.by, round(time.time() - t0, 2)))
        if r.status == 'unsat':
            self.discharged += 1
            return
        if g.step:
            sc.broken = True
            self.obl -= 1
            self.notes.append('%s: step "%s" does not hold (%s)' % (sc.name, g.name, r.status))
            return
        # candidate violation: look for a model that shows on the real code
        tried = []
        models = []
        if r.status == 'sat' and r.model is not None:
            models.append(r.model)
        for m in models:
            ci = sc.assign(m)
            bad = self.replay(sc, ci)
            if bad:
                self.report(sc, ci, bad[0], g.name)
                return
            tried.append(ci)
        if r.status == 'unknown' and sc.gen is not None and not last and self.pinned(sc, g, base):
            return
        for boxed in (True, False):
            for margin in ((F(1), F(1, 100), F(1, 10000)) + (() if boxed else ('rel',)) if g.kind != 'ok' else (None,)):
                ex = list(base) + [g.negrel() if margin == 'rel' else g.neg(margin)]
                if boxed:
                    ex += sc.boxcons()
                r2 = smt.solve(ex, timeout=20, configs=sc.configs, snapconst=sc.snap)
                if r2.status == 'sat' and r2.model is not None:
                    ci = sc.assign(r2.model)
                    bad = self.replay(sc, ci)
                    if bad:
                        self.report(sc, ci, bad[0], g.name)
                        return
                    tried.append(ci)
        if sc.cand is not None:
            self.report(sc, sc.cand[0], sc.cand[1], g.name)
            return
        # random search around (only to turn an undecided query into a replayed violation, never into a pass)
        raise Inconclusive('%s: goal "%s": solver says %s (%s) but no counterexample reproduces; tried %s' % (
            sc.name, g.name, r.status, getattr(r, 'err', None), [[float(x) for x in t][:40] for t in tried[:2]]))

    def pinned(self, sc, g, base, secs=25):
        """undecided: ask again with most inputs fixed (this may find a counterexample, and decides nothing else)"""
        rng = random.Random(self.seed)
        t0 = time.time()
        vs = [v for v in sc.inp if isT(v)]
        while time.time() - t0 < secs and not self.violations:
            try:
                ci = sc.gen(rng)
            except Exception:
                return False
            free = set(id(v) for v in rng.sample(vs, min(len(vs), rng.choice((1, 1, 2, 3)))))
            fix = [eq(v, F(round(x * 64), 64) if isinstance(x, float) and 1e-2 < abs(x) < 1e15 else x) for v, x in zip(sc.inp, ci) if isT(v) and v.sort == 'F' and id(v) not in free and math.isfinite(x)]
            r = smt.solve(list(base) + fix + [g.neg()], timeout=3, configs=('z3',), snapconst=sc.snap)
            if r.status == 'sat' and r.model is not None:
                ci = sc.assign(r.model)
                bad = self.replay(sc, ci)
                if bad:
                    self.report(sc, ci, bad[0], g.name)
                    return True
        return False

    def replay(self, sc, ci):
        if not sc.pre_holds(ci):
            return []
        self.replays += 1
        P = self.native(sc.entry, ci, sc.nout, sc.par, sc.files, sc.limits)
        if sc.limits.get('races'):
            # what overlapping execution may do shows in the executor only
            with self.lock:
                P.races = self.concrete(sc.entry, ci, sc.nout, sc.par, setup=fs_setup(sc.files), **sc.limits).races
        return sc.check_concrete(ci, P)

    def report(self, sc, ci, what, goal):
        key = '%s/%s' % (sc.name, goal)
        for kf in self.known_findings:
            if kf.get('scenario') == sc.name and kf.get('goal') in (goal, what.split(':')[0]):
                if key not in self.known:
                    self.known.append(key)
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, kf['what']))
                return
        d = os.path.join(build.BUILD, 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (self.prop, len(self.violations)))
        with open(p, 'w') as f:
            json.dump({'property': self.prop, 'scenario': sc.name, 'entry': sc.entry, 'par': [int(x) for x in sc.par],
                       'limits': {k: v for k, v in sc.limits.items() if k in ('orders', 'fault')},
                       'files': {k: v if v is None else v.decode('latin1') for k, v in (sc.files or {}).items()},
                       'inputs': [float(x) for x in ci], 'inputs_hex': [float(x).hex() for x in ci], 'nout': sc.nout,
                       'goal': goal, 'observed': what,
                       'how': 'python3-vt /verif/run.py --replay ' + p}, f, indent=1)
        self.violations.append(p)
        print('VIOLATION property=%s replay=%s' % (self.prop, p))
        print('  scenario %s, goal "%s": %s' % (sc.name, goal, what))
        sys.stdout.flush()


def okay(P):
    return tm.icmp('eq', 64, P.status, 0) if isT(P.status) else int(P.status == 0)


def flat(b):
    if any(isT(x) for x in b):
        raise EngineError('symbolic bytes were written')
    return bytes(b)


def fs_setup(files):
    if not files:
        return None

    def setup(mx):
        fs = mx.ext.fs
        for k, v in files.items():
            fs.files['/w/' + k] = None if v is None else list(v)
    return setup


def number(P, tok):
    """the value a printed number stands for (a term on a symbolic path)"""
    tok = tok.strip()
    x = float(tok)
    k = externs.unmarker(x) if P.markers else None
    if k is not None and k < len(P.markers):
        return P.markers[k]
    return x


def bits(x):
    return struct.pack('<d', x) if x == x else b'nan'


class Scn(object):
    def __init__(self, ctx, name, entry, inp, nout, par, pre, goals, expect, tol, box, configs, snap, timeout):
        self.ctx = ctx
        self.name = name
        self.entry = entry
        self.inp = inp
        self.nout = nout
        self.par = par
        self.pre = pre
        self.goals = goals
        self.expect = expect
        self.tol = tol
        self.box = box
        self.configs = configs
        self.snap = snap
        self.timeout = timeout
        self.domain = tm.DOMAIN
        self.cand = None
        self.broken = False
        self.files = None
        self.limits = {}
        self.gen = None

    def pre_holds(self, ci):
        env = {v.val: c for v, c in zip(self.inp, ci) if isT(v)}
        return all(tm.evalf(c, env) for c in self.pre)

    def assign(self, model):
        out = []
        for v in self.inp:
            if isT(v):
                out.append(float(model.get(v.val, 1.0)))
            else:
                out.append(float(v))
        return out

    def boxcons(self):
        b = self.box or 20
        out = []
        for v in self.inp:
            if isT(v) and v.sort == 'F':
                out += [le(v, F(b)), ge(v, F(-b)), OR(eq(v, F(0)), ge(absv(v), F(1, 100)))]
        return out

    def check_concrete(self, ci, P):
        """list of failed goals of a concrete execution"""
        if P.dead is not None:
            return ['no panic: the code panicked/aborted (%s)' % P.dead]
        if self.expect == 'ok' and P.status != 0:
            return ['returns Ok: returned an error']
        bad = []
        try:
            gs = self.goals(ci, P)
        except ZeroDivisionError:
            return []
        for g in gs:
            if not g.step and g.broken(self.tol):
                bad.append('%s: %s' % (g.name, '%r vs %r' % (g.a, g.b) if g.kind != 'ok' else 'does not hold'))
        return bad


def load_known(prop):
    p = os.path.join(ROOT, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == prop]
