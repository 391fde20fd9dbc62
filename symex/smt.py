"""Term DAG -> SMT-LIB 2, and a small solver portfolio (z3, cvc5 as subprocesses)."""
import os
import re
import shutil
import signal
import subprocess
import tempfile
import threading
import time
from decimal import Decimal
from fractions import Fraction
from . import terms as tm
from .terms import T, Unsupported

Z3 = shutil.which('z3-new') or 'z3'
CVC5 = shutil.which('cvc5') or 'cvc5'

STATS = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'time': 0.0, 'by': {}}
_lock = threading.Lock()
_snap = {}


def snap(fr):
    """Idealise a double constant: the simple rational (or short decimal) it is the rounding of."""
    r = _snap.get(fr)
    if r is not None:
        return r
    x = float(fr)
    r = fr
    if Fraction(x) == fr and fr.denominator > 1:
        c = fr.limit_denominator(100000)
        if float(c) == x:
            r = c
        else:
            d = Fraction(Decimal(repr(x)))
            if len(repr(x)) < 15 and float(d) == x:
                r = d
    _snap[fr] = r
    return r


def rat(fr):
    if fr < 0:
        return '(- %s)' % rat(-fr)
    if fr.denominator == 1:
        return '%d.0' % fr.numerator
    return '(/ %d.0 %d.0)' % (fr.numerator, fr.denominator)


def vname(s):
    return '|%s|' % s


class Enc(object):
    """one SMT-LIB script"""

    def __init__(self, snapconst=True, cuts=None):
        self.dom = tm.DOMAIN
        self.cuts = cuts or {}
        self.decl = []
        self.defs = []
        self.done = {}
        self.vars = {}
        self.side = []
        self.ufs = set()
        self.snap = snapconst
        self.nfresh = 0

    def sortname(self, s):
        if s == 'F':
            return 'Real' if self.dom == 'real' else 'Float64'
        if s == 'B':
            return 'Bool'
        return '(_ BitVec %d)' % s

    def lit(self, v, sort):
        if sort == 'B':
            return 'true' if v else 'false'
        if sort == 'F':
            return self.enc(tm.lift(v))
        return '(_ bv%d %d)' % (v & ((1 << sort) - 1), sort)

    def arg(self, a, sort):
        if a.__class__ is T:
            if a.sort == 'B' and isinstance(sort, int):
                return '(ite %s (_ bv1 %d) (_ bv0 %d))' % (self.enc(a), sort, sort)
            return self.enc(a)
        return self.lit(a, sort)

    def fresh(self, sort):
        self.nfresh += 1
        n = '|fr!%d|' % self.nfresh
        self.decl.append('(declare-const %s %s)' % (n, sort))
        return n

    def enc(self, t):
        """iterative post-order encoding; returns the SMT name/expr of t"""
        if t.__class__ is not T:
            raise Unsupported('untyped literal')
        done = self.done
        if t.id in done:
            return done[t.id]
        cuts = self.cuts
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in done:
                stack.pop()
                continue
            if x.id in cuts:
                # generalise: an arbitrary value in place of this subterm
                stack.pop()
                done[x.id] = self.fresh(self.sortname(x.sort))
                continue
            todo = [a for a in x.args if a.__class__ is T and a.id not in done]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            e = self.node(x)
            if len(e) > 24 and x.op not in ('var', 'c'):
                n = 'n%d' % x.id
                self.defs.append((n, '(define-fun %s () %s %s)' % (n, self.sortname(x.sort), e)))
                e = n
            done[x.id] = e
        return done[t.id]

    def node(self, x):
        op = x.op
        A = x.args
        real = self.dom == 'real'
        if op == 'var':
            n = vname(x.val)
            if x.val not in self.vars:
                self.vars[x.val] = x.sort
                self.decl.append('(declare-const %s %s)' % (n, self.sortname(x.sort)))
            return n
        if op == 'c':
            if real:
                return rat(snap(x.val) if self.snap else x.val)
            v = tm.fpval(x)
            if v != v:
                return '(_ NaN 11 53)'
            b = tm.f2bits(v)
            return '(fp #b%s #b%s #b%s)' % (format(b >> 63, '01b'), format(b >> 52 & 2047, '011b'), format(b & ((1 << 52) - 1), '052b'))
        if op == 'cinf':
            raise Unsupported('non-finite constant in a real-domain query')
        g = lambda i, s=None: self.arg(A[i], s if s is not None else (A[i].sort if A[i].__class__ is T else None))
        if x.sort == 'F' and op in ('add', 'sub', 'mul', 'div'):
            if real:
                return '(%s %s %s)' % ({'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}[op], g(0), g(1))
            return '(fp.%s RNE %s %s)' % (op, g(0), g(1))
        if op == 'neg':
            return '(- %s)' % g(0) if real else '(fp.neg %s)' % g(0)
        if op == 'abs':
            a = g(0)
            return '(ite (< %s 0.0) (- %s) %s)' % (a, a, a) if real else '(fp.abs %s)' % a
        if op == 'sqrt':
            a = g(0)
            if not real:
                return '(fp.sqrt RNE %s)' % a
            n = self.fresh('Real')
            self.defs.append((n, '(assert (=> (>= %s 0.0) (and (>= %s 0.0) (= (* %s %s) %s))))' % (a, n, n, n, a)))
            return n
        if op == 'fn':
            f = '|uf!%s|' % x.val
            if f not in self.ufs:
                self.ufs.add(f)
                s = self.sortname('F')
                self.decl.append('(declare-fun %s (%s) %s)' % (f, ' '.join([s] * len(A)), s))
            e = '(%s %s)' % (f, ' '.join(g(i) for i in range(len(A))))
            if real and x.val in ('exp', 'ln'):
                # facts about the real functions at this point
                a = g(0)
                n = self.fresh('Real')
                self.defs.append((n, '(assert (= %s %s))' % (n, e)))
                if x.val == 'exp':
                    self.defs.append((n, '(assert (and (> {0} 0.0) (= (>= {1} 0.0) (>= {0} 1.0)) (= (<= {1} 0.0) (<= {0} 1.0)) (>= {0} (+ 1.0 {1}))))'.format(n, a)))
                else:
                    self.defs.append((n, '(assert (=> (> {1} 0.0) (and (= (>= {1} 1.0) (>= {0} 0.0)) (= (<= {1} 1.0) (<= {0} 0.0)) (<= {0} (- {1} 1.0)))))'.format(n, a)))
                return n
            return e
        if op == 'floor':
            return '(to_real (to_int %s))' % g(0) if real else '(fp.roundToIntegral RTN %s)' % g(0)
        if op in ('min', 'max'):
            return '(fp.%s %s %s)' % (op, g(0), g(1))
        if op == 'ite':
            return '(ite %s %s %s)' % (g(0), self.arg(A[1], x.sort), self.arg(A[2], x.sort))
        if op == 'not':
            return '(not %s)' % g(0)
        if op in ('and', 'or', 'xor') and x.sort == 'B':
            return '(%s %s %s)' % (op, self.arg(A[0], 'B'), self.arg(A[1], 'B'))
        if op in ('feq', 'flt', 'fle'):
            if real:
                return '(%s %s %s)' % ({'feq': '=', 'flt': '<', 'fle': '<='}[op], g(0), g(1))
            return '(%s %s %s)' % ({'feq': 'fp.eq', 'flt': 'fp.lt', 'fle': 'fp.leq'}[op], g(0), g(1))
        if op == 'isnan':
            return '(fp.isNaN %s)' % g(0)
        if op == 'fpis':
            a = g(0)
            v = x.val
            sg = '(fp.isNegative %s)' % a if v[0] == 'n' else '(fp.isPositive %s)' % a
            k = {'inf': 'fp.isInfinite', 'norm': 'fp.isNormal', 'sub': 'fp.isSubnormal', 'zero': 'fp.isZero'}[v[1:]]
            return '(and %s (%s %s))' % (sg, k, a)
        if op == 'icmp':
            s = A[0].sort if A[0].__class__ is T else A[1].sort
            a, b = self.arg(A[0], s), self.arg(A[1], s)
            p = x.val
            if p == 'eq':
                return '(= %s %s)' % (a, b)
            if p == 'ne':
                return '(not (= %s %s))' % (a, b)
            return '(bv%s %s %s)' % (p[0] + p[1:], a, b)
        if op.startswith('bv'):
            o = {'bvlshr': 'bvlshr', 'bvashr': 'bvashr'}.get(op, op)
            return '(%s %s %s)' % (o, self.arg(A[0], x.sort), self.arg(A[1], x.sort))
        if op == 'zext':
            return '((_ zero_extend %d) %s)' % (x.sort - A[0].sort, g(0))
        if op == 'sext':
            return '((_ sign_extend %d) %s)' % (x.sort - A[0].sort, g(0))
        if op == 'trunc':
            return '((_ extract %d 0) %s)' % (x.sort - 1, g(0))
        if op == 'bits2f' and not real:
            return '((_ to_fp 11 53) %s)' % g(0)
        if op == 'f2bits' and not real:
            n = self.fresh('(_ BitVec 64)')
            self.defs.append((n, '(assert (= ((_ to_fp 11 53) %s) %s))' % (n, g(0))))
            return n
        if op in ('sitofp', 'uitofp'):
            w = A[0].sort
            if real:
                # exact integer value
                a = g(0)
                u = '(to_real (bv2nat %s))' % a
                if op == 'uitofp':
                    return u
                return '(ite (bvslt %s (_ bv0 %d)) (- %s %d.0) %s)' % (a, w, u, 1 << w, u)
            return '((_ %s 11 53) RNE %s)' % ('to_fp' if op == 'sitofp' else 'to_fp_unsigned', g(0))
        if op in ('fptosi', 'fptoui', 'fptouisat', 'fptosisat'):
            w = x.sort
            a = g(0)
            if real:
                n = '(ite (< %s 0.0) (- (to_int (- %s))) (to_int %s))' % (a, a, a)
                if op == 'fptouisat':
                    return '((_ int2bv %d) (ite (< %s 0) 0 (ite (> %s %d) %d %s)))' % (w, n, n, (1 << w) - 1, (1 << w) - 1, n)
                return '((_ int2bv %d) %s)' % (w, n)
            return '((_ %s %d) RTZ %s)' % ('fp.to_ubv' if 'ui' in op else 'fp.to_sbv', w, a)
        raise Unsupported('no SMT encoding for %s (%s)' % (op, self.dom))

    def script(self, asserts, logic=None, getvars=()):
        ex = [self.arg(a, 'B') for a in asserts]
        out = ['(set-option :produce-models true)']
        if logic:
            out.append('(set-logic %s)' % logic)
        out += self.decl
        out += [d for n, d in self.defs]
        out += self.side
        out += ['(assert %s)' % e for e in ex]
        out.append('(check-sat)')
        return '\n'.join(out) + '\n'


def run_solver(cmd, text, timeout, stop=None):
    t0 = time.time()
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         preexec_fn=os.setsid)
    res = {}

    def comm():
        try:
            res['out'] = p.communicate(text)[0]
        except Exception as e:      # killed
            res['out'] = ''
    th = threading.Thread(target=comm)
    th.start()
    while th.is_alive():
        th.join(0.01 if time.time() - t0 < 0.5 else 0.05)
        if time.time() - t0 > timeout or (stop is not None and stop.is_set()):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            th.join()
            break
    return res.get('out', '') or ''


CONFIGS = {
    'z3': [Z3, '-in', '-smt2'],
    'z3-nl': [Z3, '-in', '-smt2', 'tactic.default_tactic=(then simplify propagate-values solve-eqs purify-arith elim-term-ite simplify solve-eqs qfnra-nlsat)'],
    'z3-old': ['z3', '-in', '-smt2'],
    'cvc5': [CVC5, '--lang=smt2', '--nl-ext=full', '--produce-models', '-'],
    'cvc5-cov': [CVC5, '--lang=smt2', '--nl-cov', '--produce-models', '-'],
    'cvc5-fp': [CVC5, '--lang=smt2', '--produce-models', '-'],
}

_num = re.compile(r'[^\s()]+|\(|\)')


def parse_sexpr(s):
    toks = re.findall(r'\|[^|]*\||"[^"]*"|[()]|[^\s()|]+', s)
    pos = [0]

    def rd():
        t = toks[pos[0]]
        pos[0] += 1
        if t == '(':
            l = []
            while toks[pos[0]] != ')':
                l.append(rd())
            pos[0] += 1
            return l
        return t
    out = []
    while pos[0] < len(toks):
        out.append(rd())
    return out


def realval(e):
    """numeric value of a model s-expression (Fraction where exact)"""
    if isinstance(e, str):
        if e.endswith('?'):
            e = e[:-1]
        return Fraction(Decimal(e))
    if e[0] == '-':
        if len(e) == 2:
            return -realval(e[1])
        return realval(e[1]) - realval(e[2])
    if e[0] == '/':
        return realval(e[1]) / realval(e[2])
    if e[0] == '+':
        return sum(realval(x) for x in e[1:])
    if e[0] == '*':
        r = Fraction(1)
        for x in e[1:]:
            r *= realval(x)
        return r
    if e[0] == 'to_real':
        return realval(e[1])
    raise Unsupported('model value ' + repr(e))


def bvval(e):
    if isinstance(e, str):
        if e.startswith('#x'):
            return int(e[2:], 16)
        if e.startswith('#b'):
            return int(e[2:], 2)
    elif e[0] == '_' and e[1].startswith('bv'):
        return int(e[1][2:])
    raise Unsupported('model value ' + repr(e))


def fpmodel(e):
    if isinstance(e, list):
        if e[0] == 'fp':
            s, x, m = [bvval(k) for k in e[1:]]
            return tm.bits2f(s << 63 | x << 52 | m)
        if e[0] == '_':
            return {'NaN': float('nan'), '+oo': float('inf'), '-oo': float('-inf'), '+zero': 0.0, '-zero': -0.0}[e[1]]
    raise Unsupported('model value ' + repr(e))


class Result(object):
    def __init__(self, status, model=None, by='', t=0.0, script=''):
        self.status = status
        self.model = model
        self.by = by
        self.time = t
        self.script = script


def solve(asserts, timeout=20, configs=None, getmodel=True, snapconst=True, extra=(), count=True, cuts=None):
    """conjunction of Bool terms.  Returns Result(status in sat/unsat/unknown)"""
    flat = []
    for a in asserts:
        if a.__class__ is not T:
            if not a:
                return Result('unsat', by='trivial')
            continue
        flat.append(a)
    t0 = time.time()
    enc = Enc(snapconst, cuts)
    if extra:
        enc.side = list(extra)
    text = enc.script(flat)
    vs = list(enc.vars.items())
    if configs is None:
        configs = ('z3', 'z3-nl', 'cvc5') if tm.DOMAIN == 'real' else ('z3', 'cvc5-fp')
        has_uf = bool(enc.ufs)
        has_bv = any(isinstance(s, int) for s in enc.vars.values())
        if tm.DOMAIN == 'real' and (has_uf or has_bv):
            configs = ('z3', 'cvc5')
    tail = ''
    if getmodel and vs:
        tail = '(get-value (%s))\n' % ' '.join(vname(v) for v, s in vs)
    stop = threading.Event()
    out = {}

    def work(cf):
        pre = ''
        if cf.startswith('z3') and cf != 'z3-old':
            pre = '(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)\n'
        if cf.startswith('cvc5'):
            pre = '(set-logic ALL)\n'
        s = run_solver(CONFIGS[cf], pre + text + tail, timeout, stop)
        ln = s.strip().split('\n')
        st = None
        for i, l in enumerate(ln):
            if l.strip() in ('sat', 'unsat'):
                st = l.strip()
                body = '\n'.join(ln[i + 1:])
                break
            if l.startswith('(error'):
                out.setdefault('err', (cf, l))
        if st == 'unsat' or st == 'sat':
            with _lock:
                if 'r' not in out:
                    m = None
                    if st == 'sat' and getmodel and vs:
                        try:
                            m = {}
                            for (v, so), (_, val) in zip(vs, parse_sexpr(body)[0]):
                                m[v] = (realval(val) if so == 'F' and tm.DOMAIN == 'real' else fpmodel(val) if so == 'F' else (val == 'true') if so == 'B' else bvval(val))
                        except Exception as e:
                            out['err'] = (cf, 'model: %r %s' % (e, body[:300]))
                            return
                    out['r'] = (st, m, cf)
            stop.set()
    ths = [threading.Thread(target=work, args=(c,)) for c in configs]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    dt = time.time() - t0
    st, m, by = out.get('r', ('unknown', None, ''))
    if count:
        with _lock:
            STATS['queries'] += 1
            STATS[st] += 1
            STATS['time'] += dt
            if by:
                STATS['by'][by] = STATS['by'].get(by, 0) + 1
    r = Result(st, m, by, dt, text)
    r.err = out.get('err')
    return r
