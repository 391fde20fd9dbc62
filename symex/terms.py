"""Hash-consed term DAG used by the symbolic executor.

Sorts: 'F' (an f64; read either as an exact real or as an IEEE-754 double,
depending on DOMAIN), 'B' (i1 / bool) and an int n (an n-bit vector).
Concrete values are never wrapped: a concrete f64 is a Python float, a concrete
integer / pointer / i1 a Python int.  In the real domain a symbolic-derived
constant may be an exact Fraction (op 'c').
"""
import math
from fractions import Fraction

DOMAIN = 'real'          # 'real' | 'fp'


class Unsupported(Exception):
    pass


class T(object):
    __slots__ = ('op', 'args', 'sort', 'val', 'id', '_lin')
    # arithmetic -----------------------------------------------------------
    def __add__(s, o):
        if s.sort == 'F':
            return fadd(s, o)
        return bv('add', s.sort, s, o)

    def __radd__(s, o):
        if s.sort == 'F':
            return fadd(o, s)
        return bv('add', s.sort, o, s)

    def __sub__(s, o):
        if s.sort == 'F':
            return fsub(s, o)
        return bv('sub', s.sort, s, o)

    def __rsub__(s, o):
        if s.sort == 'F':
            return fsub(o, s)
        return bv('sub', s.sort, o, s)

    def __mul__(s, o):
        if s.sort == 'F':
            return fmul(s, o)
        return bv('mul', s.sort, s, o)

    def __rmul__(s, o):
        if s.sort == 'F':
            return fmul(o, s)
        return bv('mul', s.sort, o, s)

    def __truediv__(s, o):
        return fdiv(s, o)

    def __rtruediv__(s, o):
        return fdiv(o, s)

    def __neg__(s):
        return fneg(s)

    def __and__(s, o):
        if s.sort == 'B':
            return AND(s, o)
        return bv('and', s.sort, s, o)
    __rand__ = __and__

    def __or__(s, o):
        if s.sort == 'B':
            return OR(s, o)
        return bv('or', s.sort, s, o)
    __ror__ = __or__

    def __xor__(s, o):
        if s.sort == 'B':
            return XOR(s, o)
        return bv('xor', s.sort, s, o)
    __rxor__ = __xor__

    def __lshift__(s, o):
        return bv('shl', s.sort, s, o)

    def __rlshift__(s, o):
        return bv('shl', s.sort, o, s)

    def __rshift__(s, o):
        return bv('lshr', s.sort, s, o)

    def __rrshift__(s, o):
        return bv('lshr', s.sort, o, s)

    def __floordiv__(s, o):
        return bv('udiv', s.sort, s, o)

    def __rfloordiv__(s, o):
        return bv('udiv', s.sort, o, s)

    def __mod__(s, o):
        return bv('urem', s.sort, s, o)

    def __rmod__(s, o):
        return bv('urem', s.sort, o, s)

    def __bool__(s):
        raise Unsupported('truth value of symbolic term requested')

    def __index__(s):
        raise Unsupported('symbolic term used as an index/address')

    def __repr__(s):
        return show(s, 6)


_tab = {}
_ctr = [0]


def reset():
    _tab.clear()
    _ctr[0] = 0


def mk(op, args, sort, val=None):
    key = (op, sort, val, tuple([a.id if a.__class__ is T else (a.__class__.__name__, a) for a in args]))
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = tuple(args)
        t.sort = sort
        t.val = val
        _ctr[0] += 1
        t.id = _ctr[0]
        _tab[key] = t
    return t


def show(t, d=4):
    if t.__class__ is not T:
        return repr(t)
    if t.op == 'var':
        return t.val
    if t.op == 'c':
        return str(t.val)
    if d == 0:
        return '..'
    return '(%s%s %s)' % (t.op, '' if t.val is None else ':' + str(t.val), ' '.join(show(a, d - 1) for a in t.args))


def var(name, sort='F'):
    return mk('var', (), sort, name)


def const(x):
    """F-sorted constant term."""
    if DOMAIN == 'real':
        return mk('c', (), 'F', Fraction(x))
    return lift(float(x))


def isT(x):
    return x.__class__ is T


def isF(x):
    return x.__class__ is float or (x.__class__ is T and x.sort == 'F')


def cval(x):
    """concrete value of an F value or None"""
    if x.__class__ is float:
        return x
    if x.__class__ is int:
        return float(x)
    if x.__class__ is Fraction:
        return x
    if x.op == 'c':
        return x.val
    return None


def lift(x):
    if x.__class__ is T:
        return x
    if x.__class__ is Fraction:
        return const(x)
    x = float(x)
    if DOMAIN == 'real':
        if x != x or x in (math.inf, -math.inf):
            return mk('cinf', (), 'F', repr(x))
        return mk('c', (), 'F', Fraction(x))
    return mk('c', (), 'F', 'nan' if x != x else x.hex())


def fpval(t):
    v = t.val
    return math.nan if v == 'nan' else float.fromhex(v)


def _bad(*ts):
    for t in ts:
        if t.op == 'cinf':
            raise Unsupported('non-finite constant in real-domain arithmetic')


def dyadic(v):
    """is v surely meant as it is (a short binary fraction), not a rounded decimal?"""
    return v.denominator <= 1 << 20


def fdiv_c(a, b):
    if b != 0:
        try:
            return a / b
        except OverflowError:
            return math.inf if (a > 0) == (b > 0) else -math.inf
    if a != a or b != b or a == 0:
        return math.nan
    neg = (math.copysign(1, a) < 0) != (math.copysign(1, b) < 0)
    return -math.inf if neg else math.inf


def fadd(a, b):
    if not isT(a) and not isT(b):
        return a + b
    a = lift(a); b = lift(b)
    if DOMAIN == 'real':
        if a.op == 'c' and b.op == 'c':
            return const(a.val + b.val)
        if a.op == 'cinf' or b.op == 'cinf':
            _bad(a, b)
        if a.op == 'c' and a.val == 0:
            return b
        if b.op == 'c' and b.val == 0:
            return a
        if b.op == 'neg' and b.args[0] is a or a.op == 'neg' and a.args[0] is b:
            return const(0)
        if a.id > b.id:
            a, b = b, a
    elif a.op == 'c' and b.op == 'c':
        return fpval(a) + fpval(b)
    return mk('add', (a, b), 'F')


def fsub(a, b):
    if not isT(a) and not isT(b):
        return a - b
    a = lift(a); b = lift(b)
    if DOMAIN == 'real':
        if a is b:
            return const(0)
        if a.op == 'c' and b.op == 'c':
            return const(a.val - b.val)
        _bad(a, b)
        if b.op == 'c' and b.val == 0:
            return a
        if a.op == 'c' and a.val == 0:
            return fneg(b)
    elif a.op == 'c' and b.op == 'c':
        return fpval(a) - fpval(b)
    return mk('sub', (a, b), 'F')


def fmul(a, b):
    if not isT(a) and not isT(b):
        return a * b
    a = lift(a); b = lift(b)
    if DOMAIN == 'real':
        if a.op == 'c' and b.op == 'c':
            return const(a.val * b.val)
        _bad(a, b)
        for x, y in ((a, b), (b, a)):
            if x.op == 'c':
                if x.val == 0:
                    return const(0)
                if x.val == 1:
                    return y
                if x.val == -1:
                    return fneg(y)
        if a.id > b.id:
            a, b = b, a
    elif a.op == 'c' and b.op == 'c':
        return fpval(a) * fpval(b)
    return mk('mul', (a, b), 'F')


def fdiv(a, b):
    if not isT(a) and not isT(b):
        return fdiv_c(a, b)
    a = lift(a); b = lift(b)
    if DOMAIN == 'real':
        if a.op == 'c' and b.op == 'c' and b.val != 0:
            return const(a.val / b.val)
        if b.op == 'cinf' and b.val != 'nan' and a.op != 'cinf':
            return const(0)
        _bad(a, b)
        if b.op == 'c' and b.val == 1:
            return a
        if b.op == 'c' and b.val != 0 and dyadic(b.val):
            return fmul(const(1 / b.val), a)
        if b.op == 'c' and b.val == 0:
            raise Unsupported('division by constant zero in the real domain')
    elif a.op == 'c' and b.op == 'c':
        return fdiv_c(fpval(a), fpval(b))
    return mk('div', (a, b), 'F')


def fneg(a):
    if not isT(a):
        return -a
    if a.op == 'neg':
        return a.args[0]
    if a.op == 'c':
        return const(-a.val) if DOMAIN == 'real' else -fpval(a)
    if a.op == 'cinf':
        return -float(a.val)
    return mk('neg', (a,), 'F')


def fabs_(a):
    if not isT(a):
        return abs(a)
    if a.op == 'c':
        return const(abs(a.val)) if DOMAIN == 'real' else abs(fpval(a))
    if a.op == 'cinf':
        return abs(float(a.val))
    if a.op == 'neg':
        a = a.args[0]
    if a.op == 'abs' or (DOMAIN == 'real' and a.op == 'sqrt'):
        return a
    return mk('abs', (a,), 'F')


def fsqrt(a):
    if not isT(a):
        if a != a:
            return a
        return math.sqrt(a) if a >= 0 else (a if a == 0 else math.nan)
    if a.op == 'c' and DOMAIN == 'real' and a.val >= 0:
        n, d = a.val.numerator, a.val.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return const(Fraction(rn, rd))
    if a.op == 'c' and DOMAIN == 'fp':
        return fsqrt(fpval(a))
    return mk('sqrt', (a,), 'F')


def fun(name, *args):
    return mk('fn', tuple(lift(a) for a in args), 'F', name)


def ffloor(a):
    if not isT(a):
        return math.floor(a) * 1.0 if math.isfinite(a) else a
    return mk('floor', (a,), 'F')


# --- comparisons --------------------------------------------------------------

def _isnan_c(x):
    return x.__class__ is float and x != x


def fcmp(pred, a, b):
    """LLVM fcmp.  Result 0/1 or a Bool term."""
    if not isT(a) and not isT(b):
        un = a != a or b != b
        if pred == 'oeq': return 1 if a == b else 0
        if pred == 'olt': return 1 if a < b else 0
        if pred == 'ole': return 1 if a <= b else 0
        if pred == 'ogt': return 1 if a > b else 0
        if pred == 'oge': return 1 if a >= b else 0
        if pred == 'one': return 1 if (not un and a != b) else 0
        if pred == 'ord': return 0 if un else 1
        if pred == 'uno': return 1 if un else 0
        if pred == 'ueq': return 1 if un or a == b else 0
        if pred == 'ult': return 1 if un or a < b else 0
        if pred == 'ule': return 1 if un or a <= b else 0
        if pred == 'ugt': return 1 if un or a > b else 0
        if pred == 'uge': return 1 if un or a >= b else 0
        if pred == 'une': return 1 if un or a != b else 0
        if pred == 'false': return 0
        if pred == 'true': return 1
        raise Unsupported(pred)
    if pred == 'false':
        return 0
    if pred == 'true':
        return 1
    a = lift(a); b = lift(b)
    if DOMAIN == 'real':
        if a.op == 'cinf' or b.op == 'cinf':
            if 'nan' in (a.val, b.val):
                return 1 if pred[0] == 'u' else 0
            av = float(a.val) if a.op == 'cinf' else 0.0
            bv_ = float(b.val) if b.op == 'cinf' else 0.0
            return fcmp(pred, av, bv_)
        if pred == 'ord':
            return 1
        if pred == 'uno':
            return 0
        p = pred[1:]
        return cmpF(p, a, b)
    # fp domain
    if pred == 'ord':
        return AND(NOT(isnan(a)), NOT(isnan(b)))
    if pred == 'uno':
        return OR(isnan(a), isnan(b))
    if pred[0] == 'o':
        if pred == 'one':
            return AND(AND(NOT(isnan(a)), NOT(isnan(b))), NOT(cmpF('eq', a, b)))
        return cmpF(pred[1:], a, b)
    inv = {'ueq': 'one', 'ult': 'oge', 'ule': 'ogt', 'ugt': 'ole', 'uge': 'olt', 'une': 'oeq'}[pred]
    return NOT(fcmp(inv, a, b))


def isnan(a):
    if not isT(a):
        return 1 if a != a else 0
    if a.op == 'c':
        return 1 if a.val == 'nan' else 0
    if DOMAIN == 'real':
        return 0
    if a.op in ('neg', 'abs'):
        return isnan(a.args[0])
    return mk('isnan', (a,), 'B')


def cmpF(p, a, b):
    """ordered comparison eq/ne/lt/le/gt/ge over F terms"""
    if p == 'ne':
        return NOT(cmpF('eq', a, b))
    if p == 'gt':
        p, a, b = 'lt', b, a
    elif p == 'ge':
        p, a, b = 'le', b, a
    if DOMAIN == 'real':
        if a.op == 'c' and b.op == 'c':
            return 1 if {'eq': a.val == b.val, 'lt': a.val < b.val, 'le': a.val <= b.val}[p] else 0
        if a is b:
            return 0 if p == 'lt' else 1
        if a.op == 'abs' and b.op == 'c' and b.val < 0:
            return 0
        if b.op == 'abs' and a.op == 'c' and p != 'eq' and (a.val < 0 or (a.val == 0 and p == 'le')):
            return 1
        # lift through ite with constant comparison result
        for x, y, sw in ((a, b, 0), (b, a, 1)):
            if x.op == 'ite' and y.op == 'c' and (isc(x.args[1]) or isc(x.args[2])):
                c = x.args[0]
                if sw:
                    return ITE(c, cmpF(p, b_(y), lift(x.args[1])), cmpF(p, b_(y), lift(x.args[2])), 'B')
                return ITE(c, cmpF(p, lift(x.args[1]), y), cmpF(p, lift(x.args[2]), y), 'B')
    else:
        if a.op == 'c' and b.op == 'c':
            return fcmp('o' + p, fpval(a), fpval(b))
    if p == 'eq' and a.id > b.id:
        a, b = b, a
    if p == 'le' and DOMAIN == 'real':
        return NOT(mk('flt', (b, a), 'B'))
    return mk('f' + p, (a, b), 'B')


def b_(x):
    return x


def isc(x):
    return not isT(x) or x.op in ('c', 'cinf')


# --- booleans -----------------------------------------------------------------

def NOT(a):
    if a.__class__ is not T:
        return 1 - int(a)
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), 'B')


def AND(a, b):
    if a.__class__ is not T:
        return b if a else 0
    if b.__class__ is not T:
        return a if b else 0
    if a is b:
        return a
    if NOT(a) is b:
        return 0
    if a.id > b.id:
        a, b = b, a
    return mk('and', (a, b), 'B')


def OR(a, b):
    if a.__class__ is not T:
        return 1 if a else b
    if b.__class__ is not T:
        return 1 if b else a
    if a is b:
        return a
    if NOT(a) is b:
        return 1
    if a.id > b.id:
        a, b = b, a
    return mk('or', (a, b), 'B')


def XOR(a, b):
    if a.__class__ is not T and b.__class__ is not T:
        return a ^ b
    if a.__class__ is not T:
        return NOT(b) if a else b
    if b.__class__ is not T:
        return NOT(a) if b else a
    if a is b:
        return 0
    if a.id > b.id:
        a, b = b, a
    return mk('xor', (a, b), 'B')


def ands(xs):
    r = 1
    for x in xs:
        r = AND(r, x)
    return r


def ors(xs):
    r = 0
    for x in xs:
        r = OR(r, x)
    return r


class MergeFail(Exception):
    pass


def ITE(c, a, b, sort=None):
    if c.__class__ is not T:
        return a if c else b
    if a is b:
        return a
    ca, cb = a.__class__, b.__class__
    if ca is not T and cb is not T:
        if ca is float or cb is float:
            if ca is float and cb is float and (a == b and math.copysign(1, a) == math.copysign(1, b)):
                return a
            sort = 'F'
        elif a == b:
            return a
    if c.op == 'not':
        return ITE(c.args[0], b, a, sort)
    if sort is None:
        sort = a.sort if ca is T else b.sort if cb is T else None
        if sort is None:
            raise MergeFail('ite of concrete ints needs a width')
    if sort == 'F':
        a = lift(a); b = lift(b)
    elif sort == 'B':
        if ca is not T:
            return OR(c, b) if a else AND(NOT(c), b)
        if cb is not T:
            return OR(NOT(c), a) if b else AND(c, a)
    if a.__class__ is T and a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.__class__ is T and b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk('ite', (c, a, b), sort)


def fmin2(a, b):
    """llvm.minnum / minimumnum"""
    if not isT(a) and not isT(b):
        if a != a: return b
        if b != b: return a
        if a == b: return a if math.copysign(1, a) < 0 else b
        return a if a < b else b
    if DOMAIN == 'fp':
        return mk('min', (lift(a), lift(b)), 'F')
    c = fcmp('olt', b, a)
    return ITE(c, b, a, 'F')


def fmax2(a, b):
    if not isT(a) and not isT(b):
        if a != a: return b
        if b != b: return a
        if a == b: return b if math.copysign(1, a) < 0 else a
        return a if a > b else b
    if DOMAIN == 'fp':
        return mk('max', (lift(a), lift(b)), 'F')
    c = fcmp('olt', a, b)
    return ITE(c, b, a, 'F')


# --- bit-vectors ----------------------------------------------------------------

def f2bits(a):
    if a.__class__ is not T:
        import struct
        return struct.unpack('<Q', struct.pack('<d', a))[0]
    if a.op == 'bits2f':
        return a.args[0]
    if a.op == 'c':
        if DOMAIN == 'fp':
            return f2bits(fpval(a))
        f = float(a.val)
        if Fraction(f) == a.val:
            return f2bits(f)
    if a.op == 'ite':
        x, y = a.args[1], a.args[2]
        if x.__class__ is not T or y.__class__ is not T or x.op == 'c' or y.op == 'c':
            # unions of a float and a pointer
            return ITE(a.args[0], f2bits(x), f2bits(y), 64)
    return mk('f2bits', (a,), 64)


def bits2f(b):
    if b.__class__ is not T:
        import struct
        return struct.unpack('<d', struct.pack('<Q', b))[0]
    if b.op == 'f2bits':
        return b.args[0]
    if b.op == 'ite':
        return ITE(b.args[0], bits2f(b.args[1]), bits2f(b.args[2]), 'F')
    if b.op == 'var' or DOMAIN == 'fp':
        return mk('bits2f', (b,), 'F')
    if b.op == 'bvand' and 0x7fffffffffffffff in b.args:
        x = b.args[0] if b.args[1] == 0x7fffffffffffffff else b.args[1]
        return fabs_(bits2f(x))
    if b.op == 'bvxor' and (1 << 63) in b.args:
        x = b.args[0] if b.args[1] == (1 << 63) else b.args[1]
        return fneg(bits2f(x))
    raise Unsupported('bit-level float construction in the real domain: ' + show(b))


def mapite(f, x, depth=0):
    """push a unary function through an ite tree with concrete leaves"""
    if x.__class__ is not T:
        return f(x)
    if x.op == 'ite':
        return ITE(x.args[0], mapite(f, x.args[1]), mapite(f, x.args[2]), f.sort)
    raise MergeFail('not an ite tree')


def leafy(x):
    if x.__class__ is not T:
        return True
    return x.op == 'ite' and leafy(x.args[1]) and leafy(x.args[2])


_BVOPS = {
    'add': lambda n, a, b: (a + b) & ((1 << n) - 1),
    'sub': lambda n, a, b: (a - b) & ((1 << n) - 1),
    'mul': lambda n, a, b: (a * b) & ((1 << n) - 1),
    'and': lambda n, a, b: a & b,
    'or': lambda n, a, b: a | b,
    'xor': lambda n, a, b: a ^ b,
    'shl': lambda n, a, b: (a << b) & ((1 << n) - 1) if b < n else 0,
    'lshr': lambda n, a, b: a >> b,
    'ashr': lambda n, a, b: (sx(a, n) >> min(b, n - 1)) & ((1 << n) - 1),
    'udiv': lambda n, a, b: a // b,
    'urem': lambda n, a, b: a % b,
    'sdiv': lambda n, a, b: (abs(sx(a, n)) // abs(sx(b, n)) * (1 if (sx(a, n) < 0) == (sx(b, n) < 0) else -1)) & ((1 << n) - 1),
    'srem': lambda n, a, b: (abs(sx(a, n)) % abs(sx(b, n)) * (-1 if sx(a, n) < 0 else 1)) & ((1 << n) - 1),
}


def sx(a, n):
    return a - (1 << n) if a >> (n - 1) & 1 else a


def bv(op, n, a, b):
    m = (1 << n) - 1
    ta, tb = a.__class__ is T, b.__class__ is T
    if not ta and not tb:
        return _BVOPS[op](n, a, b)
    if op == 'and':
        for x, y in ((a, b), (b, a)):
            if x.__class__ is int:
                if x & m == m:
                    return y
                if x == 0:
                    return 0
    elif op in ('or', 'xor', 'add'):
        for x, y in ((a, b), (b, a)):
            if x.__class__ is int and x == 0:
                return y
    elif op in ('sub', 'shl', 'lshr', 'ashr') and b.__class__ is int and b == 0:
        return a
    elif op == 'mul':
        for x, y in ((a, b), (b, a)):
            if x.__class__ is int:
                if x == 0:
                    return 0
                if x == 1:
                    return y
    if ta and a.op == 'ite' and not tb:
        return ITE(a.args[0], bv(op, n, a.args[1], b), bv(op, n, a.args[2], b), n)
    if tb and b.op == 'ite' and not ta:
        return ITE(b.args[0], bv(op, n, a, b.args[1]), bv(op, n, a, b.args[2]), n)
    if op == 'and' and DOMAIN == 'real':
        for x, y in ((a, b), (b, a)):
            if y.__class__ is int and y == 0x7fffffffffffffff and x.__class__ is T and x.op == 'f2bits':
                return f2bits(fabs_(x.args[0]))
    if op == 'lshr' and DOMAIN == 'real' and a.__class__ is T and a.op == 'f2bits' and b == 63:
        return ITE(fcmp('olt', a.args[0], 0.0), 1, 0, n)
    if op in ('add', 'mul', 'and', 'or', 'xor') and not tb:
        pass
    return mk('bv' + op, (a, b), n)


EXPMASK = 0x7ff0000000000000


def icmp(pred, n, a, b):
    ta, tb = a.__class__ is T, b.__class__ is T
    if not ta and not tb:
        if pred == 'eq': return 1 if a == b else 0
        if pred == 'ne': return 1 if a != b else 0
        if pred == 'ult': return 1 if a < b else 0
        if pred == 'ule': return 1 if a <= b else 0
        if pred == 'ugt': return 1 if a > b else 0
        if pred == 'uge': return 1 if a >= b else 0
        a = sx(a, n); b = sx(b, n)
        if pred == 'slt': return 1 if a < b else 0
        if pred == 'sle': return 1 if a <= b else 0
        if pred == 'sgt': return 1 if a > b else 0
        if pred == 'sge': return 1 if a >= b else 0
        raise Unsupported(pred)
    if (ta and a.sort == 'B') or (tb and b.sort == 'B'):
        if pred == 'eq':
            return NOT(XOR(a, b))
        if pred == 'ne':
            return XOR(a, b)
        if pred == 'ult':
            return AND(NOT(a), b)
        if pred == 'ugt':
            return AND(a, NOT(b))
        if pred == 'ule':
            return OR(NOT(a), b)
        if pred == 'uge':
            return OR(a, NOT(b))
        raise Unsupported('icmp %s on i1' % pred)
    if ta and a.op == 'ite' and not tb:
        return ITE(a.args[0], icmp(pred, n, a.args[1], b), icmp(pred, n, a.args[2], b), 'B')
    if tb and b.op == 'ite' and not ta:
        return ITE(b.args[0], icmp(pred, n, a, b.args[1]), icmp(pred, n, a, b.args[2]), 'B')
    if a is b and pred in ('eq', 'ule', 'uge', 'sle', 'sge'):
        return 1
    if a is b and pred in ('ne', 'ult', 'ugt', 'slt', 'sgt'):
        return 0
    if ta and tb and a.op == 'ite' and leafy(a) and b.op == 'ite' and leafy(b):
        return ITE(a.args[0], icmp(pred, n, a.args[1], b), icmp(pred, n, a.args[2], b), 'B')
    if ta and a.op == 'zext' and not tb and a.args[0].__class__ is T and a.args[0].sort == 'B':
        x = a.args[0]
        return ITE(x, icmp(pred, n, 1, b), icmp(pred, n, 0, b), 'B')
    if DOMAIN == 'real':
        for x, y, sw in ((a, b, False), (b, a, True)):
            if x.__class__ is T and x.op == 'f2bits' and y.__class__ is int:
                p = pred
                if sw:
                    p = {'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule', 'slt': 'sgt', 'sle': 'sge', 'sgt': 'slt', 'sge': 'sle'}.get(p, p)
                f = x.args[0]
                nonneg = f.op in ('abs', 'sqrt')
                if p == 'slt' and y == 0 or p == 'sle' and y == (1 << 64) - 1:
                    return fcmp('olt', f, 0.0)
                if p == 'sge' and y == 0 or p == 'sgt' and y == (1 << 64) - 1:
                    return fcmp('oge', f, 0.0)
                if p in ('ult', 'slt') and y == EXPMASK and nonneg:
                    return 1
                if p in ('ugt', 'sgt') and y == EXPMASK - 1 and nonneg:
                    return 0
                if p in ('ule', 'sle') and y == EXPMASK - 1 and nonneg:
                    return 1
                if p in ('eq',) and y == EXPMASK:
                    return 0
                if p in ('ne',) and y == EXPMASK:
                    return 1
                if p in ('uge', 'sge') and y == EXPMASK and nonneg:
                    return 0
            if x.__class__ is T and x.op == 'bvand' and EXPMASK in x.args and y == EXPMASK and pred in ('eq', 'ne'):
                return 1 if pred == 'ne' else 0
    return mk('icmp', (a, b), 'B', pred)


def zext(n, m, a):
    if a.__class__ is not T:
        return a
    if a.sort == 'B':
        return ITE(a, 1, 0, m)
    if a.op == 'ite':
        return ITE(a.args[0], zext(n, m, a.args[1]), zext(n, m, a.args[2]), m)
    return mk('zext', (a,), m)


def sext(n, m, a):
    if a.__class__ is not T:
        return sx(a, n) & ((1 << m) - 1)
    if a.sort == 'B':
        return ITE(a, (1 << m) - 1, 0, m)
    if a.op == 'ite':
        return ITE(a.args[0], sext(n, m, a.args[1]), sext(n, m, a.args[2]), m)
    return mk('sext', (a,), m)


def trunc(n, m, a):
    if a.__class__ is not T:
        return a & ((1 << m) - 1)
    if a.op == 'ite':
        return ITE(a.args[0], trunc(n, m, a.args[1]), trunc(n, m, a.args[2]), 'B' if m == 1 else m)
    if a.op == 'zext':
        x = a.args[0]
        if x.__class__ is T and x.sort == m:
            return x
    if m == 1:
        return icmp('ne', n, bv('and', n, a, 1), 0)
    return mk('trunc', (a,), m)


# --- concrete evaluation ----------------------------------------------------------

def evalf(t, env, memo=None):
    """evaluate a term over Python floats (env: variable name -> value)"""
    if memo is None:
        memo = {}
    if t.__class__ is not T:
        return t
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        todo = [a for a in x.args if a.__class__ is T and a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        A = [memo[a.id] if a.__class__ is T else a for a in x.args]
        memo[x.id] = _evalnode(x, A, env)
    return memo[t.id]


def rewrite(xs, subst):
    """the terms xs with every term t that occurs in subst (t.id -> equal term) replaced"""
    memo = dict(subst)

    def node(x):
        A = [memo.get(a.id, a) if isT(a) else a for a in x.args]
        if all(p is q for p, q in zip(A, x.args)):
            return x
        f = {'add': fadd, 'sub': fsub, 'mul': fmul, 'div': fdiv, 'neg': fneg, 'abs': fabs_, 'sqrt': fsqrt, 'ite': ITE, 'not': NOT, 'and': AND, 'or': OR, 'xor': XOR}.get(x.op)
        if f:
            return f(*A)
        if x.op in ('feq', 'flt', 'fle'):
            return fcmp('o' + {'feq': 'eq', 'flt': 'lt', 'fle': 'le'}[x.op], *A)
        return mk(x.op, [lift(a) if x.op == 'fn' else a for a in A], x.sort, x.val)
    for r in xs:
        todo = [r] if isT(r) else []
        while todo:
            x = todo[-1]
            if x.id in memo:
                todo.pop()
                continue
            rest = [a for a in x.args if isT(a) and a.id not in memo]
            if rest:
                todo += rest
                continue
            memo[x.id] = node(x)
            todo.pop()
    return [memo[x.id] if isT(x) else x for x in xs]


def _evalnode(x, A, env):
    op = x.op
    if op == 'var':
        return env[x.val]
    if op == 'c':
        if isinstance(x.val, Fraction):
            return float(x.val)
        return fpval(x)
    if op == 'cinf':
        return float(x.val)
    f = {'add': fadd, 'sub': fsub, 'mul': fmul, 'div': fdiv}.get(op)
    if f:
        return f(float(A[0]), float(A[1]))
    if op == 'neg':
        return -A[0]
    if op == 'abs':
        return abs(A[0])
    if op == 'sqrt':
        return fsqrt(float(A[0]))
    if op == 'ite':
        return A[1] if A[0] else A[2]
    if op == 'not':
        return 0 if A[0] else 1
    if op in ('and', 'or', 'xor'):
        return {'and': A[0] and A[1], 'or': A[0] or A[1], 'xor': int(bool(A[0]) != bool(A[1]))}[op]
    if op in ('feq', 'flt', 'fle'):
        return {'feq': A[0] == A[1], 'flt': A[0] < A[1], 'fle': A[0] <= A[1]}[op]
    if op == 'isnan':
        return A[0] != A[0]
    if op == 'floor':
        return float(math.floor(A[0]))
    if op == 'fn':
        g = {'ln': math.log, 'exp': math.exp, 'log10': math.log10}.get(x.val)
        if g:
            return g(A[0])
    if op == 'icmp':
        s = x.args[0].sort if x.args[0].__class__ is T else x.args[1].sort
        return icmp(x.val, s if isinstance(s, int) else 1, A[0], A[1])
    if op.startswith('bv'):
        return bv(op[2:], x.sort, A[0], A[1])
    if op == 'f2bits':
        return f2bits(float(A[0]))
    if op == 'bits2f':
        return bits2f(A[0])
    raise Unsupported('evalf ' + op)
