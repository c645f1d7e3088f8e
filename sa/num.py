"""Abstract numbers: a reduced product of three domains.

* value number -- the term is identified by its evaluation at one random
  point of the space of its atoms (random interpretation, Gulwani & Necula).
  Two terms with the same value number denote the same function of the atoms
  (with probability 1 over the choice of the point, which is fixed by hashing
  the atoms' names); so algebraically equal formulas agree however they are
  written.
* linear form over atoms, for order comparisons.
* interval.
"""
import hashlib
import decimal
from decimal import Decimal, getcontext, ROUND_HALF_EVEN
from fractions import Fraction

# also for threads: workers that replace others are forked from one
for _c in (getcontext(), decimal.DefaultContext):
    _c.prec = 60
    _c.Emax = 999999
    _c.Emin = -999999
INF = float('inf')
PI_D = Decimal('3.14159265358979323846264338327950288419716939937510582097494459')


def _dec(fr):
    return Decimal(fr.numerator) / Decimal(fr.denominator)


def _rnd(name):
    h = int.from_bytes(hashlib.blake2b(name.encode(), digest_size=16).digest(), 'big')
    return Decimal(h) / Decimal(2 ** 128)


OV = {}      # points prescribed for atoms (equality refinement)
POINT = {}   # points of the atoms of the current path
B = {}       # bounds of atoms on the current path (reset per path)


def vkey(v):
    if v == 0:
        return '0'
    s = '%.30E' % v
    return s


class Num(object):
    __slots__ = ('v', 'lin', 'c', 'lo', 'hi', 't')

    def __init__(self, v, lin, c, lo, hi, t='float'):
        self.v = v
        self.lin = lin
        self.c = c
        self.lo = lo
        self.hi = hi
        self.t = t

    @property
    def const(self):
        return not self.lin

    def key(self):
        return vkey(self.v)

    def __repr__(self):
        if self.const:
            return 'Num(%s)' % float(self.c)
        return 'Num(%s)' % ' + '.join(
            ['%s*%s' % (k, a) if k != 1 else a for a, k in self.lin.items()]
            + ([str(float(self.c))] if self.c else []))


def const(x, t=None):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, Decimal):
        fr = Fraction(x)
    else:
        fr = Fraction(x)
    f = float(fr)
    return Num(_dec(fr), {}, fr, f, f, t or ('int' if isinstance(x, int) else 'float'))


def atom(name, lo=-INF, hi=INF, t='float', v=None):
    """A fresh/generic quantity; its point is random but inside its bounds."""
    if v is None and name in OV:
        v = OV[name]
    if v is None:
        r = _rnd(name)
        if lo == -INF and hi == INF:
            v = (r * 20) - 10
        elif hi == INF:
            v = Decimal(lo) + r * 9 + Decimal('0.01')
        elif lo == -INF:
            v = Decimal(hi) - r * 9
        else:
            v = Decimal(lo) + r * (Decimal(hi) - Decimal(lo))
    B.setdefault(name, (lo, hi))
    if '(' not in name:
        POINT[name] = v
    return Num(v, {name: Fraction(1)}, Fraction(0), lo, hi, t)


WHOLE = set()


def whole(x):
    """Is x a sum of whole-number multiples of quantities known to be whole?"""
    return x.c.denominator == 1 and all(k.denominator == 1 and (a in WHOLE) for a, k in x.lin.items())


def _wrap(v, lo, hi, t='float'):
    """A non-linear result: its own atom named by its value number."""
    nm = '#' + vkey(v)
    b = B.get(nm, (-INF, INF))
    lo, hi = max(lo, b[0]), min(hi, b[1])
    B[nm] = (lo, hi)
    return Num(v, {nm: Fraction(1)}, Fraction(0), lo, hi, t)


def _iadd(a, b, c, d):
    return a + b, c + d


def _nan(x, dflt):
    return dflt if x != x else x


def lin_bounds(lin, c, bounds=None):
    bounds = B if bounds is None else bounds
    lo = hi = float(c)
    for a, k in lin.items():
        alo, ahi = bounds.get(a, (-INF, INF))
        k = float(k)
        if k > 0:
            lo += k * alo
            hi += k * ahi
        else:
            lo += k * ahi
            hi += k * alo
    return _nan(lo, -INF), _nan(hi, INF)


def add(a, b, sign=1):
    lin = dict(a.lin)
    for k, x in b.lin.items():
        y = lin.get(k, 0) + sign * x
        if y:
            lin[k] = y
        else:
            lin.pop(k, None)
    c = a.c + sign * b.c
    if sign == 1:
        lo, hi = a.lo + b.lo, a.hi + b.hi
    else:
        lo, hi = a.lo - b.hi, a.hi - b.lo
    lo, hi = _nan(lo, -INF), _nan(hi, INF)
    if lin:
        l2, h2 = lin_bounds(lin, c)
        lo, hi = max(lo, l2), min(hi, h2)
    v = a.v + b.v if sign == 1 else a.v - b.v
    if not lin:
        v = _dec(c)
        lo = hi = float(c)
    else:
        if abs(v) < Decimal('1e-40') and (OV or not a.const and not b.const):
            # identical terms written differently
            return Num(Decimal(0), {}, Fraction(0), 0.0, 0.0, _jt(a, b))
    return Num(v, lin, c, lo, hi, _jt(a, b))


def _jt(a, b):
    return 'int' if a.t == 'int' and b.t == 'int' else 'float'


def _imul(a, b, c, d):
    ps = []
    for x in (a, b):
        for y in (c, d):
            p = x * y
            if p != p:
                p = 0.0
            ps.append(p)
    return min(ps), max(ps)


def scale(a, k):
    if k == 0:
        return const(0, a.t)
    k = Fraction(k)
    lin = {n: x * k for n, x in a.lin.items()}
    lo, hi = _imul(a.lo, a.hi, float(k), float(k))
    return Num(a.v * _dec(k), lin, a.c * k, lo, hi, a.t)


# least bound of quantities that are positive but can be arbitrarily small
TINY = 1e-200


# products by their atoms: the factors
PROD = {}


def mul(a, b):
    t = _jt(a, b)
    if a.const:
        r = scale(b, a.c)
    elif b.const:
        r = scale(a, b.c)
    else:
        lo, hi = _imul(a.lo, a.hi, b.lo, b.hi)
        if a.key() == b.key():
            lo = max(lo, 0.0)
            m = min(abs(a.lo), abs(a.hi)) if (a.lo > 0 or a.hi < 0) else 0.0
            lo = max(lo, m * m)
        if lo <= 0 and a.lo > 0 and b.lo > 0:
            lo = TINY
        r = _simp(a.v * b.v, lo, hi, t)
        if len(r.lin) == 1 and r.c == 0:
            (nm, k), = r.lin.items()
            if k == 1 and nm not in PROD and len(PROD) < 5000:
                PROD[nm] = (a, b)
        return r
    r.t = t
    return r


def _simp(v, lo, hi, t='float'):
    # recognise small rationals reached through cancellation (x/x, sqrt(x)^2)
    n = v.to_integral_value(rounding=ROUND_HALF_EVEN)
    if abs(v - n) < Decimal('1e-40') and abs(n) < 1000:
        c = const(int(n))
        c.t = t
        return c
    return _wrap(v, lo, hi, t)


def inv_interval(lo, hi):
    if lo > 0 or hi < 0:
        return 1.0 / hi if hi not in (INF, -INF) else 0.0, (
            1.0 / lo if lo not in (INF, -INF) else 0.0)
    if lo == 0 and hi > 0:
        return (1.0 / hi if hi != INF else 0.0), INF
    if hi == 0 and lo < 0:
        return -INF, (1.0 / lo if lo != -INF else 0.0)
    return -INF, INF


# quotients by their atoms: what is divided by what
QUOT = {}


def cleared(d):
    """d times the one positive quantity its quotients are divided by, or None."""
    if not d.lin or len(d.lin) > 12:
        return None
    den, r = None, None
    for nm, k in d.lin.items():
        q = QUOT.get(nm)
        if q is None:
            return None
        if den is None:
            if not q[1].lo > 0:
                return None
            den, r = q[1], scale(q[1], d.c)
        elif q[1].key() != den.key():
            return None
        r = add(r, scale(q[0], k))
    return r


def div(a, b):
    if b.const:
        r = scale(a, 1 / b.c)
        r.t = 'float'
        return r
    if not a.const or a.c != 0:
        if a.key() == b.key():
            return const(1, 'float')
        il, ih = inv_interval(b.lo, b.hi)
        lo, hi = _imul(a.lo, a.hi, il, ih)
        if lo <= 0 and a.lo > 0 and b.lo > 0:
            lo = TINY
        v = b.v
        if v == 0:
            v = Decimal('1e-30')
        r = _simp(a.v / v, lo, hi)
        if len(r.lin) == 1 and r.c == 0:
            (nm, k), = r.lin.items()
            if nm not in QUOT and len(QUOT) < 5000:
                QUOT[nm] = (a if k == 1 else scale(a, 1 / k), b)
        return r
    return const(0, 'float')


def func(name, *args):
    """An uninterpreted function of abstract numbers (congruence only)."""
    nm = name + '(' + ','.join(a.key() if isinstance(a, Num) else repr(a) for a in args) + ')'
    return atom(nm)


def _fl(fn, x):
    import math
    try:
        return fn(x)
    except (OverflowError, ValueError):
        return None


def sqrt(a):
    import math
    lo = math.sqrt(a.lo) if a.lo > 0 else 0.0
    hi = math.sqrt(a.hi) if 0 <= a.hi < INF else (INF if a.hi == INF else 0.0)
    if a.v < 0:
        r = func('sqrt', a)
        r.lo, r.hi = lo, hi
        return r
    v = a.v.sqrt()
    return _simp(v, lo, hi)


def exp(a):
    import math
    lo = math.exp(a.lo) if a.lo > -700 and a.lo < 700 else (TINY if a.lo <= -700 else 1e300)
    hi = math.exp(a.hi) if a.hi < 700 else INF
    return _simp(a.v.exp(), lo, hi)


def log(a):
    import math
    lo = math.log(a.lo) if a.lo > 0 else -INF
    hi = math.log(a.hi) if 0 < a.hi < INF else INF
    if a.v <= 0:
        r = func('log', a)
        r.lo, r.hi = lo, hi
        return r
    return _simp(a.v.ln(), lo, hi)
