"""Symbolic scalars, path exploration and solver access.

A `Sym` is a real number term (z3 Real) plus a "not finite" flag; a `SymBool`
is a z3 Bool.  The code under verification runs unmodified on them: Python's
operator protocol builds the terms and `bool()` of a SymBool forks the path.
Paths are explored depth first by re-running the harness with a decision
prefix, a branch being taken only if the solver does not refute it.
"""
from __future__ import annotations

import math
import numbers
import os
import sys
import time
from fractions import Fraction

sys.dont_write_bytecode = True
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402

z3.set_param('model.compact', False)


class Unsupported(Exception):
    """The encoder cannot represent this operation (=> inconclusive)."""


class PathAbort(BaseException):
    """Current path is infeasible / cut."""


class Inconclusive(Exception):
    pass


# ----------------------------------------------------------------- constants
_FRAC = {}


def _read(x):
    """the decimal text of a double; the quotient it is the nearest double of, if it
    takes all digits to write it and numerator and denominator are small (1 / 6)."""
    r = Fraction(repr(x))
    if len(repr(x).split('e')[0].strip('-0.').replace('.', '')) >= 15:
        q = r.limit_denominator(1000)
        if q and abs(q.numerator) < 10**6 and q.numerator / q.denominator == x:
            return q
    return r


def frac(x) -> Fraction:
    """Decimal reading of a Python/numpy number."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool,)):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    import numpy as np

    if isinstance(x, np.bool_):
        return Fraction(int(x))
    if isinstance(x, np.integer):
        return Fraction(int(x))
    if isinstance(x, (float, np.floating)):
        if isinstance(x, np.float32):
            x = float(str(x)) if math.isfinite(float(x)) else float(x)
        x = float(x)
        return _FRAC[x] if x in _FRAC else _FRAC.setdefault(x, _read(x))
    raise Unsupported(f'not a number: {type(x)}')


def rv(x):
    f = frac(x)
    return z3.RealVal(f'{f.numerator}/{f.denominator}') if f.denominator != 1 else z3.RealVal(f.numerator)


def is_conc(x):
    return not isinstance(x, (Sym, SymBool, SymC))


# ----------------------------------------------------------------- booleans
def _zb(b):
    if isinstance(b, SymBool):
        return b.b
    return z3.BoolVal(bool(b))


def b_and(*bs):
    out = []
    for b in bs:
        if isinstance(b, SymBool):
            out.append(b.b)
        elif isinstance(b, z3.BoolRef):
            if z3.is_false(b):
                return False
            if not z3.is_true(b):
                out.append(b)
        elif not b:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return False if _complement(out, z3.is_and) else z3.And(*out)


def b_or(*bs):
    out = []
    for b in bs:
        if isinstance(b, SymBool):
            out.append(b.b)
        elif isinstance(b, z3.BoolRef):
            if z3.is_true(b):
                return True
            if not z3.is_false(b):
                out.append(b)
        elif b:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return True if _complement(out, z3.is_or) else z3.Or(*out)


def _complement(bs, flat):
    """True when a conjunct (disjunct) and its negation are both among bs"""
    pos, neg = set(), set()
    for b in bs:
        for c in b.children() if flat(b) and b.num_args() <= 4 else (b,):
            if z3.is_not(c):
                neg.add(c.arg(0).get_id())
            else:
                pos.add(c.get_id())
    return not pos.isdisjoint(neg)


def b_not(b):
    if isinstance(b, SymBool):
        b = b.b
    if isinstance(b, z3.BoolRef):
        return z3.Not(b)
    return not b


def mkb(b):
    """raw (bool | z3 Bool) -> bool | SymBool"""
    if isinstance(b, z3.BoolRef):
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False
        return SymBool(b)
    return bool(b)


def raw(b):
    if isinstance(b, SymBool):
        return b.b
    return bool(b)


class SymBool:
    __slots__ = ('b',)
    __array_priority__ = 1000

    def __init__(self, b):
        self.b = b

    shape = ()
    ndim = 0
    size = 1

    def all(self, *a, **k):
        return self

    any = item = copy = ravel = squeeze = tolist = all

    def astype(self, dt, **k):
        return cast(self, dt)

    def sum(self, *a, **k):
        return self.num()

    mean = sum

    def __deepcopy__(self, memo):
        return self

    def __bool__(self):
        return CTX.decide(self.b)

    def __and__(self, o):
        if isinstance(o, (SymBool, bool)) or _npbool(o):
            return mkb(b_and(self.b, raw(o)))
        return _arrop(self, o, lambda a, b: a & b)

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SymBool, bool)) or _npbool(o):
            return mkb(b_or(self.b, raw(o)))
        return _arrop(self, o, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, o):
        return mkb(z3.Xor(self.b, _zb(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkb(z3.Not(self.b))

    def logical_not(self):
        return ~self

    def num(self):
        return Sym(z3.If(self.b, z3.RealVal(1), z3.RealVal(0)), isint=True)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkb(self.b == o.b)
        if isinstance(o, bool) or _npbool(o):
            return self if o else ~self
        return self.num() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __lt__(self, o):
        return self.num() < o

    def __le__(self, o):
        return self.num() <= o

    def __gt__(self, o):
        return self.num() > o

    def __ge__(self, o):
        return self.num() >= o

    def __hash__(self):
        return id(self)

    def __add__(self, o):
        return self.num() + _asnum(o)

    __radd__ = __add__

    def __sub__(self, o):
        return self.num() - _asnum(o)

    def __rsub__(self, o):
        return _asnum(o) - self.num()

    def __mul__(self, o):
        return self.num() * _asnum(o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.num() / _asnum(o)

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return f'<B {str(self.b)[:60]}>'


def _npbool(o):
    import numpy as np

    return isinstance(o, np.bool_)


def _asnum(o):
    return o.num() if isinstance(o, SymBool) else o


def _scalar_item(self, k):
    """x[()] of a scalar, as for numpy scalars"""
    if k == ():
        return self
    if all(e is None or e is Ellipsis for e in (k if isinstance(k, tuple) else (k,))):
        return wrap0(self)[k]
    raise IndexError('invalid index to scalar variable.')


def _arrop(a, o, f):
    """scalar Sym (left) with an array-like right operand."""
    import numpy as np

    if isinstance(o, np.ndarray):
        return f(wrap0(a), o)
    if hasattr(o, '__dask_graph__') and hasattr(o, 'chunks'):
        import dask.array as da

        return f(da.from_array(wrap0(a), chunks=()), o)
    return NotImplemented


def wrap0(a):
    from .arr import SymArray
    import numpy as np

    r = np.empty((), dtype=object)
    r[()] = a
    return r.view(SymArray)


# ----------------------------------------------------------------- reals
def term(x):
    """number-like -> (z3 Real, badflag raw)"""
    if isinstance(x, Sym):
        return x.v, x.bad
    if isinstance(x, SymBool):
        return x.num().v, False
    if isinstance(x, float) and not math.isfinite(x):
        return z3.RealVal(0), True
    import numpy as np

    if isinstance(x, np.floating) and not np.isfinite(x):
        return z3.RealVal(0), True
    return rv(x), False


def _isnum(o):
    import numpy as np

    return isinstance(o, (Sym, SymBool, int, float, Fraction, np.number, np.bool_))


def _isinf(o):
    import numpy as np

    return isinstance(o, (float, np.floating)) and math.isinf(o)


class Sym:
    """Real term with a non-finite flag."""

    __slots__ = ('v', 'bad', 'isint')
    __array_priority__ = 1000

    def __init__(self, v, bad=False, isint=False):
        self.v = v
        self.bad = bad
        self.isint = isint

    # numpy-scalar-like surface
    shape = ()
    ndim = 0
    size = 1

    @property
    def T(self):
        return self

    def item(self, *a, **k):
        return self

    copy = sum = min = max = mean = squeeze = item
    nanmax = nanmin = item

    def ravel(self, *a, **k):
        return wrap0(self).reshape(-1)

    flatten = ravel

    def reshape(self, *a, **k):
        return wrap0(self).reshape(*a)

    def tolist(self):
        return self

    def all(self, *a, **k):
        return self != 0

    any = all

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def dtype(self):
        # results of numpy reductions and of indexing are numpy scalars
        import numpy as np

        return np.dtype('int64' if self.isint else 'float64')

    def astype(self, dt, **k):
        return cast(self, dt)

    def clip(self, lo=None, hi=None, *, min=None, max=None, **k):
        lo = min if lo is None else lo
        hi = max if hi is None else hi
        r = self
        if lo is not None:
            r = fmax(r, lo)
        if hi is not None:
            r = fmin(r, hi)
        return r

    def _bin(self, o, f, g):
        if isinstance(o, SymC) or isinstance(o, complex):
            return NotImplemented if isinstance(o, SymC) else g(SymC(self, 0.0), o)
        if not _isnum(o):
            return _arrop(self, o, g)
        if _isinf(o):
            raise Unsupported('arithmetic with infinity')
        ov, ob = term(o)
        return f(ov, ob, o)

    def __add__(self, o):
        if _isnum(o) and is_conc(o) and not isinstance(o, complex) and o == 0:
            return self
        return self._bin(
            o, lambda ov, ob, oo: Sym(self.v + ov, b_or(self.bad, ob), self.isint and _int(oo)), lambda a, b: a + b
        )

    def __radd__(self, o):
        if _isnum(o) and is_conc(o) and o == 0:
            return self
        return self._bin(
            o, lambda ov, ob, oo: Sym(ov + self.v, b_or(self.bad, ob), self.isint and _int(oo)), lambda a, b: b + a
        )

    def __sub__(self, o):
        if _isnum(o) and is_conc(o) and o == 0:
            return self
        return self._bin(
            o, lambda ov, ob, oo: Sym(self.v - ov, b_or(self.bad, ob), self.isint and _int(oo)), lambda a, b: a - b
        )

    def __rsub__(self, o):
        return self._bin(
            o, lambda ov, ob, oo: Sym(ov - self.v, b_or(self.bad, ob), self.isint and _int(oo)), lambda a, b: b - a
        )

    def __mul__(self, o):
        if _isnum(o) and is_conc(o) and o == 1:
            return self
        return self._bin(
            o, lambda ov, ob, oo: Sym(self.v * ov, b_or(self.bad, ob), self.isint and _int(oo)), lambda a, b: a * b
        )

    def __rmul__(self, o):
        if _isnum(o) and is_conc(o) and o == 1:
            return self
        return self._bin(
            o, lambda ov, ob, oo: Sym(ov * self.v, b_or(self.bad, ob), self.isint and _int(oo)), lambda a, b: b * a
        )

    def __truediv__(self, o):
        if _isnum(o) and is_conc(o):
            if o == 1:
                return Sym(self.v, self.bad)
            if o != o or o == 0:
                return Sym(z3.RealVal(0), True)
            if _isinf(o):
                return Sym(z3.RealVal(0), self.bad)
            return Sym(self.v / rv(o), self.bad)
        return self._bin(o, lambda ov, ob, oo: divide(self.v, self.bad, ov, ob), lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._bin(o, lambda ov, ob, oo: divide(ov, ob, self.v, self.bad), lambda a, b: b / a)

    def __floordiv__(self, o):
        q = self / o
        if not isinstance(q, Sym):
            return q
        return q.floor()

    def __rfloordiv__(self, o):
        return (o / self).floor()

    def __mod__(self, o):
        return self - (self // o) * o

    def __rmod__(self, o):
        return o - (o // self) * self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __neg__(self):
        return Sym(-self.v, self.bad, self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        return Sym(z3.If(self.v >= 0, self.v, -self.v), self.bad, self.isint)

    def absolute(self):
        return abs(self)

    def fabs(self):
        return abs(self)

    def square(self):
        return self * self

    def __pow__(self, n, mod=None):
        if isinstance(n, Sym):
            return (n * self.log()).exp()
        if not _isnum(n):
            return _arrop(self, n, lambda a, b: a**b)
        fn = frac(n)
        if fn.denominator == 1:
            k = int(fn)
            if k == 0:
                return Sym(z3.RealVal(1), False)
            if k < 0:
                return 1 / (self ** (-k))
            if k == 1:
                return self
            if k <= 6:
                r = self.v
                for _ in range(k - 1):
                    r = r * self.v
                return Sym(r, self.bad, self.isint)
            return Sym(self.v ** z3.IntVal(k) if False else _zpow(self.v, k), self.bad, self.isint)
        if fn == Fraction(1, 2):
            return self.sqrt()
        if fn.denominator == 2:
            return self.sqrt() ** fn.numerator
        return (float(n) * self.log()).exp()

    def __rpow__(self, b):
        if not _isnum(b):
            return _arrop(self, b, lambda a, c: c**a)
        return (self * math.log(b)).exp()

    # comparisons -------------------------------------------------------
    def _cmp(self, o, f, neg=False, g=None):
        if o is None or isinstance(o, str):
            return neg
        if not _isnum(o):
            return _arrop(self, o, g)
        if _isinf(o):
            big = z3.RealVal(1) if o > 0 else z3.RealVal(-1)
            r = z3.simplify(f(z3.RealVal(0), big))
            return mkb(b_and(b_not(self.bad), r)) if not neg else mkb(b_or(self.bad, r))
        ov, ob = term(o)
        c = f(self.v, ov)
        if neg:
            return mkb(b_or(self.bad, ob, c))
        return mkb(b_and(b_not(self.bad), b_not(ob), c))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, g=lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, g=lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, g=lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, g=lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, SymC):
            return o == self
        return self._cmp(o, lambda a, b: a == b, g=lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, neg=True, g=lambda a, b: a != b)

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return bool(self != 0)

    # conversions -------------------------------------------------------
    def floor(self):
        return Sym(z3.ToReal(z3.ToInt(self.v)) if not self.isint else self.v, self.bad, True)

    def ceil(self):
        return Sym(-z3.ToReal(z3.ToInt(-self.v)) if not self.isint else self.v, self.bad, True)

    def trunc(self):
        if self.isint:
            return self
        return Sym(
            z3.If(self.v >= 0, z3.ToReal(z3.ToInt(self.v)), -z3.ToReal(z3.ToInt(-self.v))), self.bad, True
        )

    def rint(self):
        # round half to even
        f = z3.ToInt(self.v)
        d = self.v - z3.ToReal(f)
        h = z3.RealVal('1/2')
        r = z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1)))
        return Sym(z3.ToReal(r), self.bad, True)

    def __floor__(self):
        return self.floor()

    def __ceil__(self):
        return self.ceil()

    def __trunc__(self):
        return self.trunc()

    def __round__(self, n=None):
        if n is None or n == 0:
            return self.rint()
        return (self * 10**n).rint() / 10**n

    def round(self, n=0, **k):
        return self.__round__(n)

    def __index__(self):
        return CTX.concretise(self)

    def __int__(self):
        return CTX.concretise(self.trunc())

    def __float__(self):
        raise Unsupported('float() of a symbolic value')

    def __complex__(self):
        raise Unsupported('complex() of a symbolic value')

    # functions ---------------------------------------------------------
    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def exp(self):
        return app('exp', self)

    def log(self):
        return app('log', self)

    def log10(self):
        return app('log', self) / math.log(10)

    def log2(self):
        return app('log', self) / math.log(2)

    def sin(self):
        return app('sin', self)

    def cos(self):
        return app('cos', self)

    def tan(self):
        s, c = app('sin', self), app('cos', self)
        return s / c

    def arccos(self):
        return app('arccos', self)

    def arcsin(self):
        return math.pi / 2 - app('arccos', self)

    def arctan(self):
        return app('arctan', self)

    def sqrt(self):
        return app('sqrt', self)

    def deg2rad(self):
        return self * (math.pi / 180)

    radians = deg2rad

    def rad2deg(self):
        return self * (180 / math.pi)

    degrees = rad2deg

    def isnan(self):
        return mkb(self.bad)

    def isfinite(self):
        return mkb(b_not(self.bad))

    def logical_not(self):
        return self == 0

    def sign(self):
        return Sym(z3.If(self.v > 0, z3.RealVal(1), z3.If(self.v < 0, z3.RealVal(-1), z3.RealVal(0))), self.bad, True)

    def __repr__(self):
        s = str(self.v).replace('\n', ' ')
        return f'<S {s[:60]}>'

    __str__ = __repr__

    def __format__(self, spec):
        return '<sym>'


numbers.Number.register(Sym)


def _int(o):
    import numpy as np

    if isinstance(o, Sym):
        return o.isint
    return isinstance(o, (int, np.integer))


def _zpow(v, k):
    # square and multiply keeps the DAG small
    if k == 1:
        return v
    h = _zpow(v, k // 2)
    r = h * h
    return r * v if k % 2 else r


def divide(av, ab, bv, bb):
    if z3.is_rational_value(bv):
        if bv.numerator_as_long() == 0:
            return Sym(z3.RealVal(0), True)
        return Sym(av / bv, b_or(ab, bb))
    return Sym(av / bv, b_or(ab, bb, bv == 0))


def fmax(a, b):
    if is_conc(a) and is_conc(b):
        import numpy as np

        return float(np.maximum(a, b))
    for x, y in ((a, b), (b, a)):
        if is_conc(x) and _isinf(x):
            return x if x > 0 else y
    av, ab = term(a)
    bv, bb = term(b)
    d = _order(av, bv)
    v = av if d > 0 else bv if d < 0 else z3.If(av >= bv, av, bv)
    return Sym(v, b_or(ab, bb), _int(a) and _int(b))


def _order(av, bv):
    """1: av >= bv, -1: av <= bv, from declared input ranges alone; 0: unknown"""
    if not (z3.is_rational_value(av) or z3.is_rational_value(bv)):
        return 0
    for x in (av, bv):
        if not z3.is_rational_value(x) and not (x.num_args() == 0 and CTX.bounds.get(x.decl().name())):
            return 0
    from . import norm

    i, j = norm.iv(av), norm.iv(bv)
    if i is None or j is None:
        return 0
    return 1 if i[0] > j[1] else -1 if i[1] < j[0] else 0


def fmin(a, b):
    if is_conc(a) and is_conc(b):
        import numpy as np

        return float(np.minimum(a, b))
    for x, y in ((a, b), (b, a)):
        if is_conc(x) and _isinf(x):
            return x if x < 0 else y
    av, ab = term(a)
    bv, bb = term(b)
    d = _order(av, bv)
    v = av if d < 0 else bv if d > 0 else z3.If(av <= bv, av, bv)
    return Sym(v, b_or(ab, bb), _int(a) and _int(b))


def ite(c, a, b):
    """if-then-else on elements; c is bool or SymBool."""
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkb(z3.If(c.b, _zb(a), _zb(b)))
    if isinstance(a, (SymC, complex)) or isinstance(b, (SymC, complex)):
        a, b = SymC.of(a), SymC.of(b)
        return SymC(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if _isnum(a) and _isnum(b):
        if (is_conc(a) and _isinf(a)) or (is_conc(b) and _isinf(b)):
            return a if bool(c) else b
        if is_conc(a) and is_conc(b) and a == b:
            return a
        av, ab = term(a)
        bv, bb = term(b)
        # keep the value of the finite side when the other one is a plain nan
        if ab is True:
            v = bv
        elif bb is True:
            v = av
        else:
            v = z3.If(c.b, av, bv)
        if ab is False and bb is False:
            bad = False
        elif ab is True and bb is True:
            bad = True
        else:
            bad = b_or(b_and(c.b, ab), b_and(z3.Not(c.b), bb))
        return Sym(v, bad, _int(a) and _int(b))
    return a if bool(c) else b


def cast(x, dt):
    import numpy as np

    dt = np.dtype(dt)
    if dt.kind in 'iu':
        if isinstance(x, Sym):
            return x.trunc()
        if isinstance(x, SymBool):
            return x.num()
        return int(x)
    if dt.kind == 'b':
        if isinstance(x, Sym):
            return x != 0
        if isinstance(x, SymBool):
            return x
        return bool(x)
    if dt.kind == 'f':
        if isinstance(x, SymBool):
            return x.num()
        if isinstance(x, Sym):
            return Sym(x.v, x.bad, False) if x.isint else x
        if isinstance(x, SymC):
            return x.re
        return float(x)
    if dt.kind == 'c':
        return SymC.of(x)
    if dt.kind == 'O':
        return x
    raise Unsupported(f'astype {dt}')


# ----------------------------------------------------------------- complex
class SymC:
    """Complex pair (re, im); parts are Sym or float."""

    __slots__ = ('re', 'im')
    __array_priority__ = 1001

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @staticmethod
    def of(x):
        if isinstance(x, SymC):
            return x
        if isinstance(x, (Sym, SymBool)):
            return SymC(_asnum(x), 0.0)
        x = complex(x)
        return SymC(x.real, x.imag)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return SymC(self.re, -self.im)

    conj = conjugate

    def _ok(self, o):
        import numpy as np

        return isinstance(o, (SymC, Sym, SymBool, int, float, complex, np.number))

    def __add__(self, o):
        if not self._ok(o):
            return _arrop(self, o, lambda a, b: a + b)
        o = SymC.of(o)
        return SymC(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __sub__(self, o):
        if not self._ok(o):
            return _arrop(self, o, lambda a, b: a - b)
        o = SymC.of(o)
        return SymC(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        if not self._ok(o):
            return _arrop(self, o, lambda a, b: b - a)
        o = SymC.of(o)
        return SymC(o.re - self.re, o.im - self.im)

    def __mul__(self, o):
        if not self._ok(o):
            return _arrop(self, o, lambda a, b: a * b)
        if isinstance(o, Sym) or (not isinstance(o, (SymC, complex)) and not (hasattr(o, 'dtype') and o.dtype.kind == 'c')):
            return SymC(self.re * o, self.im * o)
        o = SymC.of(o)
        return SymC(_m(self.re, o.re) - _m(self.im, o.im), _m(self.re, o.im) + _m(self.im, o.re))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not self._ok(o):
            return _arrop(self, o, lambda a, b: a / b)
        if isinstance(o, (Sym, int, float)):
            return SymC(self.re / o, self.im / o)
        o = SymC.of(o)
        d = o.re * o.re + o.im * o.im
        n = self * o.conjugate()
        return SymC(n.re / d, n.im / d)

    def __rtruediv__(self, o):
        return SymC.of(o) / self

    def __neg__(self):
        return SymC(-self.re, -self.im)

    def __abs__(self):
        q = self.re * self.re + self.im * self.im
        return q.sqrt() if isinstance(q, Sym) else math.sqrt(q)

    def __pow__(self, n):
        n = int(n)
        r = SymC(1.0, 0.0)
        for _ in range(n):
            r = r * self
        return r

    def __eq__(self, o):
        o = SymC.of(o)
        a, b = self.re == o.re, self.im == o.im
        return mkb(b_and(raw(a), raw(b)))

    def __ne__(self, o):
        return mkb(b_not(raw(self == o)))

    def __hash__(self):
        return id(self)

    def isnan(self):
        bs = [x.bad if isinstance(x, Sym) else (x != x) for x in (self.re, self.im)]
        return mkb(b_or(*bs))

    def astype(self, dt, **k):
        return cast(self, dt)

    def __complex__(self):
        raise Unsupported('complex() of a symbolic value')

    def __repr__(self):
        return f'<C {self.re},{self.im}>'


def _m(a, b):
    if is_conc(a) and is_conc(b):
        return a * b
    if is_conc(a) and a == 0:
        return 0.0
    if is_conc(b) and b == 0:
        return 0.0
    return a * b


# ------------------------------------------------- transcendental applications
class App:
    __slots__ = ('f', 'arg', 'res', 'ct')

    def __init__(self, f, arg, res):
        self.f, self.arg, self.res = f, arg, res
        # an ITE-lifted application has no axioms of its own


def app(f, x):
    """Apply transcendental function f (Ackermannised: one fresh constant per
    distinct simplified argument; axioms are added per query)."""
    if isinstance(x, SymBool):
        x = x.num()
    a = z3.simplify(x.v, som=True)
    # constants: evaluate natively
    if z3.is_rational_value(a):
        val = float(a.as_fraction())
        try:
            r = FN[f](val)
        except ValueError:
            return Sym(z3.RealVal(0), True)
        return Sym(rv(r), x.bad)
    # push through if-then-else so arguments are plain terms
    key = (f, a.get_id())
    e = CTX.apps.get(key)
    if e is None and f == 'sqrt':
        from . import norm

        if CTX.concolic is None and norm.has_ite(a):
            a = z3.simplify(norm.settle(a, CTX.holds), som=True)
        same = norm.root_of(a, [e for e in CTX.apps.values() if e.f == 'sqrt'][-12:])
        if same is not None:
            e, k = same
            return Sym(e.res if k is None else e.res * k, b_or(x.bad, a < 0))
    if e is None:
        res = z3.Real(f'{f}!{len(CTX.apps)}')
        e = App(f, a, res)
        CTX.apps[key] = e
        CTX.appres[res.get_id()] = e
    bad = x.bad
    if f == 'log':
        bad = b_or(bad, a <= 0)
    elif f == 'sqrt':
        bad = b_or(bad, a < 0)
    elif f == 'arccos':
        bad = b_or(bad, a < -1, a > 1)
    return Sym(e.res, bad)


FN = {
    'exp': math.exp,
    'log': math.log,
    'sin': math.sin,
    'cos': math.cos,
    'arccos': math.acos,
    'arctan': math.atan,
    'sqrt': math.sqrt,
}


def fr_lo(x, rel=1e-12):
    return Fraction(repr(x)) - Fraction(abs(x)) * Fraction(rel) - Fraction(1, 10**14)


def fr_hi(x, rel=1e-12):
    return Fraction(repr(x)) + Fraction(abs(x)) * Fraction(rel) + Fraction(1, 10**14)


PI_LO, PI_HI = z3.RealVal('3.14159265358979'), z3.RealVal('3.1415926535898')


def axioms1(e):
    x, r = e.arg, e.res
    if e.f == 'exp':
        return [r > 0, r >= 1 + x, z3.Implies(x < 1, r * (1 - x) <= 1)]
    if e.f == 'log':
        return [
            z3.Implies(x > 0, z3.And(r <= x - 1, r * x >= x - 1)),
        ]
    if e.f == 'sqrt':
        return [z3.Implies(x >= 0, z3.And(r >= 0, r * r == x))]
    if e.f in ('sin', 'cos'):
        return [r >= -1, r <= 1]
    if e.f == 'arccos':
        return [z3.Implies(z3.And(x >= -1, x <= 1), z3.And(r >= 0, r <= PI_HI))]
    if e.f == 'arctan':
        return [r >= -PI_HI / 2, r <= PI_HI / 2]
    return []


def axioms2(e, d):
    """pairwise axioms (same function)."""
    out = []
    x, r, y, s = e.arg, e.res, d.arg, d.res
    if e.f == 'exp':
        out += [(x < y) == (r < s), (x == y) == (r == s), r - s <= r * (x - y), s - r <= s * (y - x)]
    elif e.f == 'log':
        g = z3.And(x > 0, y > 0)
        out += [
            z3.Implies(g, z3.And((x < y) == (r < s), (x == y) == (r == s))),
            z3.Implies(g, z3.And((r - s) * y <= x - y, (s - r) * x <= y - x)),
        ]
    elif e.f == 'sqrt':
        pass  # defined exactly by r*r == x
    elif e.f == 'arccos':
        g = z3.And(x >= -1, x <= 1, y >= -1, y <= 1)
        out += [
            z3.Implies(g, z3.And((x < y) == (r > s), (x == y) == (r == s))),
        ]
        out += [z3.Implies(z3.And(g, x == -y), z3.And(r + s >= PI_LO, r + s <= PI_HI))]
    elif e.f in ('sin', 'cos'):
        out += [z3.Implies(x == y, r == s)]
        d_ = x - y
        out += [z3.Implies(d_ >= 0, z3.And(r - s <= d_, s - r <= d_)), z3.Implies(d_ <= 0, z3.And(r - s <= -d_, s - r <= -d_))]
        if e.f == 'sin':
            out += [z3.Implies(x == -y, r == -s)]
        else:
            out += [z3.Implies(x == -y, r == s)]
    elif e.f == 'arctan':
        out += [(x < y) == (r < s), (x == y) == (r == s), z3.Implies(x == -y, r == -s)]
    return out


def axioms_mixed(es):
    """sin/cos of the same argument."""
    out = []
    by = {}
    for e in es:
        if e.f in ('sin', 'cos'):
            by.setdefault(e.arg.get_id(), {})[e.f] = e
    for d in by.values():
        if len(d) == 2:
            out.append(d['sin'].res * d['sin'].res + d['cos'].res * d['cos'].res == 1)
    return out


def point_lemma(e, a):
    """True facts about e.f around the rational point a (refinement)."""
    x, r = e.arg, e.res
    fa = float(a)
    A = rv(a)
    try:
        v = FN[e.f](fa)
    except (ValueError, OverflowError):
        return []
    lo, hi = rv(fr_lo(v)), rv(fr_hi(v))
    if e.f == 'exp':
        lo = rv(Fraction(repr(v)) * (1 - Fraction(1, 10**11)))
        hi = rv(Fraction(repr(v)) * (1 + Fraction(1, 10**11)))
        return [
            z3.Implies(x <= A, r <= hi),
            z3.Implies(x >= A, r >= lo),
            r >= lo * (1 + x - A) - (hi - lo) * 10,
            z3.Implies(z3.And(x - A < 1, x - A > -1), r * (1 - (x - A)) <= hi),
        ]
    if e.f == 'log':
        return [
            z3.Implies(z3.And(x > 0, x <= A), r <= hi),
            z3.Implies(x >= A, r >= lo),
            z3.Implies(x > 0, r <= hi + (x - A) / A),
        ]
    if e.f == 'arccos':
        return [
            z3.Implies(z3.And(x >= -1, x <= A), r >= lo),
            z3.Implies(z3.And(x <= 1, x >= A), r <= hi),
        ]
    if e.f == 'arctan':
        return [z3.Implies(x <= A, r <= hi), z3.Implies(x >= A, r >= lo)]
    if e.f in ('sin', 'cos'):
        d_ = x - A
        dv = math.cos(fa) if e.f == 'sin' else -math.sin(fa)
        dlo, dhi = rv(fr_lo(dv)), rv(fr_hi(dv))
        # first order Taylor with remainder |d|^2/2, and 1-Lipschitz
        lin_hi = z3.If(d_ >= 0, dhi * d_, dlo * d_)
        lin_lo = z3.If(d_ >= 0, dlo * d_, dhi * d_)
        return [r <= hi + lin_hi + d_ * d_ / 2, r >= lo + lin_lo - d_ * d_ / 2]
    return []


# ----------------------------------------------------------------- evaluation
def evaluate(t, env, memo=None):
    """Numerically evaluate z3 term t; env maps constant name -> float."""
    memo = {} if memo is None else memo
    return _ev(t, env, memo)


def _ev(t, env, memo):
    stack = [t]
    while stack:
        n = stack[-1]
        i = n.get_id()
        if i in memo:
            stack.pop()
            continue
        k = n.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            e = CTX.appres.get(i)
            if e is not None:
                j = e.arg.get_id()
                if j not in memo:
                    stack.append(e.arg)
                    continue
                try:
                    memo[i] = FN[e.f](memo[j])
                except (ValueError, OverflowError):
                    memo[i] = float('nan')
            else:
                memo[i] = env[n.decl().name()]
            stack.pop()
            continue
        if z3.is_rational_value(n):
            memo[i] = float(n.as_fraction())
            stack.pop()
            continue
        if z3.is_int_value(n):
            memo[i] = n.as_long()
            stack.pop()
            continue
        ch = n.children()
        todo = [c for c in ch if c.get_id() not in memo]
        if todo:
            stack.extend(todo)
            continue
        a = [memo[c.get_id()] for c in ch]
        memo[i] = _evop(k, a, n)
        stack.pop()
    return memo[t.get_id()]


def _evop(k, a, n):
    if k == z3.Z3_OP_ADD:
        return math.fsum(a) if all(isinstance(x, float) and math.isfinite(x) for x in a) else sum(a)
    if k == z3.Z3_OP_SUB:
        r = a[0]
        for x in a[1:]:
            r = r - x
        return r
    if k == z3.Z3_OP_UMINUS:
        return -a[0]
    if k == z3.Z3_OP_MUL:
        r = a[0]
        for x in a[1:]:
            r = r * x
        return r
    if k == z3.Z3_OP_DIV:
        return a[0] / a[1] if a[1] != 0 else float('nan')
    if k == z3.Z3_OP_IDIV:
        return a[0] // a[1]
    if k in (z3.Z3_OP_MOD,):
        return a[0] % a[1]
    if k == z3.Z3_OP_POWER:
        return a[0] ** a[1]
    if k == z3.Z3_OP_ITE:
        return a[1] if a[0] else a[2]
    if k == z3.Z3_OP_TO_REAL:
        return float(a[0])
    if k == z3.Z3_OP_TO_INT:
        return math.floor(a[0])
    if k == z3.Z3_OP_LE:
        return a[0] <= a[1]
    if k == z3.Z3_OP_LT:
        return a[0] < a[1]
    if k == z3.Z3_OP_GE:
        return a[0] >= a[1]
    if k == z3.Z3_OP_GT:
        return a[0] > a[1]
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
        return a[0] == a[1]
    if k == z3.Z3_OP_DISTINCT:
        return len(set(a)) == len(a)
    if k == z3.Z3_OP_AND:
        return all(a)
    if k == z3.Z3_OP_OR:
        return any(a)
    if k == z3.Z3_OP_NOT:
        return not a[0]
    if k == z3.Z3_OP_XOR:
        return a[0] != a[1]
    if k == z3.Z3_OP_IMPLIES:
        return (not a[0]) or a[1]
    if k == z3.Z3_OP_TRUE:
        return True
    if k == z3.Z3_OP_FALSE:
        return False
    raise Unsupported(f'eval {n.decl()}')


def consts_of(terms):
    """uninterpreted constants reachable, following applications' arguments."""
    seen, out, todo = set(), {}, list(terms)
    while todo:
        n = todo.pop()
        i = n.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(n) and n.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[i] = n
            e = CTX.appres.get(i)
            if e is not None:
                todo.append(e.arg)
        else:
            todo.extend(n.children())
    return out


# ----------------------------------------------------------------- context
class Stats:
    def __init__(self):
        self.queries = 0
        self.feas = 0
        self.solver_s = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.paths = 0
        self.decisions = 0
        self.slowest = 0.0
        self.by_engine = {}


class Ctx:
    def __init__(self):
        self.reset()

    def reset(self):
        self.apps = {}
        self.appres = {}
        self.vars = {}  # name -> z3 const
        self.base = []  # assumptions
        self.path = []
        self.prefix = []
        self.pos = 0
        self.pending = []
        self.svd = {}
        self.svdkeep = []
        self.concolic = None  # name->float in validation mode
        self.stats = Stats()
        self.max_decisions = 4000
        self.feas_timeout = 3000
        self._memo = {}
        self.solver = None
        self.solver_n = 0

    # -- solving ----------------------------------------------------------
    def axioms(self, terms):
        cs = consts_of(terms)
        es = [self.appres[i] for i in cs if i in self.appres]
        out = []
        for e in es:
            out += axioms1(e)
        for i in range(len(es)):
            for j in range(i):
                if es[i].f == es[j].f:
                    out += axioms2(es[i], es[j])
        out += axioms_mixed(es)
        return out, es

    def feasible(self, extra):
        """quick check path & extra; unknown counts as feasible."""
        self.stats.feas += 1
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', self.feas_timeout)
        fs = self.base + self.path + [extra]
        s.add(*fs)
        if self.apps:
            ax, _ = self.axioms(fs)
            s.add(*ax)
        r = s.check()
        self.stats.solver_s += time.time() - t0
        self._last = s if r == z3.sat else None
        return r != z3.unsat

    def holds(self, c):
        """the path implies c (quick check; False when undecided)"""
        s = z3.Solver()
        s.set('timeout', 300)
        s.add(*self.base, *self.path, z3.Not(c))
        return s.check() == z3.unsat

    def decide(self, b):
        b = z3.simplify(b)
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False
        if self.concolic is not None:
            v = bool(evaluate(b, self.concolic))
            self.path.append(b if v else z3.Not(b))
            return v
        bid = b.get_id()
        # implied by an earlier identical decision on this path?
        m = self._memo.get(bid)
        if m is not None:
            return m
        self.stats.decisions += 1
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            if v[0] != 'b':
                raise Unsupported('non-deterministic re-execution')
            v = v[1]
        else:
            if len(self.prefix) > self.max_decisions:
                raise Inconclusive('too many decisions on one path')
            t = self.feasible(b)
            f = self.feasible(z3.Not(b))
            if t and f:
                v = True
                self.pending.append(self.prefix[: self.pos] + [('b', False)])
            elif t:
                v = True
            elif f:
                v = False
            else:
                raise PathAbort()
            self.prefix = self.prefix[: self.pos] + [('b', v)]
            self.pos += 1
        self._memo[bid] = v
        self._keep = getattr(self, '_keep', [])
        self._keep.append(b)
        self.path.append(b if v else z3.Not(b))
        return v

    def concretise(self, s):
        """return a Python int for an integer-valued Sym, forking on values."""
        if s.bad is not False:
            if self.decide(s.bad if isinstance(s.bad, z3.BoolRef) else z3.BoolVal(bool(s.bad))):
                raise ValueError('cannot convert float NaN to integer')
        t = z3.simplify(s.v)
        if z3.is_rational_value(t):
            fr = t.as_fraction()
            if fr.denominator != 1:
                raise TypeError('non-integral index')
            return int(fr)
        if not s.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        if self.concolic is not None:
            v = int(round(evaluate(t, self.concolic)))
            self.path.append(t == v)
            return v
        m = self._memo.get(('i', t.get_id()))
        if m is not None:
            return m
        while True:
            self.stats.decisions += 1
            if self.pos < len(self.prefix):
                kind, val, taken = self.prefix[self.pos]
                self.pos += 1
                if kind != 'i':
                    raise Unsupported('non-deterministic re-execution')
            else:
                if not self.feasible(z3.BoolVal(True)) or self._last is None:
                    raise PathAbort() if self._last is None else Inconclusive('concretise')
                mv = self._last.model().eval(t, model_completion=True)
                if not z3.is_rational_value(mv):
                    raise Inconclusive('concretise: irrational model')
                fr = mv.as_fraction()
                if fr.denominator != 1:
                    raise Inconclusive('concretise: non-integer model')
                val = int(fr)
                if self.feasible(t != val):
                    self.pending.append(self.prefix[: self.pos] + [('i', val, False)])
                taken = True
                self.prefix = self.prefix[: self.pos] + [('i', val, True)]
                self.pos += 1
            if taken:
                self.path.append(t == val)
                self._memo[('i', t.get_id())] = val
                self._keep = getattr(self, '_keep', [])
                self._keep.append(t)
                return val
            self.path.append(t != val)


Sym.__getitem__ = SymBool.__getitem__ = SymC.__getitem__ = _scalar_item

CTX = Ctx()
