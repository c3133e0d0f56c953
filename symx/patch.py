"""Environment adjustments for symbolic runs.

Only the *names through which the code under verification reaches C kernels*
are redirected: `np`/`math`/`float`/`type`/`isinstance` in the geocat modules'
globals, the array constructors of numpy, and metpy's `np`.  The functions under
verification are the objects imported from /repo, unmodified.
"""
from __future__ import annotations

import builtins
import contextlib
import math
import types
import warnings

import numpy as np

from . import core
from .arr import FUNCS, SymArray, TabArray, _obj, arr, has_sym, issym, wrap
from .core import Sym, SymBool, SymC, Unsupported

_orig = {}


class _FloatMeta(builtins.type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (_RF, Sym))

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, _RF)

    def __eq__(cls, o):
        return o is cls or o is _RF

    def __hash__(cls):
        return hash(_RF)

    def __repr__(cls):
        return repr(_RF)


_RF = float
_RI = int


class FloatProxy(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if builtins.isinstance(x, SymArray) and x.size == 1:
            x = x.item()
        if builtins.isinstance(x, Sym):
            return core.cast(x, float)
        if builtins.isinstance(x, SymBool):
            return x.num()
        return _RF(x)


for _n in ('fromhex', 'is_integer'):
    setattr(FloatProxy, _n, getattr(_RF, _n))
FloatProxy.__name__ = 'float'


def type_proxy(*a):
    if len(a) != 1:
        return builtins.type(*a)
    x = a[0]
    if builtins.isinstance(x, (SymArray, TabArray)):
        return np.ndarray
    if builtins.isinstance(x, Sym):
        return _RI if x.isint else FloatProxy
    if builtins.isinstance(x, SymBool):
        return bool
    t = builtins.type(x)
    return FloatProxy if t is _RF else t


def isinstance_proxy(x, t):
    if issym(x):
        ts = []

        def flat(q):
            if builtins.isinstance(q, tuple):
                for e in q:
                    flat(e)
            elif builtins.isinstance(q, types.UnionType):
                for e in q.__args__:
                    flat(e)
            else:
                ts.append(q)

        flat(t)
        for q in ts:
            if q in (_RF, FloatProxy, np.floating, np.float64, np.number, np.inexact, np.generic) and builtins.isinstance(x, Sym):
                return True
            if q in (_RI, np.integer) and builtins.isinstance(x, Sym) and x.isint:
                return True
            if q in (bool, np.bool_) and builtins.isinstance(x, SymBool):
                return True
        return builtins.isinstance(x, t)
    return builtins.isinstance(x, t)


def _mathf(name):
    f = getattr(math, name)

    def g(*a):
        if any(issym(x) or builtins.isinstance(x, SymArray) for x in a):
            a = [x.item() if builtins.isinstance(x, SymArray) else x for x in a]
            if name in ('floor', 'ceil', 'trunc'):
                return getattr(a[0], name)()
            if name in ('isnan', 'isfinite'):
                return getattr(a[0], name)()
            if name == 'isinf':
                return False
            if name == 'fabs':
                return abs(a[0])
            if name == 'pow':
                return a[0] ** a[1]
            if name == 'fsum':
                raise Unsupported('fsum')
            n = {'acos': 'arccos', 'asin': 'arcsin', 'atan': 'arctan'}.get(name, name)
            if name == 'log' and len(a) == 2:
                return a[0].log() / math.log(a[1])
            if hasattr(a[0], n):
                return getattr(a[0], n)()
            raise Unsupported(f'math.{name}')
        return f(*a)

    return g


class MathProxy(types.ModuleType):
    def __init__(self):
        super().__init__('math')
        for n in dir(math):
            v = getattr(math, n)
            setattr(self, n, _mathf(n) if callable(v) else v)


MATH = MathProxy()


def _kind(dtype):
    if dtype is None:
        return 'f'
    if dtype is FloatProxy:
        return 'f'
    return np.dtype(dtype).kind


def _fresh(fill):
    def f(shape, dtype=None, order='C', **k):
        kd = _kind(dtype)
        if builtins.isinstance(shape, (Sym,)):
            shape = shape.__index__()
        if builtins.isinstance(shape, (tuple, list)):
            shape = tuple(s.__index__() if issym(s) else s for s in shape)
        if kd not in 'fc':
            return np.full(shape, fill if fill == fill else 0, dtype=dtype)
        o = np.empty(shape, dtype=object)
        o[...] = complex(fill) if kd == 'c' else float(fill)
        return o.view(SymArray)

    return f


def _full(shape, fill_value, dtype=None, order='C', **k):
    if not has_sym(fill_value) and dtype is not None and _kind(dtype) not in 'fc':
        return np.full(shape, fill_value, dtype=dtype)
    if not has_sym(fill_value) and dtype is None and np.asarray(fill_value).dtype.kind not in 'fc':
        return np.full(shape, fill_value)
    o = np.empty(shape, dtype=object)
    o[...] = _obj(fill_value)
    return o.view(SymArray)


def _sym_array(x, dtype=None, copy=True):
    r = arr(x)
    if dtype is not None and dtype is not object:
        if dtype is FloatProxy:
            dtype = float
        r = r.astype(dtype)
    elif copy:
        r = r.copy()
    return r


def _np_array(a, dtype=None, *r, **k):
    if dtype is FloatProxy:
        dtype = _RF
    if builtins.isinstance(a, (SymArray, Sym, SymBool, SymC)) or (builtins.isinstance(a, (list, tuple)) and has_sym(a)):
        res = _sym_array(a, dtype, k.get('copy', True) is not False)
        nd = k.get('ndmin', 0)
        while res.ndim < nd:
            res = res.view(np.ndarray)[None].view(SymArray)
        return res
    v = _xr_sym(a)
    if v is not None:
        return _sym_array(v, dtype, True)
    return _orig['array'](a, dtype, *r, **k)


def _xr_sym(a):
    """value array of an xarray object holding symbols (else None)."""
    v = getattr(a, '_variable', None)
    if v is not None:
        d = getattr(v, '_data', None)
        if builtins.isinstance(d, SymArray):
            return d
        if d is not None and hasattr(d, 'dask'):
            d = d.compute()
            if builtins.isinstance(d, SymArray):
                return d
        return None
    d = getattr(a, '_data', None)
    if builtins.isinstance(d, SymArray) and hasattr(a, 'dims'):
        return d
    return None


def _np_asarray(a, dtype=None, *r, **k):
    if dtype is FloatProxy:
        dtype = _RF
    if builtins.isinstance(a, (SymArray, Sym, SymBool, SymC)) or (builtins.isinstance(a, (list, tuple)) and has_sym(a)):
        if builtins.isinstance(a, SymArray) and dtype is None:
            return a
        return _sym_array(a, dtype, False)
    v = _xr_sym(a)
    if v is not None:
        return _sym_array(v, dtype, False)
    if hasattr(a, '__dask_graph__') and not builtins.isinstance(a, np.ndarray):
        a = a.compute() if hasattr(a, 'compute') else a
        if builtins.isinstance(a, SymArray):
            return a
    return _upgrade(_orig['asarray'](a, dtype, *r, **k))


def _upgrade(x):
    if builtins.type(x) is np.ndarray and x.dtype == object and has_sym(x):
        return x.view(SymArray)
    return x


def _np_asanyarray(a, dtype=None, *r, **k):
    if dtype is FloatProxy:
        dtype = _RF
    if builtins.isinstance(a, (SymArray, Sym, SymBool, SymC)) or (builtins.isinstance(a, (list, tuple)) and has_sym(a)) or _xr_sym(a) is not None:
        return _np_asarray(a, dtype)
    return _orig['asanyarray'](a, dtype, *r, **k)


def _np_isscalar(x):
    return True if issym(x) else _orig['isscalar'](x)


def _linspace(a, b, num=50, endpoint=True, **k):
    if not has_sym(a) and not has_sym(b):
        return np.linspace(a, b, num, endpoint=endpoint, **k)
    div = num - 1 if endpoint else num
    return arr([a + (b - a) * (i / div) for i in range(num)])


def _arange(*a, **k):
    if any(issym(x) for x in a):
        if all(builtins.isinstance(x, (int, np.integer)) or (builtins.isinstance(x, Sym) and x.isint) for x in a):
            return np.arange(*[x.__index__() for x in a])
        raise Unsupported('arange of symbolic reals')
    return np.arange(*a, **k)


def _tab(f):
    def g(*a, **k):
        r = f(*a, **k)
        if builtins.type(r) is np.ndarray and r.ndim and r.dtype.kind in 'fi':
            return r.view(TabArray)
        return r

    return g


def _like(f):
    def g(a, *r, **k):
        v = _xr_sym(a)
        if v is None and (issym(a) or builtins.isinstance(a, (list, tuple)) and has_sym(a)):
            v = arr(a)
        if k.get('dtype') is FloatProxy:
            k['dtype'] = _RF
        q = f(a if v is None else v, *r, **k)
        if builtins.isinstance(q, np.ndarray) and q.dtype.kind == 'f':
            q = arr(np.array(q, dtype=object))  # may receive symbols later
        return q

    return g


class _Cat:
    """np.r_ / np.c_ for pieces that hold symbols"""

    def __init__(self, real, cols):
        self.real, self.cols = real, cols

    def __getitem__(self, k):
        ks = k if builtins.isinstance(k, tuple) else (k,)
        if not any(has_sym(e) or _xr_sym(e) is not None for e in ks):
            return self.real[k]
        parts = []
        for e in ks:
            if builtins.isinstance(e, str):
                raise Unsupported('np.r_ with a directive')
            if builtins.isinstance(e, slice):
                e = self.real[e]
            v = _xr_sym(e)
            parts.append(arr(e if v is None else v))
        if self.cols:
            return np.column_stack(parts)
        return np.concatenate([np.atleast_1d(e) for e in parts])


def _fromiter(it, dtype=float, count=-1, **k):
    v = list(it)
    if count >= 0:
        v = v[:count]
    return arr(v).astype(dtype) if has_sym(v) else np.fromiter(v, dtype, count, **k)


class NpProxy(types.ModuleType):
    """numpy with float constructors returning SymArrays."""

    def __init__(self, over=None):
        super().__init__('numpy')
        self.__dict__.update(
            zeros=_fresh(0.0), ones=_fresh(1.0), empty=_fresh(math.nan), full=_full, linspace=_linspace, arange=_arange
        )
        self.__dict__.update(
            array=_tab(lambda *a, **k: np.array(*a, **k)),
            asarray=_tab(lambda *a, **k: np.asarray(*a, **k)),
            r_=_Cat(np.r_, False),
            c_=_Cat(np.c_, True),
            fromiter=_fromiter,
        )
        for n in ('full_like', 'zeros_like', 'ones_like', 'empty_like'):
            self.__dict__[n] = _like(getattr(np, n))
        self.__dict__.update(over or {})

    def __getattr__(self, n):
        if n in ('float64', 'double') and False:
            return FloatProxy
        v = getattr(np, n)
        f = _SCALARF.get(n)
        return f if f is not None else v


def _scalar_or_array(n):
    """numpy function accepting bare Sym scalars / lists of Sym."""
    f = getattr(np, n)
    h = FUNCS.get(f)

    def g(*a, **k):
        if any(issym(x) or (builtins.isinstance(x, (list, tuple)) and has_sym(x)) for x in a):
            if builtins.isinstance(f, np.ufunc):
                a = [arr(x) if has_sym(x) else x for x in a]
                return f(*a, **k)
            if h is not None:
                return h(*a, **k)
            a = [arr(x) if (issym(x) or builtins.isinstance(x, list)) and has_sym(x) else x for x in a]
            return f(*a, **k)
        return f(*a, **k)

    g.__name__ = n
    return g


from .arr import ELEM, ELEMB  # noqa: E402

_SCALARF = {}
for _n in dir(np):
    _v = getattr(np, _n)
    if _n.startswith('_') or builtins.isinstance(_v, builtins.type):
        continue
    if builtins.isinstance(_v, np.ufunc):
        continue  # ufuncs see Sym via __array_ufunc__ only when arrays: handled below
    if callable(_v) and _v in FUNCS:
        _SCALARF[_n] = _scalar_or_array(_n)


class UfuncProxy:
    """np.<ufunc> that also accepts bare Sym scalars."""

    def __init__(self, uf):
        self._uf = uf
        self.__name__ = uf.__name__

    def __call__(self, *a, **k):
        if any(issym(x) or (builtins.isinstance(x, (list, tuple)) and has_sym(x)) for x in a):
            a = [arr(x) if has_sym(x) else x for x in a]
        return self._uf(*a, **k)

    def __getattr__(self, n):
        return getattr(self._uf, n)


for _n in dir(np):
    _v = getattr(np, _n)
    if builtins.isinstance(_v, np.ufunc):
        _SCALARF[_n] = UfuncProxy(_v)
_SCALARF['isscalar'] = _np_isscalar


def _round_proxy(x, n=None):
    return builtins.round(x, n) if n is not None else builtins.round(x)


_active = False
NP = None
_log = []


def set_attr(obj, name, val):
    _log.append((obj, name, obj.__dict__.get(name, _MISSING) if hasattr(obj, '__dict__') else getattr(obj, name)))
    setattr(obj, name, val)


_MISSING = object()


def geocat_modules():
    import sys

    return [m for n, m in list(sys.modules.items()) if n.startswith('geocat.comp') and builtins.isinstance(m, types.ModuleType)]


def activate(np_over=None):
    """Install the symbolic environment (idempotent)."""
    global _active, NP
    if _active:
        return
    import dask
    import geocat.comp  # noqa: F401
    import metpy.interpolate.one_dimension as m1
    import xarray as xr

    dask.config.set(scheduler='synchronous')
    import dask.array.slicing as dsl
    from dask.base import normalize_token

    o_set = dsl.setitem

    def setitem(x, v, indices):
        if has_sym(v) and not builtins.isinstance(x, SymArray):
            x = arr(x)
        return o_set(x, v, indices)

    set_attr(dsl, 'setitem', setitem)
    import dask.array.core as dac

    o_del = dac._should_delegate
    set_attr(dac, '_should_delegate', lambda self, other: True if issym(other) else o_del(self, other))
    o_enf = dac._enforce_dtype

    def enforce(*a, **k):
        if any(has_sym(q) for q in a if builtins.isinstance(q, (np.ndarray, Sym, SymBool, SymC))):
            k.pop('enforce_dtype')
            return k.pop('enforce_dtype_function')(*a, **k)
        return o_enf(*a, **k)

    set_attr(dac, '_enforce_dtype', enforce)

    for c in (SymArray, Sym, SymBool, SymC):
        normalize_token.register(c, _token)
    warnings.simplefilter('ignore')
    _orig.update(array=np.array, asarray=np.asarray, asanyarray=np.asanyarray, isscalar=np.isscalar)
    set_attr(np, 'array', _np_array)
    set_attr(np, 'asarray', _np_asarray)
    set_attr(np, 'asanyarray', _np_asanyarray)
    set_attr(np, 'isscalar', _np_isscalar)
    NP = NpProxy(np_over)
    set_attr(m1, 'np', NP)
    import eofs.standard
    import eofs.xarray

    for m in (eofs.standard, eofs.xarray):
        set_attr(m, 'np', NP)
    for m in geocat_modules():
        patch_module(m)
    _patch_xarray(xr)
    _patch_scipy()
    _patch_sph()
    _active = True


def _token(x):
    if builtins.isinstance(x, SymArray):
        return ('SymArray', x.shape, tuple(_token(e) for e in x.view(np.ndarray).flat))
    if builtins.isinstance(x, Sym):
        return ('Sym', x.v.get_id(), str(x.bad)[:80])
    if builtins.isinstance(x, SymBool):
        return ('SymBool', x.b.get_id())
    if builtins.isinstance(x, SymC):
        return ('SymC', _token(x.re), _token(x.im))
    return repr(x)


def patch_module(m):
    g = m.__dict__
    for k, v in list(g.items()):
        if v is np:
            set_attr(m, k, NP)
        elif v is math:
            set_attr(m, k, MATH)
        elif builtins.isinstance(v, np.ufunc):
            set_attr(m, k, UfuncProxy(v))
        elif callable(v) and getattr(v, '__module__', None) == 'math' and getattr(math, getattr(v, '__name__', ''), None) is v:
            set_attr(m, k, _mathf(v.__name__))
        elif callable(v) and getattr(v, '__module__', '') == 'numpy' and not builtins.isinstance(v, builtins.type):
            set_attr(m, k, getattr(NP, v.__name__, v))
    set_attr(m, 'float', FloatProxy)
    set_attr(m, 'type', type_proxy)
    set_attr(m, 'isinstance', isinstance_proxy)


@contextlib.contextmanager
def unpatched_numpy():
    """numpy itself as it is (the modules keep their stand-ins)"""
    now = {k: getattr(np, k) for k in _orig}
    try:
        for k, v in _orig.items():
            setattr(np, k, v)
        yield
    finally:
        for k, v in now.items():
            setattr(np, k, v)


def deactivate():
    global _active
    for obj, name, old in reversed(_log):
        if old is _MISSING:
            delattr(obj, name)
        else:
            setattr(obj, name, old)
    _log.clear()
    _active = False


def _patch_xarray(xr):
    from xarray.core import duck_array_ops as dao

    o_isnull = dao.isnull

    def isnull(data):
        if builtins.isinstance(data, SymArray):
            return np.isnan(data)
        if issym(data):
            return data.isnan()
        return o_isnull(data)

    set_attr(dao, 'isnull', isnull)
    o_shared = dao.as_shared_dtype

    def as_shared_dtype(xs, xp=None):
        return o_shared([arr(x) if issym(x) else x for x in xs], xp=xp)

    set_attr(dao, 'as_shared_dtype', as_shared_dtype)
    import xarray.core.indexing as ix

    o_duck = ix.PandasIndexingAdapter.get_duck_array
    set_attr(ix.PandasIndexingAdapter, 'get_duck_array', lambda self: _upgrade(o_duck(self)))
    import xarray.computation.nanops as no

    set_attr(no, 'isnull', isnull)
    from xarray.core import nputils

    def nan(name):
        o = getattr(nputils, name)

        def f(a, *r, **k):
            if builtins.isinstance(a, SymArray):
                k.pop('dtype', None)
                return getattr(np, name)(a, *r, **k)
            return o(a, *r, **k)

        set_attr(nputils, name, f)

    for n in ('nanmean', 'nanvar', 'nanstd', 'nanmin', 'nanmax', 'nanargmin', 'nanargmax', 'nansum', 'nanprod'):
        if hasattr(nputils, n):
            nan(n)


class Interp1d:
    """scipy.interpolate.interp1d for symbolic values on concrete nodes
    (kind linear or nearest); anything else is refused."""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        if kind not in ('linear', 'nearest') or bounds_error:
            raise Unsupported(f'interp1d kind {kind}')
        if has_sym(x):
            raise Unsupported('interp1d on symbolic nodes')
        x = np.asarray(x, float)
        y = np.moveaxis(arr(y), axis, -1)
        if not assume_sorted:
            k = np.argsort(x, kind='mergesort')
            x, y = x[k], y[..., k]
        if x.ndim != 1 or x.size != y.shape[-1] or axis not in (-1, y.ndim - 1):
            raise Unsupported('interp1d shapes')
        self.extra = builtins.isinstance(fill_value, str)
        if self.extra and fill_value != 'extrapolate':
            raise ValueError(fill_value)
        f = fill_value if builtins.isinstance(fill_value, tuple) else (fill_value, fill_value)
        self.fill = tuple(q if issym(q) else float(np.asarray(q).item()) for q in f) if not self.extra else None
        self.x, self.y, self.kind = x, y, kind
        if kind == 'linear' and x.size < 2:
            raise Unsupported('interp1d with one node')

    def __call__(self, xn):
        if has_sym(xn):
            return self.symbolic(arr(xn))
        xn = np.asarray(xn, float)
        x, y = self.x, self.y.view(np.ndarray)
        n = x.size
        out = np.empty(y.shape[:-1] + (xn.size,), dtype=object)
        for j, v in enumerate(xn.reshape(-1)):
            if v != v:
                out[..., j] = math.nan
            elif not self.extra and v < x[0]:
                out[..., j] = self.fill[0]
            elif not self.extra and v > x[-1]:
                out[..., j] = self.fill[1]
            elif self.kind == 'nearest':
                k = int(np.clip(np.searchsorted(self.mid(), v, side='left'), 0, n - 1))
                out[..., j] = y[..., k]
            else:
                hi = int(np.clip(np.searchsorted(x, v), 1, n - 1))
                out[..., j] = self.lin(hi, v)
        return out.view(SymArray).reshape(y.shape[:-1] + xn.shape)

    def mid(self):
        b = self.x / 2.0
        return b[1:] + b[:-1]

    def lin(self, hi, v):
        x, y = self.x, self.y.view(np.ndarray)
        lo = hi - 1
        return (y[..., hi] - y[..., lo]) / (x[hi] - x[lo]) * (v - x[lo]) + y[..., lo]

    def symbolic(self, xn):
        """every interval, selected by the position of the point (searchsorted, side left)"""
        x, y = self.x, self.y.view(np.ndarray)
        n = x.size
        out = np.empty(y.shape[:-1] + (xn.size,), dtype=object)
        for j, v in enumerate(xn.reshape(-1).view(np.ndarray)):
            if self.kind == 'nearest':
                parts = [y[..., k] for k in range(n)]
                cut = self.mid()
            else:
                parts = [self.lin(k, v) for k in range(1, n)]
                cut = x[1:-1]
            cond = [v <= float(c) for c in cut]
            r = np.empty(y.shape[:-1], dtype=object)
            for i in np.ndindex(*r.shape):
                e = parts[-1][i]
                for c, p in zip(reversed(cond), reversed(parts[:-1])):
                    e = core.ite(c, p[i], e)
                if not self.extra:
                    e = core.ite(v < float(x[0]), self.fill[0], e)
                    e = core.ite(v > float(x[-1]), self.fill[1], e)
                r[i] = e
            out[..., j] = r
        return out.view(SymArray).reshape(y.shape[:-1] + xn.shape)


def _patch_scipy():
    import scipy.interpolate as si

    o = si.interp1d

    def interp1d(x, y, *a, **k):
        if hasattr(y, 'dims'):
            y = y.data
        if has_sym(y) or has_sym(x):
            return Interp1d(x, y, *a, **k)
        return o(x, y, *a, **k)

    set_attr(si, 'interp1d', interp1d)
    import xarray.core.missing as xm

    o_loc = xm._localize

    def localize(obj, ic):
        # only a speed up: restricts the nodes to those around the points
        if any(has_sym(new.data) for _, new in ic.values()):
            return obj, ic
        return o_loc(obj, ic)

    set_attr(xm, '_localize', localize)


def sph_harm_model(n, m, theta, phi):
    """scipy.special.sph_harm_y(n, m, polar angle, azimuth) by definition
    (Condon-Shortley phase), for symbolic angles and 0 <= m <= n."""
    n, m, theta, phi = np.broadcast_arrays(*[arr(q).view(np.ndarray) for q in (n, m, theta, phi)])
    out = np.empty(n.shape, dtype=object)
    for i in np.ndindex(*n.shape):
        nn, mm, t, p = int(n[i]), int(m[i]), theta[i], phi[i]
        c, s = (t.cos(), t.sin()) if issym(t) else (math.cos(t), math.sin(t))
        # associated Legendre, upwards in n
        pmm = 1.0
        for k in range(mm):
            pmm = pmm * (-(2 * k + 1)) * s
        a, b = 0.0, pmm
        for k in range(mm + 1, nn + 1):
            a, b = b, (c * b * (2 * k - 1) - a * (k + mm - 1)) / (k - mm)
        f = math.sqrt((2 * nn + 1) / (4 * math.pi) * math.factorial(nn - mm) / math.factorial(nn + mm))
        a = p * mm
        if mm == 0:
            re, im = b * f, 0.0
        else:
            ca, sa = (a.cos(), a.sin()) if issym(a) else (math.cos(a), math.sin(a))
            re, im = b * f * ca, b * f * sa
        out[i] = SymC(re, im) if issym(re) or issym(im) else complex(re, im)
    return out.view(SymArray) if out.ndim else out[()]


def _patch_sph(sp=None):
    if sp is None:
        import geocat.comp.spherical as sp

    o = getattr(sp, 'sph_harm_y', None)
    if o is None:
        return

    def sph_harm_y(n, m, theta, phi, **k):
        from xarray import DataArray

        if any(has_sym(q) or _xr_sym(q) is not None for q in (theta, phi)):
            if builtins.isinstance(theta, DataArray):
                theta, phi = theta.data, phi.data
            return sph_harm_model(n, m, theta, phi)
        return o(n, m, theta, phi, **k)

    set_attr(sp, 'sph_harm_y', sph_harm_y)
