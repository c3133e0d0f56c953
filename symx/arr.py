"""SymArray: an object-dtype ndarray subclass whose elements are symbolic.

numpy protocols (`__array_ufunc__`, `__array_function__`) are overridden so the
numpy/xarray/dask/metpy Python code above them runs unmodified; the numpy C
kernels are the modelled primitives (element-wise arithmetic, reductions,
comparison, sorting, selection).
"""
from __future__ import annotations

import itertools
import math

import numpy as np

from . import core
from .core import z3, CTX, Sym, SymBool, SymC, Unsupported, fmax, fmin, is_conc, ite

SYMS = (Sym, SymBool, SymC)


def issym(x):
    return isinstance(x, SYMS)


def _obj(x):
    """anything -> plain object ndarray (elements python/np scalars or Sym)."""
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if issym(x):
        r = np.empty((), dtype=object)
        r[()] = x
        return r
    if isinstance(x, np.ndarray):
        return x.astype(object) if x.dtype != object else x
    if isinstance(x, (list, tuple)):
        return _obj_from_seq(x)
    if hasattr(x, '__array__') and not isinstance(x, np.generic):
        return _obj(x.__array__())
    r = np.empty((), dtype=object)
    r[()] = x
    return r


def _obj_from_seq(x):
    parts = [_obj(e) for e in x]
    if not parts:
        return np.empty((0,), dtype=object)
    shp = parts[0].shape
    if any(p.shape != shp for p in parts):
        raise ValueError(
            'setting an array element with a sequence. The requested array has an inhomogeneous shape'
        )
    r = np.empty((len(parts),) + shp, dtype=object)
    for i, p in enumerate(parts):
        r[i] = p if p.ndim else p[()]
    return r


def has_sym(o, depth=3):
    if isinstance(o, SYMS) or isinstance(o, SymArray):
        return True
    if depth and isinstance(o, (list, tuple)):
        return any(has_sym(e, depth - 1) for e in o)
    if isinstance(o, np.ndarray) and np.ndarray.dtype.__get__(o) == object:
        return any(issym(e) for e in o.ravel()[:64])
    return False


def wrap(r, like=None):
    """object ndarray -> SymArray / bool ndarray if entirely concrete bools /
    scalar for 0-d."""
    if not isinstance(r, np.ndarray):
        return r
    if r.ndim == 0:
        return r[()]
    return r.view(SymArray)


def wrapb(r):
    """result of a predicate: real bool ndarray when nothing symbolic."""
    if not isinstance(r, np.ndarray):
        return r
    if r.ndim == 0:
        e = r[()]
        return e if isinstance(e, SymBool) else np.bool_(e)
    f = r.view(np.ndarray)
    if not any(isinstance(e, SymBool) for e in f.flat):
        return f.astype(bool)
    return f.view(SymArray)


def arr(x):
    """-> SymArray of any rank (0-d kept as array)."""
    if isinstance(x, SymArray):
        return x
    return _obj(x).view(SymArray)


# --------------------------------------------------------- elementwise kernels
def _conc(*a):
    return not any(isinstance(x, SYMS) for x in a)


def _isc(x):
    return isinstance(x, (SymC, complex, np.complexfloating))


def _u(name, f):
    uf = getattr(np, name)

    def k(*a):
        if _conc(*a):
            with np.errstate(all='ignore'):
                return uf(*a)
        return f(*a)

    return k


def _num(x):
    return x.num() if isinstance(x, SymBool) else (int(x) if isinstance(x, (bool, np.bool_)) else x)


def _truth(x):
    """-> bool | SymBool"""
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return x != 0
    if isinstance(x, SymC):
        return x != 0
    return bool(x)


def _and(a, b):
    a, b = _truth(a), _truth(b)
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return core.mkb(core.b_and(core.raw(a), core.raw(b)))
    return a and b


def _or(a, b):
    a, b = _truth(a), _truth(b)
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return core.mkb(core.b_or(core.raw(a), core.raw(b)))
    return a or b


def _not(a):
    a = _truth(a)
    return ~a if isinstance(a, SymBool) else (not a)


def _isnan(a):
    if isinstance(a, SymBool):
        return False
    if issym(a):
        return a.isnan()
    try:
        return bool(np.isnan(a))
    except TypeError:
        return a is None


def _isfinite(a):
    if isinstance(a, SymBool):
        return True
    if isinstance(a, Sym):
        return a.isfinite()
    if isinstance(a, SymC):
        return _not(a.isnan())
    return bool(np.isfinite(a))


def _isinf(a):
    # the model has one non-finite flag: treated as NaN, never as infinity
    if issym(a):
        return False
    return bool(np.isinf(a))


def _m1(name):
    def f(a):
        return getattr(_num(a) if not isinstance(a, SymC) else a, name)()

    return f


def _fmaxnan(a, b):
    # np.fmax: ignores nan
    return ite(_isnan(a), b, ite(_isnan(b), a, fmax(a, b)))


def _fminnan(a, b):
    return ite(_isnan(a), b, ite(_isnan(b), a, fmin(a, b)))


def _hypot(a, b):
    s = a * a + b * b
    return s.sqrt()


def _pow(a, b):
    if isinstance(a, SymBool):
        a = a.num()
    return a**b


def _ldexp(a, b):
    return a * 2.0**b


def _arctan2(a, b):
    raise Unsupported('arctan2')


def _mul(a, b):
    # 0 * x keeps x's finiteness
    a, b = _num(a), _num(b)
    return a * b


def _copysign(a, b):
    return ite(b >= 0, abs(a), -abs(a))


def _heaviside(a, h):
    return ite(a > 0, 1.0, ite(a < 0, 0.0, h))


def _bit(a, b, f, g):
    return f(a, b)


def _inv(a):
    if isinstance(a, SymBool):
        return ~a
    return not bool(a)


def _float_power(a, b):
    return _pow(a, b)


def _log1p(a):
    return (a + 1).log()


def _expm1(a):
    return a.exp() - 1


def _exp2(a):
    return (a * math.log(2)).exp()


def _recip(a):
    return 1 / a


ELEM = {
    'add': lambda a, b: _num(a) + _num(b),
    'subtract': lambda a, b: _num(a) - _num(b),
    'multiply': _mul,
    'divide': lambda a, b: _num(a) / _num(b),
    'true_divide': lambda a, b: _num(a) / _num(b),
    'floor_divide': lambda a, b: _num(a) // _num(b),
    'remainder': lambda a, b: _num(a) % _num(b),
    'mod': lambda a, b: _num(a) % _num(b),
    'power': _pow,
    'float_power': _float_power,
    'negative': lambda a: -_num(a),
    'positive': lambda a: a,
    'absolute': lambda a: abs(_num(a)),
    'fabs': lambda a: abs(_num(a)),
    'square': lambda a: _num(a) * _num(a),
    'reciprocal': _recip,
    'exp': _m1('exp'),
    'log': _m1('log'),
    'log10': _m1('log10'),
    'log2': _m1('log2'),
    'log1p': _log1p,
    'expm1': _expm1,
    'exp2': _exp2,
    'sqrt': _m1('sqrt'),
    'sin': _m1('sin'),
    'cos': _m1('cos'),
    'tan': _m1('tan'),
    'arccos': _m1('arccos'),
    'arcsin': _m1('arcsin'),
    'arctan': _m1('arctan'),
    'arctan2': _arctan2,
    'hypot': _hypot,
    'deg2rad': _m1('deg2rad'),
    'radians': _m1('deg2rad'),
    'rad2deg': _m1('rad2deg'),
    'degrees': _m1('rad2deg'),
    'floor': _m1('floor'),
    'ceil': _m1('ceil'),
    'trunc': _m1('trunc'),
    'rint': _m1('rint'),
    'sign': _m1('sign'),
    'copysign': _copysign,
    'heaviside': _heaviside,
    'conjugate': lambda a: a.conjugate() if issym(a) and not isinstance(a, SymBool) else np.conjugate(a),
    'maximum': lambda a, b: fmax(_num(a), _num(b)),
    'minimum': lambda a, b: fmin(_num(a), _num(b)),
    'fmax': _fmaxnan,
    'fmin': _fminnan,
}
ELEMB = {
    'less': lambda a, b: a < b,
    'less_equal': lambda a, b: a <= b,
    'greater': lambda a, b: a > b,
    'greater_equal': lambda a, b: a >= b,
    'equal': lambda a, b: a == b,
    'not_equal': lambda a, b: a != b,
    'logical_and': _and,
    'logical_or': _or,
    'logical_not': _not,
    'logical_xor': lambda a, b: _truth(a) != _truth(b),
    'isnan': _isnan,
    'isfinite': _isfinite,
    'isinf': _isinf,
    'signbit': lambda a: a < 0,
}
BIT = {
    'bitwise_and': _and,
    'bitwise_or': _or,
    'bitwise_xor': lambda a, b: _truth(a) != _truth(b),
    'invert': _inv,
}

_RAW = {}
for _n, _f in ELEM.items():
    _RAW[_n] = _u(_n, _f)
for _n, _f in ELEMB.items():
    _RAW[_n] = _u(_n, _f)
for _n, _f in BIT.items():
    _RAW[_n] = _u(_n, _f)


def _vec(f, nin):
    uf = np.frompyfunc(f, nin, 1)

    def g(*a):
        r = uf(*a)
        if not isinstance(r, np.ndarray):
            o = np.empty((), dtype=object)
            o[()] = r
            r = o
        return r

    return g


VEC = {}
for _n in _RAW:
    VEC[_n] = _vec(_RAW[_n], getattr(np, _n).nin)
_ite_vec = _vec(lambda c, a, b: ite(_truth(c), a, b), 3)


def _identity(name):
    return {
        'add': 0.0,
        'multiply': 1.0,
        'logical_and': True,
        'logical_or': False,
        'bitwise_and': True,
        'bitwise_or': False,
    }.get(name)


def _axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (int, np.integer)):
        axis = (int(axis),)
    out = []
    for a in axis:
        a = int(a)
        if a < -nd or a >= nd:
            raise np.exceptions.AxisError(a, nd)
        out.append(a % nd)
    if len(set(out)) != len(out):
        raise ValueError("duplicate value in 'axis'")
    return tuple(out)


def reduce_(f, x, axis=None, keepdims=False, init=None, where=True, empty=None):
    o = _obj(x)
    nd = o.ndim
    ax = _axes(axis, nd)
    keep = [i for i in range(nd) if i not in ax]
    t = o.transpose(keep + list(ax)) if nd else o
    kshape = tuple(o.shape[i] for i in keep)
    n = int(np.prod([o.shape[i] for i in ax])) if ax else 1
    t = t.reshape((int(np.prod(kshape)) if kshape else 1, n))
    if where is not True:
        w = np.broadcast_to(_obj(where), o.shape)
        w = w.transpose(keep + list(ax)).reshape(t.shape)
    else:
        w = None
    out = np.empty((t.shape[0],), dtype=object)
    for i in range(t.shape[0]):
        acc = init
        for j in range(n):
            e = t[i, j]
            if w is not None:
                c = _truth(w[i, j])
                if c is False:
                    continue
                if acc is None:
                    raise Unsupported('where-reduction without identity')
                acc = ite(c, f(acc, e), acc)
            else:
                acc = e if acc is None else f(acc, e)
        if acc is None:
            if empty is None:
                raise ValueError('zero-size array to reduction operation which has no identity')
            acc = empty
        out[i] = acc
    if keepdims:
        kshape = tuple(1 if i in ax else o.shape[i] for i in range(nd))
    return out.reshape(kshape)


# ------------------------------------------------------- element type of arrays
def _isintlike(e):
    return (isinstance(e, (int, np.integer)) and not isinstance(e, (bool, np.bool_))) or (isinstance(e, Sym) and e.isint)


def _isfloatlike(e):
    return isinstance(e, (float, np.floating)) or (isinstance(e, Sym) and not e.isint)


def _promote(r, *ins):
    """numpy: a result that takes elements of a float operand is float, also when
    all of the elements chosen came from an integer one."""
    if isinstance(r, np.ndarray) and r.size and all(_isintlike(e) for e in r.flat):
        if any(_isfloatlike(e) for i in ins for e in i.flat):
            return _vec(lambda e: core.cast(e, float), 1)(r)
    return r


def _to_int(e):
    """C cast of a float to int64 in an array assignment"""
    if isinstance(e, (float, np.floating)) and not math.isfinite(e):
        return -(2**63)
    if isinstance(e, (SymC, complex, np.complexfloating)):
        return e
    return core.cast(e, np.int64)


def _stored(target, v):
    """value v as an assignment into `target` keeps it: integer arrays truncate,
    float arrays hold floats."""
    es = list(v.view(np.ndarray).flat) if isinstance(v, np.ndarray) else [v]
    fl, it = any(_isfloatlike(e) for e in es), any(_isintlike(e) for e in es)
    if not (fl or it) or not target.size:
        return v
    k = target.dtype.kind
    if k == 'i' and fl:
        if not isinstance(v, np.ndarray):
            if isinstance(v, (float, np.floating)) and not math.isfinite(v):
                raise ValueError('cannot convert float NaN to integer')
            return _to_int(v)
        return _vec(_to_int, 1)(_obj(v))
    if k == 'f' and it:
        if not isinstance(v, np.ndarray):
            return core.cast(v, float)
        return _vec(lambda e: core.cast(e, float), 1)(_obj(v))
    return v


# ---------------------------------------------------------------- the subclass
class SymArray(np.ndarray):
    __array_priority__ = 500

    @property
    def dtype(self):
        b = i = f = 0
        n = 0
        for e in self.view(np.ndarray).flat:
            n += 1
            if isinstance(e, SymC) or isinstance(e, (complex, np.complexfloating)):
                return np.dtype(complex)
            if isinstance(e, (SymBool, bool, np.bool_)):
                b += 1
            elif isinstance(e, (int, np.integer)) or (isinstance(e, Sym) and e.isint):
                i += 1
            elif isinstance(e, (Sym, float, np.floating)):
                f += 1
            else:
                return np.dtype(object)
        if n and b == n:
            return np.dtype(bool)
        if n and i == n:
            return np.dtype('int64')
        return np.dtype(float)

    # ---- python protocol
    def __bool__(self):
        if self.size == 1:
            return bool(_truth(self.view(np.ndarray).reshape(-1)[0]))
        raise ValueError(
            'The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()'
        )

    def __float__(self):
        raise Unsupported('float() of a symbolic array')

    def __int__(self):
        if self.size == 1:
            return int(self.view(np.ndarray).reshape(-1)[0])
        raise TypeError('only 0-dimensional arrays can be converted to Python scalars')

    def __index__(self):
        if self.ndim == 0:
            return self.view(np.ndarray)[()].__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __reduce_ex__(self, p):
        raise Unsupported('pickling a symbolic array')

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __dask_tokenize__(self):
        return ('SymArray', self.shape, tuple(id(e) for e in self.view(np.ndarray).flat))

    def __repr__(self):
        return f'SymArray(shape={self.shape})'

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def __contains__(self, v):
        return bool((self == v).any())

    # ---- indexing
    def __getitem__(self, k):
        k, sym = _norm_key(_lazy_key(k), self)
        o = self.view(np.ndarray)
        r = o[k]
        if isinstance(r, np.ndarray):
            return r.view(SymArray)
        if type(r) is float:
            return np.float64(r)
        return r

    def __setitem__(self, k, v):
        o = self.view(np.ndarray)
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        if isinstance(k, SymArray) and k.dtype == bool and k.shape == o.shape[: k.ndim]:
            m = k.view(np.ndarray)
            if any(isinstance(e, SymBool) for e in m.flat):
                if isinstance(v, SymArray) or isinstance(v, np.ndarray):
                    v = _obj(v)
                    if v.ndim:
                        # value count depends on the mask: fork
                        k, _ = _norm_key(k, self)
                        o[k] = _stored(self, v)
                        return
                    v = v[()]
                v = _stored(self, v)
                mm = np.broadcast_to(m.reshape(m.shape + (1,) * (o.ndim - m.ndim)), o.shape)
                for idx in np.ndindex(o.shape):
                    o[idx] = ite(_truth(mm[idx]), v, o[idx])
                return
        if isinstance(k, tuple) and any(
            isinstance(e, SymArray) and e.dtype == bool for e in k
        ):
            pass
        k, _ = _norm_key(k, self)
        if isinstance(v, np.ndarray) or isinstance(v, (list, tuple)):
            v = _obj(v)
            if v.ndim == 0:
                v = v[()]
        elif issym(v) or np.isscalar(v):
            pass
        elif hasattr(v, '__array__'):
            v = _obj(v)
            if v.ndim == 0:
                v = v[()]
        v = _stored(self, v)
        if issym(v) and not isinstance(o[k], np.ndarray):
            o[k] = v
            return
        if issym(v):
            z = np.empty((), dtype=object)
            z[()] = v
            o[k] = z
            return
        o[k] = v

    # ---- ufuncs
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        name = ufunc.__name__
        if name not in VEC:
            if name == 'matmul' and method == '__call__':
                return _f_matmul(*inputs)
            if name == 'divmod':
                return (inputs[0] // inputs[1], inputs[0] % inputs[1])
            if name == 'modf':
                t = np.trunc(arr(inputs[0]))
                return arr(inputs[0]) - t, t
            if name == 'fmod':
                x, y = arr(inputs[0]), arr(inputs[1])
                return x - np.trunc(x / y) * y
            if name == 'vecdot':
                return _f_sum(np.conjugate(arr(inputs[0])) * arr(inputs[1]), axis=kw.get('axis', -1))
            if name.endswith('(vectorized)') or not hasattr(np, name):
                # np.frompyfunc objects: element wise python call
                a = [_obj(i) for i in inputs]
                r = ufunc(*a)
                return wrap(r) if isinstance(r, np.ndarray) else r
            raise Unsupported(f'ufunc {name}')
        isb = name in ELEMB or name in BIT
        out = kw.pop('out', None)
        where = kw.pop('where', True)
        dtype = kw.pop('dtype', None)
        kw.pop('casting', None)
        kw.pop('order', None)
        kw.pop('subok', None)
        if any(not _okin(i) for i in inputs):
            return NotImplemented
        if method == '__call__':
            a = [_obj(i) for i in inputs]
            if where is not True:
                w = _obj(where)
                shp = np.broadcast_shapes(w.shape, *[x.shape for x in a])
                base = _obj(out[0]) if out else np.full(shp, math.nan, dtype=object)
                # evaluate only where needed: division guarded by ite
                r = _ite_vec(w, VEC[name](*a), base)
            else:
                r = VEC[name](*a)
            if not isb:
                r = _promote(r, *a)
            if dtype is not None:
                r = _cast_arr(r, dtype)
            if out:
                tgt = out[0]
                if isinstance(tgt, SymArray):
                    if tgt.size and tgt.dtype.kind == 'i' and any(_isfloatlike(e) for e in r.flat):
                        raise TypeError(f"Cannot cast ufunc '{name}' output from float64 to int64 with casting rule 'same_kind'")
                    tgt.view(np.ndarray)[...] = _stored(tgt, r)
                    return tgt
                if np.ndarray.dtype.__get__(tgt) == object:
                    tgt[...] = r
                    return tgt
                if not any(issym(e) for e in r.flat):
                    tgt[...] = r
                    return tgt
                # in-place op on a concrete array with symbolic result
                raise Unsupported('in-place symbolic result into a concrete array')
            return wrapb(r) if isb else wrap(r)
        if method == 'reduce':
            x = inputs[0]
            axis = kw.pop('axis', 0)
            keep = kw.pop('keepdims', False)
            init = kw.pop('initial', None)
            if init is np._NoValue:
                init = None
            if init is None:
                init = _identity(name)
                if init is not None and where is True and np.size(x):
                    if name in ('add', 'multiply'):
                        init = None
            r = reduce_(_RAW[name], x, axis, keep, init, where)
            if out and out[0] is not None:
                t = out[0]
                t.view(np.ndarray)[...] = r
                return t
            return wrapb(r) if isb else wrap(r)
        if method == 'accumulate':
            x = _obj(inputs[0])
            axis = kw.pop('axis', 0)
            r = np.empty(x.shape, dtype=object)
            xm, rm = np.moveaxis(x, axis, 0), np.moveaxis(r, axis, 0)
            for i in range(xm.shape[0]):
                rm[i] = xm[i] if i == 0 else VEC[name](rm[i - 1], xm[i])
            return wrap(r)
        if method == 'outer':
            a, b = _obj(inputs[0]), _obj(inputs[1])
            r = VEC[name](a.reshape(a.shape + (1,) * b.ndim), b)
            return wrapb(r) if isb else wrap(r)
        if method == 'at' and len(inputs) == 3:
            ix = np.asarray(inputs[1])
            if ix.ndim == 1 and ix.dtype.kind in 'iu' and inputs[0].ndim == 1:
                v = np.broadcast_to(_obj(inputs[2]), ix.shape)
                for i, e in zip(ix, v):
                    inputs[0][int(i)] = VEC[name](_obj(inputs[0][int(i)]), _obj(e))[()]
                return None
        if method == 'reduceat':
            ix = [int(i) for i in np.asarray(inputs[1])]
            m = np.moveaxis(_obj(inputs[0]), kw.get('axis', 0), 0)
            rows = []
            for i, j in zip(ix, ix[1:] + [m.shape[0]]):
                r = m[i]
                for q in range(i + 1, j):
                    r = VEC[name](_obj(r), _obj(m[q]))
                rows.append(_obj(r))
            return wrap(np.moveaxis(np.stack(rows), 0, kw.get('axis', 0)))
        raise Unsupported(f'ufunc method {name}.{method}')

    def __array_function__(self, func, types, args, kw):
        for t in types:
            if not (issubclass(t, np.ndarray) or t in SYMS):
                # another duck type (dask, xarray) should handle it
                if hasattr(t, '__array_function__') and not issubclass(t, SymArray):
                    return NotImplemented
        h = FUNCS.get(func)
        if h is not None:
            return h(*args, **kw)
        return _generic(func, args, kw)

    # ---- methods with C implementations
    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        return _cast_arr(self.view(np.ndarray), dtype).view(SymArray)

    def view(self, *a, **k):
        return np.ndarray.view(self, *a, **k)

    def take(self, indices, axis=None, out=None, mode='raise'):
        return _f_take(self, indices._variable._data if hasattr(indices, '_variable') else indices, axis=axis, mode=mode)

    def item(self, *a):
        if a:
            return self.view(np.ndarray).item(*a)
        return self.view(np.ndarray).reshape(-1)[0] if self.size == 1 else self.view(np.ndarray).item()

    @property
    def real(self):
        return wrap_nd(_vec(_real, 1)(self.view(np.ndarray)))

    @real.setter
    def real(self, v):
        o = self.view(np.ndarray)
        vv = np.broadcast_to(_obj(v), o.shape)
        for i in np.ndindex(o.shape):
            o[i] = SymC(_tof(vv[i]), SymC.of(o[i]).im)

    @property
    def imag(self):
        return wrap_nd(_vec(_imag, 1)(self.view(np.ndarray)))

    @imag.setter
    def imag(self, v):
        o = self.view(np.ndarray)
        vv = np.broadcast_to(_obj(v), o.shape)
        for i in np.ndindex(o.shape):
            o[i] = SymC(SymC.of(o[i]).re, _tof(vv[i]))

    def conj(self):
        return np.conjugate(self)

    conjugate = conj

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return _f_sum(self, axis=axis, keepdims=keepdims, initial=initial, where=where)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return np.multiply.reduce(self, axis=axis, keepdims=keepdims, **_wi(initial, where))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, where=True):
        return _f_mean(self, axis=axis, keepdims=keepdims, where=where)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True):
        return _f_var(self, axis=axis, ddof=ddof, keepdims=keepdims, where=where)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True):
        return np.sqrt(self.var(axis=axis, ddof=ddof, keepdims=keepdims, where=where))

    def max(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return np.maximum.reduce(self, axis=axis, keepdims=keepdims, **_wi(initial, where))

    def min(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return np.minimum.reduce(self, axis=axis, keepdims=keepdims, **_wi(initial, where))

    def all(self, axis=None, out=None, keepdims=False, where=True):
        return np.logical_and.reduce(self, axis=axis, keepdims=keepdims, **_wi(None, where))

    def any(self, axis=None, out=None, keepdims=False, where=True):
        return np.logical_or.reduce(self, axis=axis, keepdims=keepdims, **_wi(None, where))

    def clip(self, min=None, max=None, out=None, **kw):
        return _f_clip(self, min, max)

    def round(self, decimals=0, out=None):
        return _f_round(self, decimals)

    def cumsum(self, axis=None, dtype=None, out=None):
        return _f_cumsum(self, axis)

    def argsort(self, axis=-1, kind=None, order=None, stable=None):
        return _f_argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None, stable=None):
        o = self.view(np.ndarray)
        o[...] = _f_sort(self, axis).view(np.ndarray)

    def argmax(self, axis=None, out=None, keepdims=False):
        return _f_argext(self, axis, lambda a, b: a > b)

    def argmin(self, axis=None, out=None, keepdims=False):
        return _f_argext(self, axis, lambda a, b: a < b)

    def nonzero(self):
        return _mask_conc(self).nonzero()

    def searchsorted(self, v, side='left', sorter=None):
        return _f_searchsorted(self, v, side, sorter)

    def dot(self, b, out=None):
        return _f_matmul(self, b) if np.ndim(b) else self * b

    def tobytes(self, *a, **k):
        raise Unsupported('tobytes')

    def fill(self, v):
        self[...] = v

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.shape[0]):
            yield self[i]

    # in-place ops may need to write into self
    def _inplace(self, o, uf):
        r = uf(self, o)
        self.view(np.ndarray)[...] = _obj(r)
        return self

    def __iadd__(self, o):
        return self._inplace(o, np.add)

    def __isub__(self, o):
        return self._inplace(o, np.subtract)

    def __imul__(self, o):
        return self._inplace(o, np.multiply)

    def __itruediv__(self, o):
        return self._inplace(o, np.divide)


class TabArray(np.ndarray):
    """concrete numeric array that can be indexed by symbolic integers."""

    __array_priority__ = 1

    def __array_finalize__(self, o):
        pass

    def __getitem__(self, k):
        k = _lazy_key(k)
        if _sym_key(k):
            k, _ = _norm_key(k, self)
        r = np.ndarray.__getitem__(self, k)
        return r

    def __setitem__(self, k, v):
        if _sym_key(k):
            k, _ = _norm_key(k, self)
        np.ndarray.__setitem__(self, k, v)

    def __array_function__(self, func, types, args, kw):
        if any(issubclass(t, SymArray) for t in types):
            return NotImplemented
        return np.ndarray.__array_function__(self, func, types, args, kw)

    def take(self, indices, axis=None, out=None, mode='raise'):
        k = _lazy_key(indices)
        if _sym_key(k):
            k, _ = _norm_key1(k)
        return np.ndarray.take(self, k, axis, out, mode)


def _lazy_key(k):
    """a dask-backed key is computed, as numpy's conversion does"""
    if isinstance(k, tuple):
        return tuple(_lazy_key(e) for e in k)
    if hasattr(k, 'compute') and hasattr(getattr(k, 'data', k), 'dask'):
        k = k.compute()
        return k.data if hasattr(k, 'dims') else k
    return k


def _sym_key(k):
    if isinstance(k, tuple):
        return any(_sym_key(e) for e in k)
    if hasattr(k, '_variable'):
        return isinstance(k._variable._data, SymArray)
    return isinstance(k, (SymArray, Sym, SymBool))


def wrap_nd(r):
    return r.view(SymArray)


def _okin(i):
    return isinstance(i, (np.ndarray, np.generic, list, tuple, int, float, complex, bool)) or issym(i) or i is None or isinstance(i, str)


def _real(x):
    return x.re if isinstance(x, SymC) else (x.real if not isinstance(x, SymBool) else x.num())


def _imag(x):
    return x.im if isinstance(x, SymC) else (0.0 if issym(x) else np.imag(x))


def _tof(x):
    return x.num() if isinstance(x, SymBool) else (x if issym(x) else float(x))


def _cast_arr(o, dtype):
    if dtype is None:
        return o.copy()
    try:
        if np.dtype(dtype) == object:
            return o.copy()
    except TypeError:
        pass
    if np.dtype(dtype).kind in 'iu':
        return _vec(_to_int, 1)(o)
    return _vec(lambda e: core.cast(e, dtype), 1)(o)


def _mask_conc(m):
    """symbolic mask -> concrete bool ndarray, forking per element."""
    o = _obj(m)
    r = np.empty(o.shape, dtype=bool)
    for i in np.ndindex(o.shape):
        r[i] = bool(_truth(o[i]))
    return r


def _int_conc(m):
    o = _obj(m)
    r = np.empty(o.shape, dtype=np.int64)
    for i in np.ndindex(o.shape):
        r[i] = o[i].__index__()
    return r


def _norm_key1(k):
    if hasattr(k, '_variable') and isinstance(k._variable._data, SymArray):
        k = k._variable._data
    if isinstance(k, SymArray):
        dt = k.dtype
        if dt == bool:
            return _mask_conc(k), True
        return _int_conc(k), True
    if isinstance(k, SymBool):
        return bool(k), True
    if isinstance(k, Sym):
        return k.__index__(), True
    if isinstance(k, slice):
        if any(issym(x) for x in (k.start, k.stop, k.step)):
            return slice(*[x.__index__() if issym(x) else x for x in (k.start, k.stop, k.step)]), True
    if isinstance(k, list) and any(issym(e) for e in k):
        return _norm_key1(arr(k))
    return k, False


def _norm_key(k, a):
    if isinstance(k, tuple):
        r = [_norm_key1(e) for e in k]
        return tuple(e[0] for e in r), any(e[1] for e in r)
    return _norm_key1(k)


# --------------------------------------------------------- numpy functions
FUNCS = {}


def impl(*fs):
    def d(g):
        for f in fs:
            FUNCS[f] = g
        return g

    return d


def _strip(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if issym(x):
        return _obj(x)
    if isinstance(x, tuple):
        return tuple(_strip(e) for e in x)
    if isinstance(x, list):
        return [_strip(e) for e in x]
    return x


_SHAPE_OK = {
    'concatenate', 'stack', 'vstack', 'hstack', 'dstack', 'column_stack', 'transpose', 'swapaxes', 'moveaxis',
    'rollaxis', 'reshape', 'ravel', 'squeeze', 'expand_dims', 'broadcast_to', 'broadcast_arrays', 'atleast_1d',
    'atleast_2d', 'atleast_3d', 'flip', 'fliplr', 'flipud', 'roll', 'rot90', 'tile', 'repeat', 'take',
    'take_along_axis', 'split', 'array_split', 'hsplit', 'vsplit', 'append', 'insert', 'delete', 'pad', 'diag',
    'diagonal', 'trace', 'outer', 'tensordot', 'dot', 'inner', 'vdot', 'kron', 'meshgrid', 'copy', 'diff', 'shape',
    'size', 'ndim', 'iscomplexobj', 'compress', 'extract', 'permute_dims', 'matrix_transpose', 'ix_', 'resize',
    'put_along_axis', 'trapezoid', 'block', 'concat', 'unstack', 'may_share_memory', 'shares_memory', 'cross',
    'triu', 'tril', 'fill_diagonal', 'diag_indices_from', 'apply_along_axis', 'apply_over_axes', 'ndim', 'einsum_path',
    'asfortranarray', 'ascontiguousarray', 'require', 'unravel_index', 'gradient', 'result_type_', 'polyval',
}  # fmt: skip


def _generic(func, args, kw):
    n = func.__name__
    if n in ('gradient', 'apply_along_axis', 'apply_over_axes', 'trapezoid', 'polyval', 'pad', 'diff', 'cross', 'outer', 'kron', 'meshgrid'):
        # python implementations: run them on the SymArrays themselves
        return _rewrap(func._implementation(*args, **kw))
    if n in ('_np_asanyarray', '_np_asarray', '_np_array', 'asarray', 'asanyarray', 'array'):
        kw.pop('like', None)
        return arr(args[0])
    if n not in _SHAPE_OK:
        raise Unsupported(f'numpy.{n}')
    a = tuple(_strip(x) for x in args)
    k = {q: _strip(x) for q, x in kw.items() if q != 'like'}
    if n in ('concatenate', 'stack', 'concat'):
        a = ([_obj(x) for x in a[0]],) + a[1:]
        if k.get('dtype') is not None:
            k.pop('dtype')
    r = func(*a, **k)
    return _rewrap(r)


def _rewrap(r):
    if isinstance(r, np.ndarray) and r.dtype == object:
        return r.view(SymArray)
    if isinstance(r, tuple):
        return tuple(_rewrap(e) for e in r)
    if isinstance(r, list):
        return [_rewrap(e) for e in r]
    return r


@impl(np.outer)
def _f_outer(a, b, out=None):
    if out is not None:
        raise Unsupported('outer with out')
    return np.multiply(arr(a).ravel()[:, None], arr(b).ravel()[None, :])


@impl(np.where)
def _f_where(c, *xy):
    if not xy:
        return _mask_conc(c).nonzero()
    x, y = xy
    x, y = _obj(x), _obj(y)
    return wrap_nd(_promote(_ite_vec(_obj(c), x, y), x, y))


@impl(np.select)
def _f_select(condlist, choicelist, default=0):
    r = _obj(default)
    for c, x in list(zip(condlist, choicelist))[::-1]:
        r = _ite_vec(_obj(c), _obj(x), r)
    return wrap_nd(r)


@impl(np.take)
def _f_take(a, indices, axis=None, out=None, mode='raise'):
    i = _int_conc(indices) if isinstance(indices, (SymArray, Sym)) else indices
    if isinstance(indices, Sym):
        i = i[()]
    return _rewrap(np.take(_strip(a), i, axis=axis, mode=mode))


@impl(np.choose)
def _f_choose(a, choices, **k):
    i = _int_conc(a) if isinstance(a, SymArray) else a
    return wrap_nd(np.choose(i, [_obj(c) for c in choices]))


@impl(np.piecewise)
def _f_piecewise(x, condlist, funclist, *a, **k):
    x = arr(x)
    n = len(condlist)
    if len(funclist) == n + 1:
        r = funclist[-1]
        funcs = funclist[:-1]
    else:
        r, funcs = 0.0, funclist
    r = r(x) if callable(r) else r
    res = np.broadcast_to(_obj(r), x.shape)
    for c, f in list(zip(condlist, funcs)):
        res = _ite_vec(_obj(c), _obj(f(x) if callable(f) else f), res)
    return wrap_nd(res)


@impl(np.copyto)
def _f_copyto(dst, src, casting='same_kind', where=True):
    if isinstance(dst, SymArray):
        o = dst.view(np.ndarray)
        o[...] = _ite_vec(_obj(where), np.broadcast_to(_stored(dst, _obj(src)), o.shape), o)
        return
    if not has_sym(src):
        np.copyto(dst, src, where=_mask_conc(where))
        return
    raise Unsupported('copyto symbolic into concrete')


@impl(np.putmask)
def _f_putmask(a, mask, values):
    _f_copyto(a, values, where=mask)


@impl(np.place)
def _f_place(a, mask, vals):
    a[mask] = vals


def _wi(initial, where):
    """the `initial` and `where` arguments of a reduction that were given"""
    k = {}
    if initial is not None and initial is not np._NoValue:
        k['initial'] = initial
    if where is not True and where is not np._NoValue:
        k['where'] = where
    return k


@impl(np.sum)
def _f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    return np.add.reduce(arr(a), axis=axis, keepdims=bool(keepdims) and keepdims is not np._NoValue, **_wi(initial, where))


@impl(np.prod)
def _f_prod(a, axis=None, **k):
    return np.multiply.reduce(arr(a), axis=axis, keepdims=k.get('keepdims') is True, **_wi(k.get('initial'), k.get('where', True)))


@impl(np.all)
def _f_all(a, axis=None, out=None, keepdims=False, where=True):
    return np.logical_and.reduce(arr(a), axis=axis, keepdims=keepdims is True, **_wi(None, where))


@impl(np.any)
def _f_any(a, axis=None, out=None, keepdims=False, where=True):
    return np.logical_or.reduce(arr(a), axis=axis, keepdims=keepdims is True, **_wi(None, where))


@impl(np.max, np.amax)
def _f_max(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    return np.maximum.reduce(arr(a), axis=axis, keepdims=keepdims is True, **_wi(initial, where))


@impl(np.min, np.amin)
def _f_min(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    return np.minimum.reduce(arr(a), axis=axis, keepdims=keepdims is True, **_wi(initial, where))


@impl(np.ptp)
def _f_ptp(a, axis=None, **k):
    return _f_max(a, axis) - _f_min(a, axis)


def _count(o, axis):
    ax = _axes(axis, o.ndim)
    return int(np.prod([o.shape[i] for i in ax])) if ax else 1


@impl(np.mean)
def _f_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    o = arr(a)
    if where is not True and where is not np._NoValue:
        w = np.broadcast_to(_obj(where), o.shape)
        s = np.add.reduce(o, axis=axis, keepdims=keepdims is True, where=w)
        c = np.add.reduce(_vec(_num, 1)(w).view(SymArray), axis=axis, keepdims=keepdims is True)
        return s / c
    n = _count(o, axis)
    s = np.add.reduce(o, axis=axis, keepdims=keepdims is True)
    if n == 0:
        return s * math.nan
    return s / n


@impl(np.average)
def _f_average(a, axis=None, weights=None, returned=False, keepdims=False):
    a = arr(a)
    if weights is None:
        return _f_mean(a, axis, keepdims=keepdims)
    w = arr(weights)
    if w.shape != a.shape:
        if axis is None:
            raise TypeError('Axis must be specified when shapes of a and weights differ.')
        ax = _axes(axis, a.ndim)
        if w.shape != tuple(a.shape[i] for i in ax):
            raise ValueError('Shape of weights must be consistent with shape of a along specified axis.')
        shp = [1] * a.ndim
        for i, q in zip(ax, w.shape):
            shp[i] = q
        w = np.broadcast_to(w.view(np.ndarray).reshape(shp), a.shape).view(SymArray)
    scl = np.add.reduce(w, axis=axis)
    return np.add.reduce(a * w, axis=axis) / scl


@impl(np.var)
def _f_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True, correction=np._NoValue, **k):
    o = arr(a)
    ddof = ddof if correction is np._NoValue else correction
    m = _f_mean(o, axis, keepdims=True, where=where)
    d = o - m
    if _wi(None, where):
        w = np.broadcast_to(_obj(where), o.shape)
        n = np.add.reduce(_vec(_num, 1)(w).view(SymArray), axis=axis, keepdims=keepdims is True)
    else:
        n = _count(o, axis)
    return np.add.reduce(d * d, axis=axis, keepdims=keepdims is True, **_wi(None, where)) / (n - ddof)


@impl(np.std)
def _f_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True, correction=np._NoValue, **k):
    return np.sqrt(_f_var(a, axis, ddof=ddof, keepdims=keepdims, where=where, correction=correction))


@impl(np.cov)
def _f_cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, **k):
    if fweights is not None or aweights is not None:
        raise Unsupported('weighted numpy.cov')
    x = np.atleast_2d(arr(m))
    if not rowvar and np.ndim(m) > 1:
        x = x.T
    if y is not None:
        q = np.atleast_2d(arr(y))
        x = np.concatenate([x, q if rowvar or np.ndim(y) < 2 else q.T])
    n = x.shape[1]
    ddof = (0 if bias else 1) if ddof is None else ddof
    d = x - _f_mean(x, 1, keepdims=True)
    r = arr(np.array([[_f_sum(d[i] * d[j]) / (n - ddof) for j in range(len(d))] for i in range(len(d))], dtype=object))
    return r.squeeze()


@impl(np.corrcoef)
def _f_corrcoef(x, y=None, rowvar=True, **k):
    c = _f_cov(x, y, rowvar)
    if np.ndim(c) == 0:
        return c / c
    sd = [np.sqrt(c[i, i]) for i in range(len(c))]
    return arr(np.array([[c[i, j] / sd[i] / sd[j] for j in range(len(c))] for i in range(len(c))], dtype=object))


def _roll_shift(inv):
    def f(x, axes=None):
        x = arr(x)
        axes = range(x.ndim) if axes is None else [axes] if isinstance(axes, (int, np.integer)) else axes
        for ax in axes:
            n = x.shape[ax]
            x = np.roll(x, -(n // 2) if inv else n // 2, axis=ax)
        return x

    return f


FUNCS[np.fft.fftshift] = _roll_shift(False)
FUNCS[np.fft.ifftshift] = _roll_shift(True)


@impl(np.convolve)
def _f_convolve(a, v, mode='full'):
    a, v = list(_obj(a).ravel()), list(_obj(v).ravel())
    if len(v) > len(a):
        a, v = v, a
    n, m = len(a), len(v)
    full = []
    for i in range(n + m - 1):
        t = 0.0
        for j in range(max(0, i - n + 1), min(m, i + 1)):
            t = t + a[i - j] * v[j]
        full.append(t)
    lo, cnt = dict(full=(0, n + m - 1), same=((m - 1) // 2, n), valid=(m - 1, n - m + 1))[mode]
    return arr(full[lo : lo + cnt])


@impl(np.correlate)
def _f_correlate(a, v, mode='valid'):
    if mode == 'same' or len(v) > len(a):
        raise Unsupported('numpy.correlate')
    return _f_convolve(a, np.conjugate(arr(v))[::-1], mode)


@impl(np.ediff1d)
def _f_ediff1d(a, to_end=None, to_begin=None):
    x = arr(a).ravel()
    p = [x[1:] - x[:-1]]
    if to_begin is not None:
        p.insert(0, arr(to_begin).ravel())
    if to_end is not None:
        p.append(arr(to_end).ravel())
    return np.concatenate(p)


@impl(np.bincount)
def _f_bincount(x, weights=None, minlength=0):
    if has_sym(x):
        raise Unsupported('numpy.bincount of symbolic positions')
    x = np.asarray(x).astype(int)
    n = max(int(minlength), int(x.max()) + 1 if x.size else 0)
    r = [0.0] * n
    for i, w in zip(x, _obj(weights).ravel()):
        r[i] = r[i] + w
    return arr(r)


@impl(np.lib.stride_tricks.sliding_window_view)
def _f_sliding(x, window_shape, axis=None, **k):
    r = np.lib.stride_tricks.sliding_window_view(_obj(x), window_shape, axis)
    return r.copy().view(SymArray)


@impl(np.partition)
def _f_partition(a, kth, axis=-1, **k):
    return _f_sort(a, axis)


@impl(np.lexsort)
def _f_lexsort(keys, axis=-1):
    ix = None
    for q in keys:
        o = arr(q)
        if o.ndim != 1:
            raise Unsupported('numpy.lexsort of arrays')
        if ix is None:
            ix = _f_argsort(o, 0)
        else:
            ix = ix[_f_argsort(o[ix], 0)]
    return ix


@impl(np.median)
def _f_median(a, axis=None, **k):
    s = _f_sort(arr(a).ravel() if axis is None else arr(a), -1 if axis is None else axis)
    n = s.shape[-1 if axis is None else axis]
    s = np.moveaxis(s, -1 if axis is None else axis, 0)
    return (s[(n - 1) // 2] + s[n // 2]) / 2


def _nanfill(a, v):
    o = _obj(a)
    return _ite_vec(_vec(_isnan, 1)(o), _obj(v), o).view(SymArray)


@impl(np.nansum)
def _f_nansum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return np.add.reduce(_nanfill(a, 0.0), axis=axis, keepdims=keepdims is True)


def nancount(a, axis=None, keepdims=False):
    o = _obj(a)
    c = _vec(lambda e: _num(_not(_isnan(e))), 1)(o).view(SymArray)
    return np.add.reduce(c, axis=axis, keepdims=keepdims)


@impl(np.nanmean)
def _f_nanmean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return _f_nansum(a, axis, keepdims=keepdims) / nancount(a, axis, keepdims is True)


@impl(np.nanvar)
def _f_nanvar(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    m = _f_nanmean(a, axis, keepdims=True)
    d = arr(a) - m
    return _f_nansum(d * d, axis, keepdims=keepdims) / (nancount(a, axis, keepdims is True) - ddof)


@impl(np.nanstd)
def _f_nanstd(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return np.sqrt(_f_nanvar(a, axis, ddof=ddof, keepdims=keepdims))


@impl(np.nanmax)
def _f_nanmax(a, axis=None, out=None, keepdims=False, **k):
    return np.fmax.reduce(arr(a), axis=axis, keepdims=keepdims is True)


@impl(np.nanmin)
def _f_nanmin(a, axis=None, out=None, keepdims=False, **k):
    return np.fmin.reduce(arr(a), axis=axis, keepdims=keepdims is True)


@impl(np.nan_to_num)
def _f_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    return _nanfill(x, nan)


@impl(np.clip)
def _f_clip(a, a_min=None, a_max=None, out=None, *, min=None, max=None, **k):
    lo = a_min if a_min is not None and a_min is not np._NoValue else min
    hi = a_max if a_max is not None and a_max is not np._NoValue else max
    r = arr(a)
    if lo is not None and lo is not np._NoValue:
        r = np.maximum(r, lo)
    if hi is not None and hi is not np._NoValue:
        r = np.minimum(r, hi)
    return r


@impl(np.round, np.around)
def _f_round(a, decimals=0, out=None):
    f = 10.0**decimals

    def g(e):
        if not issym(e):
            return np.round(e, decimals)
        return (e * f).rint() / f if decimals else e.rint()

    return wrap(_vec(g, 1)(_obj(a)))


@impl(np.fix)
def _f_fix(a, out=None):
    return np.trunc(arr(a))


@impl(np.cumsum)
def _f_cumsum(a, axis=None, dtype=None, out=None):
    a = arr(a)
    if axis is None:
        a, axis = a.ravel(), 0
    return np.add.accumulate(a, axis=axis)


@impl(np.cumprod)
def _f_cumprod(a, axis=None, dtype=None, out=None):
    a = arr(a)
    if axis is None:
        a, axis = a.ravel(), 0
    return np.multiply.accumulate(a, axis=axis)


@impl(np.real)
def _f_real(a):
    return arr(a).real


@impl(np.imag)
def _f_imag(a):
    return arr(a).imag


def _sort_idx(row):
    import functools

    def cmp(i, j):
        a, b = row[i], row[j]
        if _conc(a, b):
            if a != a:
                return 0 if b != b else 1
            if b != b:
                return -1
            return -1 if a < b else (1 if a > b else 0)
        if bool(_truth(_isnan(a))) or bool(_truth(_isnan(b))):
            raise Unsupported('sorting missing values')
        if bool(a < b):
            return -1
        if bool(b < a):
            return 1
        return 0

    return sorted(range(len(row)), key=functools.cmp_to_key(cmp))


@impl(np.argsort)
def _f_argsort(a, axis=-1, kind=None, order=None, **k):
    o = _obj(a)
    if axis is None:
        o, axis = o.ravel(), 0
    m = np.moveaxis(o, axis, -1)
    r = np.empty(m.shape, dtype=np.int64)
    for i in np.ndindex(m.shape[:-1]):
        r[i] = _sort_idx(list(m[i]))
    return np.moveaxis(r, -1, axis)


@impl(np.sort)
def _f_sort(a, axis=-1, kind=None, order=None, **k):
    o = _obj(a)
    if axis is None:
        o, axis = o.ravel(), 0
    ix = _f_argsort(a, axis)
    return np.take_along_axis(o, ix, axis).view(SymArray)


def _f_argext(a, axis, better):
    o = _obj(a)
    if axis is None:
        o, axis = o.ravel(), 0
    m = np.moveaxis(o, axis, -1)
    r = np.empty(m.shape[:-1], dtype=np.int64)
    for i in np.ndindex(m.shape[:-1]):
        row = list(m[i])
        b = 0
        for j in range(1, len(row)):
            if bool(_truth(better(row[j], row[b]))):
                b = j
        r[i] = b
    return r if r.ndim else np.int64(r[()])


@impl(np.argmax)
def _f_argmax(a, axis=None, out=None, **k):
    return _f_argext(a, axis, lambda x, y: x > y)


@impl(np.argmin)
def _f_argmin(a, axis=None, out=None, **k):
    return _f_argext(a, axis, lambda x, y: x < y)


@impl(np.nanargmax)
def _f_nanargmax(a, axis=None, out=None, **k):
    return _f_argext(a, axis, lambda x, y: _or(_and(_not(_isnan(x)), _isnan(y)), x > y))


@impl(np.nanargmin)
def _f_nanargmin(a, axis=None, out=None, **k):
    return _f_argext(a, axis, lambda x, y: _or(_and(_not(_isnan(x)), _isnan(y)), x < y))


@impl(np.searchsorted)
def _f_searchsorted(a, v, side='left', sorter=None):
    xs = list(_obj(a))
    if sorter is not None:
        xs = [xs[int(i)] for i in sorter]
    vv = _obj(v)
    r = np.empty(vv.shape, dtype=np.int64)
    for i in np.ndindex(vv.shape):
        k = 0
        # linear scan; equal to the binary search on sorted input
        while k < len(xs) and bool(_truth(xs[k] < vv[i] if side == 'left' else xs[k] <= vv[i])):
            k += 1
        r[i] = k
    return r if r.ndim else np.int64(r[()])


@impl(np.digitize)
def _f_digitize(x, bins, right=False):
    return _f_searchsorted(bins, x, 'left' if right else 'right')


@impl(np.interp)
def _f_interp(x, xp, fp, left=None, right=None, period=None):
    xs, fs = list(_obj(xp)), list(_obj(fp))
    vv = _obj(x)
    r = np.empty(vv.shape, dtype=object)
    for i in np.ndindex(vv.shape):
        v = vv[i]
        acc = fs[-1] if right is None else right
        acc = ite(_truth(v <= xs[-1]), fs[-1] if False else acc, acc)
        acc = ite(_truth(v == xs[-1]), fs[-1], acc)
        for k in range(len(xs) - 2, -1, -1):
            seg = fs[k] + (fs[k + 1] - fs[k]) * ((v - xs[k]) / (xs[k + 1] - xs[k]))
            acc = ite(_truth(v < xs[k + 1]), seg, acc)
        acc = ite(_truth(v < xs[0]), fs[0] if left is None else left, acc)
        r[i] = acc
    return wrap(r)


@impl(np.isclose)
def _f_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    x, y = arr(a), arr(b)
    r = np.abs(x - y) <= (atol + rtol * np.abs(y))
    if equal_nan:
        r = r | (np.isnan(x) & np.isnan(y))
    return r


@impl(np.allclose)
def _f_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bool(np.all(arr(_f_isclose(a, b, rtol, atol, equal_nan))))


@impl(np.array_equal)
def _f_array_equal(a, b, equal_nan=False):
    x, y = arr(a), arr(b)
    if x.shape != y.shape:
        return False
    r = arr(x == y)
    if equal_nan:
        r = arr(r | (np.isnan(x) & np.isnan(y)))
    return bool(r.all())


@impl(np.array_equiv)
def _f_array_equiv(a, b):
    return bool(arr(arr(a) == arr(b)).all())


@impl(np.count_nonzero)
def _f_count_nonzero(a, axis=None, keepdims=False):
    o = _vec(lambda e: _num(_truth(e)), 1)(_obj(a)).view(SymArray)
    return np.add.reduce(o, axis=axis, keepdims=keepdims)


@impl(np.nonzero, np.argwhere, np.flatnonzero)
def _f_nonzero(a):
    return _mask_conc(a).nonzero()


FUNCS[np.argwhere] = lambda a: np.argwhere(_mask_conc(a))
FUNCS[np.flatnonzero] = lambda a: np.flatnonzero(_mask_conc(a))


@impl(np.unique)
def _f_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    o = list(_obj(a).ravel())
    ix = _sort_idx(o)
    groups = []
    for i in ix:
        if groups and bool(_truth(o[groups[-1][0]] == o[i])):
            groups[-1].append(i)
        else:
            groups.append([i])
    u = arr([o[g[0]] for g in groups])
    out = [u]
    if return_index:
        out.append(np.array([min(g) for g in groups]))
    if return_inverse:
        inv = np.empty(len(o), dtype=int)
        for n, g in enumerate(groups):
            inv[g] = n
        out.append(inv)
    if return_counts:
        out.append(np.array([len(g) for g in groups]))
    return out[0] if len(out) == 1 else tuple(out)


def _filled(a, fill, dtype, shape):
    """array of the shape (and, without dtype, of the element type) of `a`"""
    shp = np.shape(a) if shape is None else shape
    if dtype is None:
        dt = a.dtype if isinstance(a, np.ndarray) else arr(a).dtype
        if dt == object:
            dt = np.dtype(float)
    else:
        dt = np.dtype(dtype)
    if dt.kind in 'bMmSUO' and not has_sym(fill):
        return np.full(shp, fill, dtype=dt)
    o = np.empty(shp, dtype=object)
    o[...] = _obj(fill)
    if dt.kind in 'iu':
        o = _vec(_to_int, 1)(o)
    elif dt.kind in 'fc':
        o = _vec(lambda e: core.cast(e, complex if dt.kind == 'c' else float), 1)(o)
    return _obj(o).reshape(shp).view(SymArray)


def _like(fill):
    def f(a, dtype=None, order='K', subok=True, shape=None, **k):
        return _filled(a, fill, dtype, shape)

    return f


FUNCS[np.zeros_like] = _like(0.0)
FUNCS[np.ones_like] = _like(1.0)
FUNCS[np.empty_like] = _like(math.nan)


@impl(np.full_like)
def _f_full_like(a, fill_value, dtype=None, order='K', subok=True, shape=None, **k):
    return _filled(a, fill_value, dtype, shape)


def _f_matmul(a, b):
    a, b = _obj(a), _obj(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    return _rewrap(np.matmul(a, b)) if True else None


@impl(np.dot)
def _f_dot(a, b, out=None):
    return _rewrap(np.dot(_obj(a), _obj(b)))


@impl(np.einsum)
def _f_einsum(subs, *ops, out=None, optimize=False, **k):
    """explicit-output einsum by definition."""
    subs = subs.replace(' ', '')
    if '->' in subs:
        ins, o = subs.split('->')
    else:
        ins = subs
        let = [c for c in ins if c.isalpha()]
        o = ''.join(sorted(c for c in set(let) if let.count(c) == 1))
        if '...' in ins:
            o = '...' + o
    ins = ins.split(',')
    ops = [_obj(x) for x in ops]
    if '...' in subs:
        nd = max(x.ndim - len(s.replace('...', '')) for s, x in zip(ins, ops) if '...' in s)
        pool = [c for c in 'ZYXWVUTSRQPONMLKJIHGFEDCBA' if c not in subs][:nd]
        new = []
        for s, x in zip(ins, ops):
            if '...' in s:
                n = x.ndim - len(s.replace('...', ''))
                s = s.replace('...', ''.join(pool[nd - n :]))
            new.append(s)
        ins, o = new, o.replace('...', ''.join(pool))
    size = {}
    for s, x in zip(ins, ops):
        if len(s) != x.ndim:
            raise ValueError('einstein sum subscripts string does not match operand')
        for c, n in zip(s, x.shape):
            if size.setdefault(c, n) not in (n, 1) and n != 1:
                raise ValueError('operands could not be broadcast together in einsum')
            size[c] = max(size[c], n)
    summed = [c for c in size if c not in o]
    res = np.empty(tuple(size[c] for c in o), dtype=object)
    for idx in np.ndindex(res.shape):
        env = dict(zip(o, idx))
        acc = 0.0
        for sidx in itertools.product(*[range(size[c]) for c in summed]):
            env.update(zip(summed, sidx))
            p = None
            for s, x in zip(ins, ops):
                e = x[tuple(env[c] if x.shape[q] != 1 else 0 for q, c in enumerate(s))]
                p = e if p is None else _RAW['multiply'](p, e)
            acc = _RAW['add'](acc, p)
        res[idx] = acc
    return wrap(res)


@impl(np.apply_along_axis)
def _f_apply_along_axis(func1d, axis, a, *args, **kw):
    a = arr(a)
    m = np.moveaxis(a.view(np.ndarray), axis, -1)
    outs = {}
    for i in np.ndindex(m.shape[:-1]):
        outs[i] = func1d(m[i].view(SymArray), *args, **kw)
    first = outs[next(iter(outs))]
    if np.ndim(first) == 0:
        conc = not any(issym(v) for v in outs.values())
        r = np.empty(m.shape[:-1], dtype=np.asarray(first).dtype if conc else object)
        for i, v in outs.items():
            r[i] = v
        return r if conc else r.view(SymArray)
    shp = np.shape(first)
    conc = not any(has_sym(v) for v in outs.values())
    r = np.empty(m.shape[:-1] + shp, dtype=first.dtype if conc else object)
    for i, v in outs.items():
        r[i] = v if conc else _obj(v)
    # inner dims go where axis was
    n = len(shp)
    ax = axis % a.ndim
    r = np.moveaxis(r, list(range(r.ndim - n, r.ndim)), list(range(ax, ax + n)))
    return r if conc else r.view(SymArray)


@impl(np.result_type)
def _f_result_type(*a):
    return np.result_type(*[x.dtype if isinstance(x, SymArray) else (np.dtype(float) if issym(x) else x) for x in a])


@impl(np.can_cast)
def _f_can_cast(a, b, casting='safe'):
    return True


@impl(np.iscomplexobj)
def _f_iscomplexobj(x):
    return arr(x).dtype.kind == 'c'


@impl(np.isrealobj)
def _f_isrealobj(x):
    return arr(x).dtype.kind != 'c'


@impl(np.common_type)
def _f_common_type(*a):
    return np.float64


@impl(np.isin)
def _f_isin(element, test, assume_unique=False, invert=False, **k):
    t = list(_obj(test).ravel())

    def g(e):
        r = False
        for x in t:
            r = _or(r, _RAW['equal'](e, x))
        return _not(r) if invert else r

    return wrapb(_vec(g, 1)(_obj(element)))


@impl(np.isscalar)
def _f_isscalar(x):
    return False


@impl(np.array_repr)
def _f_array_repr(a, *r, **k):
    return repr(a)


@impl(np.array_str, np.array2string)
def _f_array_str(a, *r, **k):
    return repr(a)


def _root(k, n):
    """exp(2 pi i k/n), exact where it is rational"""
    import math

    k %= n
    q = {0: (1.0, 0.0), 3: (0.0, 1.0), 6: (-1.0, 0.0), 9: (0.0, -1.0)}
    if (12 * k) % n == 0:
        j = 12 * k // n
        if j in q:
            return q[j]
        h, s = 0.5, math.sqrt(3) / 2
        return {1: (s, h), 2: (h, s), 4: (-h, s), 5: (-s, h), 7: (-s, -h), 8: (-h, -s), 10: (h, -s), 11: (s, -h)}[j]
    a = 2 * math.pi * k / n
    return math.cos(a), math.sin(a)


def dft(a, n=None, axis=-1, norm=None, inverse=False, half=False, full=None):
    """the definition of the discrete Fourier transform (numpy sign convention)"""
    o = np.moveaxis(_obj(a), axis, 0)
    if full is not None:  # Hermitian spectrum -> full spectrum
        n = full
        rows = [o[k] if k < o.shape[0] else np.zeros(o.shape[1:], dtype=object) for k in range(n // 2 + 1)]
        o = np.empty((n,) + o.shape[1:], dtype=object)
        for k in range(n):
            src = rows[k] if k <= n // 2 else rows[n - k]
            for i in np.ndindex(o.shape[1:]):
                c = SymC.of(src[i])
                if k == 0 or 2 * k == n:
                    c = SymC(c.re, 0.0)
                o[(k,) + i] = c if k <= n // 2 else c.conjugate()
    m = o.shape[0] if n is None else int(n)
    scale = {None: (1 / m if inverse else 1), 'backward': (1 / m if inverse else 1), 'forward': (1 if inverse else 1 / m), 'ortho': m**-0.5}[norm]
    nk = m // 2 + 1 if half else m
    r = np.empty((nk,) + o.shape[1:], dtype=object)
    for i in np.ndindex(o.shape[1:]):
        col = [SymC.of(o[(s,) + i]) for s in range(min(m, o.shape[0]))]
        for k in range(nk):
            re, im = 0.0, 0.0
            for s, c in enumerate(col):
                wr, wi = _root(k * s if inverse else -k * s, m)
                re = re + (_mul(wr, c.re) - _mul(wi, c.im))
                im = im + (_mul(wr, c.im) + _mul(wi, c.re))
            if scale != 1:
                re, im = re * scale, im * scale
            r[(k,) + i] = SymC(re, im)
    return np.moveaxis(r, 0, axis).view(SymArray)


def _mul(w, x):
    if w == 0 or (_conc(x) and x == 0):
        return 0.0
    return x if w == 1 else (-x if w == -1 else x * w)


@impl(np.fft.fft)
def _f_fft(a, n=None, axis=-1, norm=None, out=None):
    return dft(a, n, axis, norm)


@impl(np.fft.ifft)
def _f_ifft(a, n=None, axis=-1, norm=None, out=None):
    return dft(a, n, axis, norm, inverse=True)


@impl(np.fft.rfft)
def _f_rfft(a, n=None, axis=-1, norm=None, out=None):
    return dft(a, n, axis, norm, half=True)


@impl(np.fft.irfft)
def _f_irfft(a, n=None, axis=-1, norm=None, out=None):
    n = 2 * (np.shape(a)[axis] - 1) if n is None else n
    r = dft(a, None, axis, norm, inverse=True, full=n)
    return r.real


@impl(np.linalg.norm)
def _f_norm(x, ord=None, axis=None, keepdims=False):
    x = arr(x)
    return np.sqrt(np.add.reduce(np.abs(x) * np.abs(x), axis=axis, keepdims=keepdims))


def _quant(scale):
    def f(a, q, axis=None, out=None, overwrite_input=False, method='linear', keepdims=False, **k):
        if method != 'linear' or keepdims is True or has_sym(q):
            raise Unsupported('quantile')
        o = arr(a)
        if axis is None:
            o, axis = o.ravel(), 0
        if isinstance(axis, tuple):
            if len(axis) != 1:
                raise Unsupported('quantile over several axes')
            axis = axis[0]
        s = np.moveaxis(_f_sort(o, axis), axis, 0)
        bad = np.isnan(o).any(axis=axis)
        n = s.shape[0]

        def one(p):
            h = float(p) / scale * (n - 1)
            i = min(int(math.floor(h)), n - 1)
            j = min(i + 1, n - 1)
            return np.where(bad, math.nan, s[i] + (s[j] - s[i]) * (h - i))

        return one(q) if np.ndim(q) == 0 else np.stack([one(p) for p in np.asarray(q)])

    return f


FUNCS[np.quantile] = _quant(1)
FUNCS[np.percentile] = _quant(100)


@impl(np.nanmedian, np.nanpercentile, np.nanquantile)
def _f_q(*a, **k):
    raise Unsupported('quantile')


@impl(np.pad)
def _f_pad(array, pad_width, mode='constant', **k):
    if mode not in ('constant', 'edge', 'wrap', 'reflect', 'symmetric'):
        raise Unsupported(f'pad mode {mode}')
    a = arr(array).view(np.ndarray)
    pw = pad_width
    if isinstance(pw, dict):
        pw = [pw.get(i, pw.get(i - a.ndim, (0, 0))) for i in range(a.ndim)]
        pw = [(p, p) if isinstance(p, int) else p for p in pw]
    # pad the index table, then take: no arithmetic happens on the values
    if mode == 'constant':
        cv = k.pop('constant_values', 0)
        if has_sym(cv):
            raise Unsupported('symbolic pad constant')
        t = np.pad(np.arange(a.size).reshape(a.shape), pw, mode='constant', constant_values=-1)
        c = np.pad(np.zeros(a.shape), pw, mode='constant', constant_values=cv)
        fl = a.reshape(-1)
        out = np.empty(t.shape, dtype=object)
        for i in np.ndindex(*t.shape):
            out[i] = fl[t[i]] if t[i] >= 0 else float(c[i])
    else:
        t = np.pad(np.arange(a.size).reshape(a.shape), pw, mode=mode, **k)
        out = a.reshape(-1)[t]
    return out.view(SymArray)


@impl(np.nancumsum)
def _f_nancumsum(a, axis=None, dtype=None, out=None):
    return _f_cumsum(_nanfill(a, 0.0), axis=axis)


@impl(np.nancumprod)
def _f_nancumprod(a, axis=None, dtype=None, out=None):
    return _f_cumprod(_nanfill(a, 1.0), axis=axis)


@impl(np.nanprod)
def _f_nanprod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return _f_prod(_nanfill(a, 1.0), axis=axis, keepdims=keepdims)


@impl(np.linalg.svd)
def _f_svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    """reduced singular value decomposition as an uninterpreted function of the
    (normalised) elements: equal matrices have equal factors, nothing else is
    known about the factors but their range"""
    if full_matrices or not compute_uv:
        raise Unsupported('svd: only reduced factors')
    a = _obj(a)
    m, n = a.shape
    k = min(m, n)
    es = [core.term(e) for e in a.reshape(-1)]
    if any(b is not False for _, b in es):
        raise Unsupported('svd of missing values')
    ts = [z3.simplify(v, som=True) for v, _ in es]
    key = ('svd', m, n) + tuple(t.get_id() for t in ts)
    f = CTX.svd.get(key)
    if f is None:
        f = len(CTX.svd)
        CTX.svd[key] = f
        CTX.svdkeep.append(ts)
    shapes = {'u': (m, k), 's': (k,), 'v': (k, n)}
    if CTX.concolic is not None:
        memo = {}
        num = np.array([float(core.evaluate(t, CTX.concolic, memo)) for t in ts]).reshape(m, n)
        for q, r in zip('usv', np.linalg.svd(num, full_matrices=False)):
            for i in np.ndindex(r.shape):
                CTX.concolic[f'svd{f}{q}' + ''.join(f'_{j}' for j in i)] = float(r[i])
    out = []
    for q, sh in shapes.items():
        r = np.empty(sh, dtype=object)
        for i in np.ndindex(sh):
            nm = f'svd{f}{q}' + ''.join(f'_{j}' for j in i)
            lo, hi = (0, 10000) if q == 's' else (-1, 1)
            if nm not in CTX.vars:
                v = z3.Real(nm)
                CTX.vars[nm] = v
                CTX.bounds[nm] = (lo, hi)
                CTX.base += [v >= lo, v <= hi]
            r[i] = core.Sym(CTX.vars[nm])
        out.append(r.view(SymArray))
    return tuple(out)
