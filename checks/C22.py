"""Pearson correlation (pearson_r)."""
import warnings

import numpy as np
import xarray as xr

from geocat.comp.stats import pearson_r
from symx.harness import Case
from ._util import NAN

ID = 'C22'
PROP = dict(
    title='pearson_r is the weighted correlation along the chosen axis for every input',
    statement=(
        'For all real a and b of the same shape and non-negative weights, pearson_r is sum w (a - mean a)(b - mean b) / sqrt(sum w (a - mean a)^2 sum w (b - mean b)^2), limited to [-1, 1], with weighted means, over all elements or along the chosen axis or dimension. '
        'With skipna a pair counts only if neither of its two values is missing; without it a missing value makes that result missing, and no other. '
        'Arrays, nested lists, DataArrays and Datasets give the same numbers; weights may have the shape of the data or one value per point along the axis; a keyword of the other kind of input is warned about.'
    ),
    quantifier=dict(over=['inputs'], text='all real a, b and weights up to 2 x 3 x 2 with fixed patterns of missing values; shapes, axes, container types and forms of the weights enumerated'),
    why_tests_cant='One random pair of fields is compared with stored numbers; weights per point along an axis, lists, Datasets and gaps in both fields are not seen.',
    anchors=dict(files=['geocat/comp/stats.py'], mechanism=[dict(name='pearson_r', where='geocat/comp/stats.py')]),
)
FUNCS = ['geocat.comp.stats.pearson_r', 'xskillscore.core.np_deterministic._pearson_r', 'xskillscore.core.deterministic.pearson_r']
BOUNDS = 'a, b in [-100,100], weights in [0,10] (xarray inputs: the second is the largest and 10; 2 x 2: one is free) with at least one above 0.1 along every reduced line, variances above 0.01; up to 12 elements, and up to 126 with one or two points symbolic and the others fixed numbers'
OUTSIDE = 'constant fields; weights of a wrong shape or sign (reported by a printed message and None); a mixture of arrays and xarray objects; missing weights; rounding'


def corr(env, a, b, w, skipna):
    pts = list(zip(a, b, w))
    isn = lambda x: isinstance(x, float) and x != x
    bad = [isn(x) or isn(y) for x, y, _ in pts]
    if any(bad):
        if not skipna:
            return NAN
        pts = [p for p, q in zip(pts, bad) if not q]
        if not pts:
            return NAN
    sw = sum(p[2] for p in pts)
    ma = sum(p[0] * p[2] for p in pts) / sw
    mb = sum(p[1] * p[2] for p in pts) / sw
    num = sum((x - ma) * (y - mb) * v for x, y, v in pts)
    va = sum((x - ma) * (x - ma) * v for x, y, v in pts)
    vb = sum((y - mb) * (y - mb) * v for x, y, v in pts)
    env.assume(va > 0.01)
    env.assume(vb > 0.01)
    r = num / env.sqrt(va * vb)
    return env.fmin(env.fmax(r, -1.0), 1.0)


def h(shape, axis=None, kind='np', wts=None, skipna=None, gaps=((), ()), dims=None, wdims=None, free=None):
    """free: the elements that are not fixed numbers; wts: None, 'full' or '1d'; kind: np, list, da, ds; wdims: order of the weights' dimensions"""

    def f(env):
        n = int(np.prod(shape))
        put = lambda v, g: env.mkarray([NAN if i in g else e for i, e in enumerate(env.flat(v))], shape) if g else v
        a = put(env.array('a', shape, -100, 100), gaps[0])
        b = put(env.array('b', shape, -100, 100), gaps[1])
        if free is not None:
            fix = lambda v, p, q: env.mkarray([e if i in free or i in gaps[0] or i in gaps[1] else float((p * i * i + i) % q - 4) for i, e in enumerate(env.flat(v))], shape)
            a, b = fix(a, 5, 11), fix(b, 3, 13)
        full = None
        def weights(sh):
            if free is not None:
                return np.array([2.0 ** (7 * i % 3) for i in range(int(np.prod(sh)))]).reshape(sh)
            if kind in ('np', 'list'):
                return env.array('w', sh, 0, 10)
            # xarray inputs: xskillscore divides the weights by the largest, here the second
            e = env.flat(env.array('w', sh, 0, 9.9))
            e[1] = 10.0
            if sh == (2, 2):
                e[2:] = [2.5, 7.0]
            return env.mkarray(e, sh)

        if wts == 'full':
            w = weights(shape)
            full = w
        elif wts == '1d':
            w = weights((shape[axis],))
            full = np.moveaxis(np.broadcast_to(w, np.moveaxis(np.empty(shape), axis, -1).shape), -1, axis)
        A, B = env.flat(a), env.flat(b)
        W = env.flat(full) if wts else [1.0] * n
        ix = np.arange(n).reshape(shape)
        lines = [list(range(n))] if axis is None else [[int(q) for q in L] for L in np.moveaxis(ix, axis, -1).reshape(-1, shape[axis])]
        for L in lines:
            env.assume(sum(W[i] for i in L if not any(isinstance(v, float) and v != v for v in (A[i], B[i]))) > 0.1)
        wants = lambda: [corr(env, [A[i] for i in L], [B[i] for i in L], [W[i] for i in L], skipna) for L in lines]
        kw = {} if skipna is None else {'skipna': skipna}
        dims_ = dims or ('x', 'y', 'z')[: len(shape)]
        if kind in ('np', 'list'):
            conv = (lambda v: v) if kind == 'np' else (lambda v: env.flat(v) if len(shape) == 1 else [env.flat(r) for r in v])
            if axis is not None:
                kw['axis'] = axis
            if wts:
                kw['weights'] = conv(w) if wts == 'full' else (w if kind == 'np' else env.flat(w))
            got = pearson_r(conv(a), conv(b), **kw)
            wants_ = wants()
        else:
            c = {dims_[0]: [3.0 * q for q in range(shape[0])]}
            X = lambda v, nm: xr.DataArray(v, dims=dims_, coords=c, name=nm, attrs={'units': nm})
            a, b = X(a, 'a'), X(b, 'b')
            if axis is not None:
                kw['dim'] = dims_[axis]
            if wts == 'full':
                kw['weights'] = X(w, 'w')
                if wdims:
                    kw['weights'] = kw['weights'].transpose(*wdims)
            elif wts:
                kw['weights'] = xr.DataArray(w, dims=(dims_[axis],), coords={k: v for k, v in c.items() if k == dims_[axis]})
            if kind == 'ds':
                # the second variable is b against a
                a, b = xr.Dataset({'p': a, 'q': b}), xr.Dataset({'p': b, 'q': a})
            got = pearson_r(a, b, **kw)
            keep = pearson_r(a, b, keep_attrs=True, **kw)
            wants_ = wants()
            env.same('type', type(got), type(a))
            if kind == 'ds':
                env.close('swapped', got['q'], wants_, 1e-9, 1e-9)
                got, keep, a = got['p'], keep['p'], a['p']
            env.same('dims', got.dims, () if axis is None else tuple(d for d in dims_ if d != dims_[axis]))
            if axis:
                env.same('coords', got[dims_[0]].values.tolist(), c[dims_[0]])
            env.same('attrs', got.attrs, {})
            env.same('kept-attrs', keep.attrs, a.attrs)
        env.same('shape', tuple(np.shape(got)), tuple(np.delete(shape, axis)) if axis is not None else ())
        env.close('r', got, wants_, 1e-9, 1e-9)

    return f


def h_dims(shape, dims, dim, bdims=None, wdims=None, kind='da', skipna=False, gaps=((), ())):
    """DataArrays reduced over several dimensions, given in any order; b and the
    weights may have their dimensions in another order"""

    def f(env):
        n = int(np.prod(shape))
        put = lambda v, g: env.mkarray([NAN if i in g else e for i, e in enumerate(env.flat(v))], shape)
        a, b = put(env.array('a', shape, -100, 100), gaps[0]), put(env.array('b', shape, -100, 100), gaps[1])
        c = {d: [3.0 * q + k for q in range(m)] for k, (d, m) in enumerate(zip(dims, shape))}
        X = lambda v: xr.DataArray(v, dims=dims, coords=c)
        da, db = X(a), X(b)
        if bdims:
            db = db.transpose(*bdims)
        kw = {}
        W = np.array([1.0 + (7 * i % 5) for i in range(n)]).reshape(shape)
        if wdims:
            # weights for the reduced dimensions only, as documented
            ix = tuple(slice(None) if d in wdims else 0 for d in dims)
            keep = [d for d in dims if d in wdims]
            kw['weights'] = xr.DataArray(W[ix], dims=keep, coords={d: c[d] for d in keep}).transpose(*wdims)
            W = np.broadcast_to(W[tuple(slice(None) if d in wdims else slice(1) for d in dims)], shape)
        else:
            W = np.ones(shape)
        if kind == 'ds':
            da, db = xr.Dataset({'p': da}), xr.Dataset({'p': db})
        got = pearson_r(da, db, dim=dim, skipna=skipna, **kw)
        if kind == 'ds':
            got = got['p']
        red = dims if dim is None else (dim,) if isinstance(dim, str) else tuple(dim)
        rest = tuple(d for d in dims if d not in red)
        env.same('dims', got.dims, rest)
        A, B = env.flat(a), env.flat(b)
        lines = {}
        for i, ix in enumerate(np.ndindex(shape)):
            lines.setdefault(tuple(q for q, d in zip(ix, dims) if d not in red), []).append(i)
        W = W.reshape(-1)
        env.close('r', got, [corr(env, [A[i] for i in L], [B[i] for i in L], [float(W[i]) for i in L], skipna) for L in lines.values()], 1e-9, 1e-9)
        for d in rest:
            env.same('coord ' + d, got[d].values.tolist(), c[d])

    return f


def h_layout(shape, axis, which):
    """the memory layout of the arrays (transposed views) does not matter"""

    def f(env):
        n = int(np.prod(shape))
        a, b = env.array('a', shape, -100, 100), env.array('b', shape, -100, 100)
        w = env.mkarray([2.0 + (3 * i % 4) for i in range(n)], shape)
        # same elements at the same index, stored in transposed order
        tr = lambda v: env.mkarray([v.T[i] for i in np.ndindex(v.T.shape)], v.T.shape).T
        A, B, Wt = env.flat(a), env.flat(b), env.flat(w)
        ix = np.arange(n).reshape(shape)
        lines = [list(range(n))] if axis is None else [[int(q) for q in L] for L in np.moveaxis(ix, axis, -1).reshape(-1, shape[axis])]
        got = pearson_r(tr(a) if 'a' in which else a, tr(b) if 'b' in which else b, axis=axis, weights=tr(w) if 'w' in which else w)
        env.close('r', got, [corr(env, [A[i] for i in L], [B[i] for i in L], [Wt[i] for i in L], False) for L in lines], 1e-9, 1e-9)

    return f


def h_warn(env):
    a, b = env.array('a', (2, 2), -1, 1), env.array('b', (2, 2), -1, 1)
    X = lambda v: xr.DataArray(v, dims=('x', 'y'))
    A, B = env.flat(a), env.flat(b)
    for i in range(2):
        env.assume(env.Or(A[i] > A[i + 2] + 0.5, A[i] + 0.5 < A[i + 2]))
        env.assume(env.Or(B[i] > B[i + 2] + 0.5, B[i] + 0.5 < B[i + 2]))

    def warned(f):
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            r = f()
        return r, any(w.category is UserWarning for w in rec)

    r1, w1 = warned(lambda: pearson_r(a, b, axis=0))
    r2, w2 = warned(lambda: pearson_r(a, b, axis=0, dim='x'))
    env.same('np', (w1, w2), (False, True))
    env.close('np', r2, env.flat(r1), 1e-9, 1e-9)
    r1, w1 = warned(lambda: pearson_r(X(a), X(b), dim='x'))
    r2, w2 = warned(lambda: pearson_r(X(a), X(b), dim='x', axis=1))
    env.same('da', (w1, w2), (False, True))
    env.close('da', r2, env.flat(r1), 1e-9, 1e-9)


INTS = {'np-1d': ('a', 'b'), 'np-weights': ('a', 'b'), 'np-weights-1d': ('a', 'b'), 'da-weights': ('a', 'b'), 'list-weights': ('a', 'b')}  # cases repeated with integer input


def cases(tier):
    g = ((1, 3), (3, 4))
    cs = []
    for k in ('np', 'list', 'da', 'ds'):
        cs += [
            Case(f'{k}-1d', h((3,), kind=k)),
            Case(f'{k}-all', h((2, 2), kind=k)),
            Case(f'{k}-axis0', h((3, 2), axis=0, kind=k)),
            Case(f'{k}-axis1', h((2, 3), axis=1, kind=k)),
            Case(f'{k}-weights', h((2, 2), kind=k, wts='full')),
            Case(f'{k}-weights-1d', h((2, 3), axis=1, kind=k, wts='1d')),
            Case(f'{k}-weights-1d-0', h((3, 2), axis=0, kind=k, wts='1d')),
            Case(f'{k}-skipna', h((2, 4), axis=1, kind=k, skipna=True, gaps=g)),
            Case(f'{k}-skipna-all', h((2, 3), kind=k, skipna=True, gaps=g)),
            Case(f'{k}-nan', h((2, 3), axis=1, kind=k, skipna=False, gaps=((1,), ()))),
            Case(f'{k}-nan-default', h((3, 2), axis=0, kind=k, gaps=((), (0,)))),
            Case(f'{k}-weights-skipna', h((2, 3), kind=k, wts='full', skipna=True, gaps=g)),
            Case(f'{k}-weights-skipna-1d', h((2, 4), axis=1, kind=k, wts='1d', skipna=True, gaps=g)),
        ]
    for k in ('np', 'da'):
        cs += [
            Case(f'{k}-3d', h((2, 3, 2), axis=1, kind=k)),
            Case(f'{k}-3d-last', h((2, 2, 3), axis=2, kind=k, wts='1d')),
            Case(f'{k}-3d-first', h((3, 2, 2), axis=0, kind=k, wts='1d')),
            Case(f'{k}-square-1d', h((2, 2), axis=0, kind=k, wts='1d')),
            Case(f'{k}-square-1d-1', h((2, 2), axis=1, kind=k, wts='1d')),
        ]
    cs += [
        Case('np-weights-axis', h((2, 3), axis=1, wts='full')),
        Case('list-weights-axis', h((3, 2), axis=0, kind='list', wts='full')),
        Case('np-weights-skipna-axis', h((2, 4), axis=1, wts='full', skipna=True, gaps=g)),
        Case('np-neg-axis', h((2, 3), axis=-1, wts='1d')),
        Case('da-weights-order', h((2, 2), kind='da', wts='full', wdims=('y', 'x'))),
        Case('da-dims-2of3', h_dims((2, 2, 2), ('x', 'y', 'z'), ['x', 'z'])),
        Case('da-dims-order', h_dims((2, 2, 2), ('x', 'y', 'z'), ['z', 'y'])),
        Case('da-dims-list1', h_dims((2, 3), ('x', 'y'), ['y'])),
        Case('da-dims-other-order', h_dims((2, 3), ('x', 'y'), 'y', bdims=('y', 'x'))),
        Case('da-dims-other-order-square', h_dims((2, 2), ('x', 'y'), None, bdims=('y', 'x'))),
        Case('da-dims-other-order-3d', h_dims((2, 2, 2), ('x', 'y', 'z'), ['x', 'y'], bdims=('z', 'y', 'x'))),
        Case('da-dims-weights', h_dims((2, 2, 2), ('x', 'y', 'z'), ['x', 'z'], wdims=('x', 'z'))),
        Case('da-dims-weights-order', h_dims((2, 2, 2), ('x', 'y', 'z'), ['x', 'y'], wdims=('y', 'x'))),
        Case('da-dims-skipna', h_dims((2, 2, 3), ('x', 'y', 'z'), ['y', 'z'], skipna=True, gaps=((1, 7), (2,)))),
        Case('ds-dims', h_dims((2, 2, 2), ('x', 'y', 'z'), ['x', 'z'], kind='ds')),
        Case('np-layout-b', h_layout((2, 3), None, 'b')),
        Case('np-layout-a', h_layout((2, 2), None, 'a')),
        Case('np-layout-w', h_layout((2, 2), None, 'w')),
        Case('np-layout-axis', h_layout((2, 3), 1, 'bw')),
        Case('np-40', h((40,), free=(7,))),
        Case('np-weights-40', h((40,), wts='full', free=(33,), skipna=True, gaps=((4, 11), (20,)))),
        Case('list-12x9', h((12, 9), axis=0, kind='list', free=(50,))),
        Case('da-weights-9x14', h((9, 14), axis=1, kind='da', wts='1d', free=(20, 100))),
        Case('da-all-5x4x6', h((5, 4, 6), kind='da', free=(64,), skipna=True, gaps=((3, 70), (119,)))),
        Case('ds-7x5', h((7, 5), axis=0, kind='ds', wts='1d', free=(12,))),
        Case('warn', h_warn),
    ]
    if tier == 'thorough':
        for k in ('np', 'da', 'ds'):
            cs += [
                Case(f'{k}-6', h((6,), kind=k), weight=5),
                Case(f'{k}-3x3', h((3, 3), kind=k, skipna=True, gaps=((0, 4), (8,))), weight=5),
                Case(f'{k}-2x2x3', h((2, 2, 3), axis=2, kind=k, wts='1d'), weight=5),
            ]
    return cs
