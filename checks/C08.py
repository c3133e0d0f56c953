"""Pressure at hybrid levels and hybrid layer thickness."""
import numpy as np
import xarray as xr

import geocat.comp as gc
from symx.harness import Case

ID = 'C08'
PROP = dict(
    title='Hybrid-level pressure and layer thickness follow p = A*p0 + B*ps everywhere',
    statement=(
        'For every surface pressure field, coefficient pair and reference pressure, the pressure at level k and every point is A[k]*p0 + B[k]*ps, and the hybrid layer '
        'thickness is the absolute difference of that pressure between consecutive interfaces, so for pressures increasing downward the thicknesses sum to the '
        'bottom minus top interface pressure; the thickness never depends on coordinate labels carried by the inputs. Both return '
        'the container type of the surface pressure with the level axis leading, and reject other types, mismatched coefficient lengths, and (for the thickness) '
        'non-scalar reference pressures.'
    ),
    quantifier=dict(over=['inputs'], text='all real ps, A, B, p0; 2 to 33 levels; numpy/DataArray/mixed containers; with and without level coordinates'),
    why_tests_cant='Tests use one model file; label alignment and container mixtures change which values are combined without changing shapes.',
    anchors=dict(
        files=['geocat/comp/interpolation.py'],
        mechanism=[dict(name='pressure_at_hybrid_levels', where='geocat/comp/interpolation.py'), dict(name='delta_pressure_hybrid', where='geocat/comp/interpolation.py')],
    ),
)
FUNCS = ['geocat.comp.interpolation.pressure_at_hybrid_levels', 'geocat.comp.interpolation.delta_pressure_hybrid', 'xarray arithmetic/alignment (executed)']
BOUNDS = 'ps of one to three axes of up to 3 points, reals in [1,120000]; A, B in [0,1] reals, 2..4 (and 7) levels, any of them missing; up to 33 levels and 20 points with fixed numbers but one surface pressure and one level; coefficients varying with time; p0 in [1,200000]'
OUTSIDE = 'dask inputs (C25), rounding'


def _in(env, n, shape):
    return env.array('ps', shape, 1, 120000), env.array('a', n, 0, 1), env.array('b', n, 0, 1)


def p_at(a, b, p0, ps):
    return a * p0 + b * ps


def h_p(kind, n, shape, p0sym):
    def h(env):
        ps, a, b = _in(env, n, shape)
        p0 = env.real('p0', 1, 200000) if p0sym else 100000.0
        kw = {'p0': p0} if p0sym else {}
        want = [p_at(a[k], b[k], p0, e) for k in range(n) for e in env.flat(ps)]
        if kind == 'np':
            got = gc.pressure_at_hybrid_levels(ps, a, b, **kw)
            env.same('shape', tuple(np.shape(got)), (n,) + tuple(ps.shape))
        else:
            dims = ('lat', 'lon', 'mem')[: ps.ndim]
            crd = {'lat': [10.0, 20.0][: ps.shape[0]]}
            A = xr.DataArray(a, dims='lev', coords={'lev': list(range(n))} if kind != 'xr-nolev' else None)
            B = xr.DataArray(b, dims='ilev' if kind == 'xr-rename' else 'lev')
            got = gc.pressure_at_hybrid_levels(xr.DataArray(ps, dims=dims, coords=crd), A, B, **kw)
            env.same('type', isinstance(got, xr.DataArray), True)
            env.same('dims', got.dims, ('lev',) + dims)
            env.same('lat', list(got['lat'].values), crd['lat'])
        env.close('pressure', got, want, 1e-10, 1e-7)

    return h


def h_d(kind, n, shape, p0sym=True):
    def h(env):
        ps, a, b = _in(env, n, shape)
        p0 = 100000.0
        kw = {}
        want = []
        for k in range(n - 1):
            for e in env.flat(ps):
                want.append(abs(p_at(a[k + 1], b[k + 1], p0, e) - p_at(a[k], b[k], p0, e)))
        dims = (('dim_0', 'dim_1', 'dim_2') if kind.endswith('bare') else ('lat', 'lon', 'mem'))[: ps.ndim]
        P = ps if kind.startswith('np') else xr.DataArray(ps, dims=dims, coords={dims[0]: [10.0, 20.0][: ps.shape[0]]} if dims else None, attrs={'units': 'x', 'z': 1})
        A, B = a, b
        if kind in ('np-xr', 'xr', 'xr-lev', 'xr-lev2', 'xr-two', 'xr-rename', 'xr-blev'):
            ca = {'lev': [5.0 * i for i in range(n)]} if kind in ('xr-lev', 'xr-lev2') else None
            cb = {'lev': [5.0 * i for i in range(n)]} if kind in ('xr-lev', 'xr-blev') else None
            if kind == 'xr-lev2':
                cb = {'lev': [7.0 * i for i in range(n)]}
            if kind == 'xr-two':
                # a second coordinate listed before the dimension coordinate
                ca = {'aux': ('lev', list(range(n))), 'lev': [5.0 * i for i in range(n)]}
                cb = dict(ca)
            A = xr.DataArray(a, dims='lev', coords=ca)
            B = xr.DataArray(b, dims='ilev' if kind == 'xr-rename' else 'lev', coords=cb)
        got = gc.delta_pressure_hybrid(P, A, B, **kw)
        env.same('type', isinstance(got, xr.DataArray), not kind.startswith('np'))
        if isinstance(got, xr.DataArray):
            env.same('ndim', got.ndim, ps.ndim + 1)
            env.same('level-leads', (got.dims[0] in dims, got.dims[1:]), (False, dims))
            env.same('units', got.attrs.get('units'), 'Pa')
        env.same('shape', tuple(got.shape), (n - 1,) + tuple(ps.shape))
        env.close('thickness', got, want, 1e-10, 1e-7)
        g = env.flat(got)
        m = ps.size
        for j, e in enumerate(env.flat(ps)):
            mono = env.And(*[p_at(a[k + 1], b[k + 1], p0, e) >= p_at(a[k], b[k], p0, e) for k in range(n - 1)])
            tot = sum(g[k * m + j] for k in range(n - 1))
            d = tot - (p_at(a[n - 1], b[n - 1], p0, e) - p_at(a[0], b[0], p0, e))
            env.check('sums-to-column', env.Implies(mono, abs(d) <= 1e-5))

    return h


def h_p0(env):
    ps, a, b = _in(env, 2, (1, 2))
    for p0 in (1000.0, 50000):
        got = gc.delta_pressure_hybrid(ps, a, b, p0=p0)
        env.close('p0', got, [abs((a[1] - a[0]) * p0 + (b[1] - b[0]) * e) for e in env.flat(ps)], 1e-10, 1e-7)


def h_missing(env):
    """a missing surface pressure or coefficient makes exactly its own points missing"""
    ps, a, b = env.array('ps', (1, 2), 1, 120000, nan=True), env.array('a', 3, 0, 1, nan=True), env.array('b', 3, 0, 1, nan=True)
    P = [[p_at(a[k], b[k], 100000.0, e) for e in env.flat(ps)] for k in range(3)]
    D = [abs(P[k + 1][j] - P[k][j]) for k in range(2) for j in range(2)]
    X = lambda v, d: xr.DataArray(v, dims=d)
    xs = X(ps, ('y', 'x')), X(a, 'lev'), X(b, 'lev')
    env.close('pressure-np', gc.pressure_at_hybrid_levels(ps, a, b), P[0] + P[1] + P[2], 1e-10, 1e-7)
    env.close('pressure-xr', gc.pressure_at_hybrid_levels(*xs), P[0] + P[1] + P[2], 1e-10, 1e-7)
    env.close('thickness-np', gc.delta_pressure_hybrid(ps, a, b), D, 1e-10, 1e-7)
    env.close('thickness-xr', gc.delta_pressure_hybrid(*xs), D, 1e-10, 1e-7)


def h_scalar(env):
    """one surface pressure"""
    ps, a, b = env.real('ps', 1, 120000), env.array('a', 3, 0, 1), env.array('b', 3, 0, 1)
    P = [p_at(a[k], b[k], 100000.0, ps) for k in range(3)]
    D = [abs(P[k + 1] - P[k]) for k in range(2)]
    s = env.mkarray([ps]).reshape(())
    X = xr.DataArray
    A, B = X(a, dims='lev', coords={'lev': [3, 4, 5]}), X(b, dims='lev', coords={'lev': [3, 4, 5]})
    got = gc.pressure_at_hybrid_levels(X(s), A, B)
    env.same('dims', (got.dims, got['lev'].values.tolist()), (('lev',), [3, 4, 5]))
    env.close('pressure-xr', got, P, 1e-10, 1e-7)
    env.close('pressure-np', gc.pressure_at_hybrid_levels(s, a, b), P, 1e-10, 1e-7)
    env.close('thickness-xr', gc.delta_pressure_hybrid(X(s), A, B), D, 1e-10, 1e-7)
    env.close('thickness-mixed', gc.delta_pressure_hybrid(X(s), a, b), D, 1e-10, 1e-7)
    env.close('thickness-np', gc.delta_pressure_hybrid(s, a, b), D, 1e-10, 1e-7)


def h_varying(env):
    """coefficients that vary along a dimension of the surface pressure"""
    ps, a, b = env.array('ps', (2, 2), 1, 120000), env.array('a', (2, 2), 0, 1), env.array('b', (2, 2), 0, 1)
    X = lambda v, *d: xr.DataArray(v, dims=d)
    got = gc.pressure_at_hybrid_levels(X(ps, 'time', 'x'), X(a, 'time', 'lev'), X(b, 'time', 'lev')).transpose('time', 'lev', 'x')
    env.close('pressure', got, [a[t, k] * 100000.0 + b[t, k] * ps[t, i] for t in range(2) for k in range(2) for i in range(2)], 1e-10, 1e-7)


def h_big(n, shape, kind):
    """many levels and points: fixed numbers but for one surface pressure and one level"""

    def h(env):
        A = [round(0.2 * (k / n) * (1 - k / n) + 0.002, 4) for k in range(n)]
        B = [round((k / (n - 1)) ** 2, 4) for k in range(n)]
        A[n // 2], B[n // 2] = env.real('a', 0, 1), env.real('b', 0, 1)
        m = int(np.prod(shape))
        v = [100000.0 - 250.0 * ((7 * i) % 16) for i in range(m)]
        v[m - 2] = env.real('ps', 1, 120000)
        a, b, ps = env.mkarray(A), env.mkarray(B), env.mkarray(v, shape)
        P = [[p_at(A[k], B[k], 100000.0, e) for e in v] for k in range(n)]
        D = [abs(P[k + 1][j] - P[k][j]) for k in range(n - 1) for j in range(m)]
        if kind == 'xr':
            a, b = [xr.DataArray(q, dims='lev', coords={'lev': np.arange(n) * 30.0}) for q in (a, b)]
            ps = xr.DataArray(ps, dims=('time', 'lat', 'lon')[: ps.ndim])
        env.close('pressure', gc.pressure_at_hybrid_levels(ps, a, b), [q for r in P for q in r], 1e-10, 1e-7)
        env.close('thickness', gc.delta_pressure_hybrid(ps, a, b), D, 1e-10, 1e-7)

    return h


def h_attrs(env):
    """the thickness describes itself and nothing else"""
    ps, a, b = _in(env, 2, (1, 2))
    X = lambda v, d, n: xr.DataArray(v, dims=d, name=n, attrs={'units': '1', 'long_name': n, n: 1})
    for nm, A, B in (('xr', X(a, 'lev', 'a'), X(b, 'lev', 'b')), ('np', a, b)):
        got = gc.delta_pressure_hybrid(X(ps, ('y', 'x'), 'ps'), A, B)
        env.same(nm, (got.name, dict(got.attrs)), ('dph', {'long_name': 'pressure layer thickness', 'units': 'Pa'}))


def h_reject(env):
    ps, a, b = _in(env, 3, (1, 2))
    X = lambda v, d: xr.DataArray(v, dims=d)
    f, g = gc.pressure_at_hybrid_levels, gc.delta_pressure_hybrid
    env.raises('types', TypeError, lambda: f(list(ps), a, b))
    env.raises('types', TypeError, lambda: f(ps, X(a, 'lev'), X(b, 'lev')))
    env.raises('types', TypeError, lambda: f(X(ps, ('y', 'x')), a, b))
    env.raises('lengths', ValueError, lambda: f(ps, a, b[:2]))
    env.raises('lengths', ValueError, lambda: f(X(ps, ('y', 'x')), X(a, 'lev'), X(b[:2], 'lev')))
    env.raises('types', TypeError, lambda: g(list(ps), a, b))
    env.raises('types', TypeError, lambda: g(ps, X(a, 'lev'), b))
    env.raises('lengths', ValueError, lambda: g(ps, a, b[:2]))
    # coefficients of different lengths are refused even where numpy would broadcast them
    for nm, q in (('f', f), ('g', g)):
        env.raises(f'one-{nm}', ValueError, lambda q=q: q(ps, a, b[:1]))
        env.raises(f'one-{nm}', ValueError, lambda q=q: q(ps, a[:1], b))
        env.raises(f'one-xr-{nm}', ValueError, lambda q=q: q(X(ps, ('y', 'x')), X(a, 'lev'), X(b[:1], 'lev')))
        env.raises(f'2d-{nm}', ValueError, lambda q=q: q(ps, ps, ps))
        env.raises(f'2d-col-{nm}', ValueError, lambda q=q: q(ps, a.reshape(3, 1), b.reshape(3, 1)))
    env.raises('2d-xr', ValueError, lambda: g(X(ps, ('y', 'x')), X(ps, ('lev', 'x')), X(ps, ('lev', 'x'))))
    env.raises('p0', TypeError, lambda: g(ps, a, b, p0=np.array([1.0, 2.0])))
    env.raises('p0', TypeError, lambda: g(ps, a, b, p0='1000'))


INTS = {'pressure-np-2': ('ps',), 'thickness-xr-3': ('ps',)}  # cases repeated with integer input


def cases(tier):
    cs = []
    ns = (2, 3) if tier == 'quick' else (2, 3, 4)
    for n in ns:
        for k in ('np', 'xr', 'xr-nolev', 'xr-rename'):
            cs.append(Case(f'pressure-{k}-{n}', h_p(k, n, (2, 2), True)))
        for k in ('np', 'np-xr', 'xr', 'xr-np', 'xr-lev', 'xr-lev2', 'xr-two', 'xr-blev', 'xr-rename'):
            cs.append(Case(f'thickness-{k}-{n}', h_d(k, n, (1, 2) if n == 2 else (2, 2)), weight=2))
    cs += [Case('pressure-default-p0', h_p('np', 2, (1, 2), False)), Case('pressure-xr-1d', h_p('xr', 3, (2,), True))]
    # shapes in which an axis of the surface pressure is as long as the coefficients
    for s in ((2,), (3,), (2, 3), (3, 2), (2, 2, 1), (2, 1, 2), (3, 1, 2)):
        nm = 'x'.join(map(str, s))
        for n in (2, 3):
            cs.append(Case(f'pressure-np-{nm}-{n}', h_p('np', n, s, True)))
            for k in ('np', 'np-xr', 'xr-np', 'xr-np-bare'):
                if s[0] < 3 or 'xr-np' not in k:
                    cs.append(Case(f'thickness-{k}-{nm}-{n}', h_d(k, n, s), weight=2))
    cs += [Case('pressure-xr-3d', h_p('xr', 2, (2, 2, 1), True)), Case('pressure-long', h_p('np', 7, (1, 2), True)), Case('thickness-long', h_d('np', 7, (1, 2)))]
    cs += [Case('missing', h_missing), Case('scalar', h_scalar), Case('varying', h_varying)]
    cs += [Case('big-np', h_big(33, (2, 3), 'np'), weight=3), Case('big-xr', h_big(27, (2, 2, 2), 'xr'), weight=3), Case('big-1d', h_big(8, (20,), 'np'), weight=3)]
    cs += [Case('thickness-p0', h_p0), Case('thickness-attrs', h_attrs, novectors=True), Case('reject', h_reject, novectors=True)]
    return cs
