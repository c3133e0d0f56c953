"""Dew point temperature."""
import numpy as np
import xarray as xr

import geocat.comp as gc
from symx.harness import Case
from ._util import many

ID = 'C02'
PROP = dict(
    title='Dew point follows Dutton\'s formula and never exceeds the air temperature',
    statement=(
        'For every temperature in [150, 350] K and relative humidity in (0, 100] %, the dew point returned for each element equals '
        'T*L/(L - T*ln(RH/100)) with L = (597.3 - 0.57*(T-273))/(461.5/(1000*4.186)), is never above T, equals T at 100 % and grows with humidity. '
        'Elements with a missing input are missing. The result is elementwise, has the shape of the inputs for scalars, lists, ndarrays and DataArrays (DataArrays keep dims and coords and gain '
        'units "Kelvin"), and inputs of different shapes are rejected with ValueError and DataArray/non-DataArray mixtures with TypeError.'
    ),
    quantifier=dict(over=['inputs'], text='every real temperature/humidity in range, every container type, arrays up to 2x2'),
    why_tests_cant='The tests compare a few tabulated temperatures and humidities; the formula, the bound and monotonicity are claims about every input pair.',
    anchors=dict(
        files=['geocat/comp/meteorology.py'],
        mechanism=[dict(name='dewtemp', where='geocat/comp/meteorology.py'), dict(name='_dewtemp', where='geocat/comp/meteorology.py')],
    ),
)
FUNCS = ['geocat.comp.meteorology.dewtemp', 'geocat.comp.meteorology._dewtemp']
BOUNDS = 'T in [150,350] K, RH in [0.001,100] %, all reals; scalar, list of 2, ndarray (2,), (2,2), DataArray (2,); any element missing: ndarray (2,), DataArray (2,), scalar; arrays and lists of 18 to 130 elements in up to 4 dimensions with one element symbolic'
OUTSIDE = 'RH <= 0, rounding'

GCX = 461.5 / (1000 * 4.186)


def spec(env, t, r):
    L = (597.3 - 0.57 * (t - 273)) / GCX
    return t * L / (L - t * env.log(r * 0.01))


def _in(env, shape):
    return env.array('t', shape, 150, 350), env.array('rh', shape, 0.001, 100)


def h_np(shape):
    def h(env):
        t, r = _in(env, shape)
        got = gc.dewtemp(t, r)
        env.same('type', isinstance(got, np.ndarray), True)
        env.same('shape', tuple(np.shape(got)), tuple(np.shape(t)))
        env.close('value', got, [spec(env, a, b) for a, b in zip(env.flat(t), env.flat(r))], 1e-9, 1e-9)

    return h


def h_list(env):
    t, r = _in(env, 2)
    got = gc.dewtemp(list(t), list(r))
    env.close('value', got, [spec(env, a, b) for a, b in zip(t, r)], 1e-9, 1e-9)


def h_scalar(env):
    t, r = env.real('t', 150, 350), env.real('rh', 0.001, 100)
    got = gc.dewtemp(t, r)
    env.same('ndim', np.ndim(got), 0)
    env.close('value', got, [spec(env, t, r)], 1e-9, 1e-9)


def h_xr(env):
    t, r = _in(env, 2)
    a = xr.DataArray(t, dims='x', coords={'x': [10, 20]}, attrs={'units': 'K', 'foo': 1})
    b = xr.DataArray(r, dims='x', coords={'x': [10, 20]})
    got = gc.dewtemp(a, b)
    env.same('type', isinstance(got, xr.DataArray), True)
    env.same('dims', got.dims, ('x',))
    env.same('coord', list(got['x'].values), [10, 20])
    env.same('units', got.attrs.get('units'), 'Kelvin')
    env.close('value', got, [spec(env, p, q) for p, q in zip(t, r)], 1e-9, 1e-9)


def h_bound(env):
    t, r = _in(env, 1)
    got = env.flat(gc.dewtemp(t, r))[0]
    env.check('not-above-temperature', got <= t[0] + 1e-9)
    env.check('positive', got > 0)


def h_saturated(env):
    t = env.array('t', 1, 150, 350)
    got = gc.dewtemp(t, env.mkarray([100.0]))
    env.close('equals-temperature-at-saturation', got, [t[0]], 1e-9, 1e-9)


def h_mono(env):
    t = env.real('t', 150, 350)
    r = env.array('rh', 2, 0.001, 100)
    env.assume(r[0] < r[1])
    g = env.flat(gc.dewtemp(env.mkarray([t, t]), r))
    env.check('grows-with-humidity', g[0] <= g[1] + 1e-9)


def h_missing(kind):
    def h(env):
        t, r = env.array('t', 2, 150, 350, nan=True), env.array('rh', 2, 0.001, 100, nan=True)
        if kind == 'scalar':
            t, r = t[:1], r[:1]
            got = gc.dewtemp(t[0], r[0])
        else:
            mk = (lambda v: xr.DataArray(v, dims='x')) if kind == 'xarray' else (lambda v: v)
            got = gc.dewtemp(mk(t), mk(r))
        for g, a, b in zip(env.flat(got), t, r):
            bad = env.Or(env.isnan(a), env.isnan(b))
            env.check('missing-iff-input-missing', env.isnan(g) == bad)
            env.close('value', [env.ite(bad, 0.0, g)], [env.ite(bad, 0.0, spec(env, a, b))], 1e-9, 1e-9)

    return h


def h_shape(kind):
    def h(env):
        t = env.array('t', 2, 150, 350)
        r = env.array('rh', 1, 0.001, 100)
        if kind == 'list':
            t, r = list(t), list(r)
        elif kind == 'xr':
            t, r = xr.DataArray(t, dims='x'), xr.DataArray(r, dims='y')
        env.raises('rejects-different-shapes', ValueError, lambda: gc.dewtemp(t, r))

    return h


def h_shapes(env):
    """as many elements, but another shape"""
    for a, b in [((2, 3), (3, 2)), ((1, 4), (4, 1)), ((4,), (2, 2)), ((4,), (1, 4)), ((1,), ()), ((2, 1, 2), (2, 2))]:
        t, r = env.array('t', a, 150, 350), env.array('rh', b, 0.001, 100)
        env.raises('rejects-different-shapes', ValueError, lambda: gc.dewtemp(t, r))
        D = ('p', 'q', 'r')
        T, R = xr.DataArray(t, dims=D[: len(a)]), xr.DataArray(r, dims=D[: len(b)])
        env.raises('rejects-different-shapes', ValueError, lambda: gc.dewtemp(T, R))


def h_mix(env):
    t, r = _in(env, 2)
    env.raises('rejects-mixed-types', TypeError, lambda: gc.dewtemp(xr.DataArray(t, dims='x'), r))
    env.raises('rejects-mixed-types', TypeError, lambda: gc.dewtemp(t, xr.DataArray(r, dims='x')))


INTS = {'ndarray2': ('t',), 'xarray': ('t',), 'list': ('t',), 'scalar': ('t',)}  # cases repeated with integer input


def cases(tier):
    cs = [Case('ndarray1', h_np(1)), Case('ndarray2', h_np(2)), Case('ndarray2x2', h_np((2, 2))), Case('list', h_list)]
    cs += [Case('scalar', h_scalar), Case('xarray', h_xr), Case('bound', h_bound), Case('saturated', h_saturated), Case('monotone', h_mono)]
    cs += [Case('missing-' + k, h_missing(k)) for k in ('ndarray', 'xarray', 'scalar')]
    cs += many('dew', gc.dewtemp, spec, [('t', 150, 350), ('rh', 0.001, 100)], tol=1e-9, near=1e-9)
    cs += [Case('shape-' + k, h_shape(k)) for k in ('ndarray', 'list', 'xr')] + [Case('mixed', h_mix), Case('shapes', h_shapes, novectors=True)]
    return cs
