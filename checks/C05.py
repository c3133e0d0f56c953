"""Maximum daylight hours."""
import math
import warnings

import numpy as np
import xarray as xr

import geocat.comp as gc
from symx.harness import Case

ID = 'C05'
PROP = dict(
    title='Maximum daylight follows FAO-56 eq. 34 for every day and latitude',
    statement=(
        'For every day of year and latitude, the result at [day, latitude] is (24/pi)*arccos(-tan(lat)*tan(0.409*sin(2*pi*day/365 - 1.39))) hours, missing '
        'where that argument leaves [-1,1] (polar day/night) or an input is missing, lies between 0 and 24, is 12 at the equator, and the values at opposite latitudes add up to 24. '
        'Rows are days and columns latitudes for scalars, lists, ndarrays and DataArrays (DataArray output has dims doy and lat with those coordinates), '
        'inputs with more than one dimension raise ValueError, and a warning is issued when all latitudes lie beyond 55 degrees.'
    ),
    quantifier=dict(over=['inputs'], text='every real day in [1,366] and latitude in [-89,89], every container type, up to 2 days by 3 latitudes'),
    why_tests_cant='Tests cover latitudes 0 to 66 N on a coarse table; southern and polar latitudes and arbitrary days are not sampled.',
    anchors=dict(files=['geocat/comp/meteorology.py'], mechanism=[dict(name='max_daylight', where='geocat/comp/meteorology.py')]),
)
FUNCS = ['geocat.comp.meteorology.max_daylight']
BOUNDS = 'missing days and latitudes (2 x 2 ndarray); day in [1,366], lat in [-89,89], all reals; up to 30 x 11 with one day and one latitude symbolic; 2 x 3 ndarrays, DataArrays, lists and scalars (these three converted to float32 by the library, rounding outside the claim)'
OUTSIDE = 'the poles, float32 input rounding of lists and DataArrays (compared at 2e-4 for |lat| <= 60)'


def spec(env, d, la):
    sdec = 0.409 * env.sin(2 * math.pi / 365 * d - 1.39)
    return 24 / math.pi * env.acos(-env.tan(la * (math.pi / 180)) * env.tan(sdec))


def want(env, d, la):
    return [spec(env, a, b) for a in d for b in la]


def h(kind, nd, nl, lim, tol):
    def run(env):
        d, la = env.array('day', nd, 1, 366), env.array('lat', nl, -lim, lim)
        if kind == 'ndarray':
            got = gc.max_daylight(d, la)
            env.same('type', isinstance(got, np.ndarray), True)
        elif kind == 'list':
            got = gc.max_daylight(list(d), list(la))
        elif kind == 'scalar':
            got = gc.max_daylight(d[0], la[0])
        else:
            got = gc.max_daylight(xr.DataArray(d, dims='t'), xr.DataArray(la, dims='y'))
            env.same('type', isinstance(got, xr.DataArray), True)
            env.same('dims', got.dims, ('doy', 'lat'))
            env.close('doy-coord', got['doy'], list(d), 1e-6, 1e-6)
            env.close('lat-coord', got['lat'], list(la), 1e-6, 1e-6)
            env.same('units', got.attrs.get('units'), 'hours/day')
        env.same('shape', tuple(np.shape(got)), (nd, nl))
        env.close('value', got, want(env, d, la), tol, tol)

    return run


def h_long(kind, nd, nl, fd, fl, lim, tol):
    """many days and latitudes, one of each symbolic"""

    def run(env):
        d = [1.0 + 365 * ((7 * i + 3) % nd) / nd for i in range(nd)]
        la = [-lim + 2 * lim * ((3 * i + 1) % nl) / nl for i in range(nl)]
        d[fd], la[fl] = env.real('day', 1, 366), env.real('lat', -lim, lim)
        d, la = env.mkarray(d), env.mkarray(la)
        if kind == 'xr':
            d, la = xr.DataArray(d, dims='t'), xr.DataArray(la, dims='y')
        got = gc.max_daylight(d, la)
        env.same('shape', tuple(np.shape(got)), (nd, nl))
        env.close('value', got, want(env, env.flat(d), env.flat(la)), tol, tol)

    return run


def h_missing(env):
    d, la = env.array('day', 2, 1, 366, nan=True), env.array('lat', 2, -60, 60, nan=True)
    g = env.flat(gc.max_daylight(d, la))
    for k, (a, b) in enumerate((a, b) for a in d for b in la):
        bad = env.Or(env.isnan(a), env.isnan(b))
        env.close('value', [g[k]], [env.ite(bad, math.nan, spec(env, a, b))], 1e-8, 1e-8)


def h_sym(env):
    d, la = env.array('day', 1, 1, 366), env.real('lat', 0, 66)
    g = env.flat(gc.max_daylight(d, env.mkarray([la, -la, 0.0])))
    gone = env.Or(env.isnan(g[0]), env.isnan(g[1]))
    env.check('opposite-latitudes-add-to-24', env.Or(gone, abs(g[0] + g[1] - 24) <= 1e-8))
    env.close('equator', [g[2]], [12.0], 0, 1e-9)


def h_range(env):
    d, la = env.array('day', 1, 1, 366), env.array('lat', 1, -89, 89)
    g = env.flat(gc.max_daylight(d, la))[0]
    env.check('0..24', env.Or(env.isnan(g), env.And(g >= -1e-9, g <= 24 + 1e-9)))


def h_reject(env):
    a, b = env.array('day', (1, 2), 1, 366), env.array('lat', 2, -60, 60)
    env.raises('day-2d', ValueError, lambda: gc.max_daylight(a, b))
    env.raises('lat-2d', ValueError, lambda: gc.max_daylight(b, a))


def h_warn(env):
    d, la = env.array('day', 1, 1, 366), env.array('lat', 2, -89, 89)
    far = env.And(*[env.Or(x > 55, x < -55) for x in la])
    polar = [env.Or(x > 66, x < -66) for x in la]
    allpolar, nopolar = env.And(*polar), env.Not(env.Or(*polar))
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        gc.max_daylight(d, la)
    n = len([w for w in rec if 'max_daylight' in str(w.message)])
    env.check('one-warning-beyond-55', env.Implies(env.And(far, env.Or(allpolar, nopolar)), n == 1))
    env.check('quiet-otherwise', env.Implies(env.Not(far), n == 0))


INTS = {'ndarray-2x3': ('day', 'lat'), 'xarray-2x3': ('day', 'lat'), 'list-2x1': ('day', 'lat'), 'scalar': ('day', 'lat')}  # cases repeated with integer input


def cases(tier):
    cs = [Case('ndarray-1x1', h('ndarray', 1, 1, 89, 1e-8)), Case('ndarray-2x3', h('ndarray', 2, 3, 89, 1e-8)), Case('ndarray-1x2', h('ndarray', 1, 2, 89, 1e-8))]
    cs += [Case('xarray-2x3', h('xr', 2, 3, 60, 2e-4)), Case('list-2x1', h('list', 2, 1, 60, 2e-4)), Case('list-1x2', h('list', 1, 2, 60, 2e-4))]
    cs += [Case('scalar', h('scalar', 1, 1, 60, 2e-4)), Case('symmetry', h_sym), Case('range', h_range), Case('reject', h_reject, novectors=True)]
    cs += [Case('missing', h_missing), Case('long-np', h_long('ndarray', 30, 11, 29, 0, 66, 1e-8)), Case('long-xr', h_long('xr', 13, 8, 6, 7, 60, 2e-4))]
    cs += [Case('long-lat', h_long('ndarray', 2, 60, 0, 59, 89.9, 1e-8)), Case('polar', h('ndarray', 1, 1, 89.99, 1e-8))]
    cs += [Case('warnings', h_warn)]
    return cs
