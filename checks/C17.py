"""Horizontal gradient on the WGS84 ellipsoid."""
import fractions
import math

import numpy as np
import xarray as xr

import geocat.comp as gc
import geocat.comp.gradient as gmod
from symx.harness import Case
from ._util import NAN

ID = 'C17'
PROP = dict(
    title='gradient divides central differences by true WGS84 arc lengths at every point',
    statement=(
        'For every 2-d field and grid (1-d or curvilinear latitudes and longitudes, any spacing and direction, integer or floating of any precision) the two results are, at each point, the difference of the field between its neighbours along the first (second) axis '
        'divided by the difference of their meridional arc length from the equator (arc length along their own parallels from Greenwich), one-sided at the edges: linear in the field, zero for constants, unit slope for the arc length itself, and depending on no other point. '
        'The arc lengths are those of the WGS84 ellipsoid, with radius sqrt(a^2 cos^2 lat + b^2 sin^2 lat), to better than a millimetre for all latitudes from pole to pole. '
        'DataArray input gives DataArrays carrying the longitude and latitude of each point, taken from its own coordinates when none are given; numpy input without coordinates and mixed 1-d/2-d coordinates are refused.'
    ),
    quantifier=dict(over=['inputs'], text='all real fields up to 4 x 4, possibly missing values; all latitudes for the arc length series; enumerated grids'),
    why_tests_cant='Tests compare two analytic fields on one global grid within loose tolerances; one wrong digit of the 50 series coefficients, or an edge row, stays below them.',
    anchors=dict(
        files=['geocat/comp/gradient.py'],
        mechanism=[dict(name=n, where='geocat/comp/gradient.py') for n in ('gradient', '_rad_lat_wgs84', '_arc_lat_wgs84', '_arc_lon_wgs84')],
    ),
)
FUNCS = ['geocat.comp.gradient.' + n for n in ('gradient', '_rad_lat_wgs84', '_arc_lat_wgs84', '_arc_lon_wgs84')]
BOUNDS = 'field values real in [-1000,1000] on 2x2 to 9x24 grids listed in the cases; latitude real in [-90,90], longitude real in [-360,360] for the series'
OUTSIDE = 'float rounding; fields with more than two dimensions or with longitude first; Dataset input'

A, B = 6378137.0, 6356752.314245
D2R = math.pi / 180
TERMS = 36


def _series():
    """Taylor coefficients (degrees, even powers) of sqrt(a^2 cos^2 + b^2 sin^2), exact."""
    F = fractions.Fraction
    a2, b2 = F(6378137) ** 2, F('6356752.314245') ** 2
    pi = F('3.14159265358979323846264338327950288419716939937510582097494')
    d = pi / 180
    # (a2+b2)/2 + (a2-b2)/2 cos(2x)
    s = []
    f = F(1)
    for k in range(TERMS):
        c = (-1) ** k * (2 * d) ** (2 * k) / math.factorial(2 * k)
        s.append((a2 - b2) / 2 * c + ((a2 + b2) / 2 if k == 0 else 0))
    r = [F(6378137)]
    for k in range(1, TERMS):
        t = s[k] - sum(r[i] * r[k - i] for i in range(1, k))
        r.append(t / (2 * r[0]))
        if k > 8:  # keep the numbers short
            r[-1] = F(float(r[-1])) if abs(r[-1]) > 1e-290 else F(0)
    return r, s, d


R_SER, SQ_SER, _D = _series()


def poly(x, cs, odd=False):
    """sum cs[k] x^(2k) (times x), by Horner"""
    x2 = x * x
    r = 0.0
    for c in reversed(cs):
        r = r * x2 + float(c)
    return r * x if odd else r


ARC = [float(c * _D / (2 * k + 1)) for k, c in enumerate(R_SER)]
RAD = [float(c) for c in R_SER]
SQ = [float(c) for c in SQ_SER]


def radius(env, lat):
    return poly(lat, RAD) if env.symbolic else math.sqrt((A * math.cos(lat * D2R)) ** 2 + (B * math.sin(lat * D2R)) ** 2)


def arclat(lat):
    return poly(lat, ARC, True)


def arclon(lon, lat):
    return math.sqrt((A * math.cos(lat * D2R)) ** 2 + (B * math.sin(lat * D2R)) ** 2) * math.cos(lat * D2R) * lon * D2R


def h_series(env):
    """the spec's own series: its square is a^2 cos^2 + b^2 sin^2"""
    lat = env.real('lat', -90, 90)
    r = poly(lat, RAD)
    env.close('spec-radius', [r * r], [poly(lat, SQ)], 0, 1.0)


def h_rad(lo, hi):
    def f(env):
        lat = env.real('lat', lo, hi)
        env.close('radius', [gmod._rad_lat_wgs84(lat)], [radius(env, lat)], 0, 1e-6)

    return f


def h_arc(lo, hi):
    def f(env):
        lat = env.real('lat', lo, hi)
        env.close('arc', [gmod._arc_lat_wgs84(lat)], [arclat(lat)], 0, 1e-6)

    return f


def h_arclon(env):
    lat = env.real('lat', -90, 90)
    lon = env.real('lon', -360, 360)
    env.close('arc', [gmod._arc_lon_wgs84(lon, lat)], [radius(env, lat) * env.cos(lat * D2R) * lon * D2R], 0, 1e-4)


def h_arc_public(lo, hi):
    """the meridional arc seen through gradient(): rows on the equator and at lat"""

    def f(env):
        lat = env.real('lat', lo, hi)
        la = env.mkarray([0.0, lat])
        got = gc.gradient(np.array([[0.0, 0.0], [1e6, 1e6]]), np.array([10.0, 11.0]), la)
        env.close('slope', [got[0][0, 0] * arclat(lat)], [1e6], 0, 1e-3)

    return f


def diffs(env, v, n, i):
    lo, hi = max(i - 1, 0), min(i + 1, n - 1)
    return v[hi] - v[lo]


def spec(env, x, lon, lat):
    """lon, lat concrete 2-d -> (along axis 0, along axis 1)"""
    n, m = x.shape
    g0 = [[diffs(env, [x[k, j] for k in range(n)], n, i) / diffs(env, [arclat(lat[k][j]) for k in range(n)], n, i) for j in range(m)] for i in range(n)]
    g1 = [[diffs(env, [x[i, k] for k in range(m)], m, j) / diffs(env, [arclon(lon[i][k], lat[i][k]) for k in range(m)], m, j) for j in range(m)] for i in range(n)]
    return sum(g0, []), sum(g1, [])


def h(lon, lat, kind='np', nan=False, given=True, dtype=float):
    lon, lat = np.array(lon, dtype), np.array(lat, dtype)

    def f(env):
        if lon.ndim == 1:
            lon2, lat2 = np.meshgrid(lon, lat)
        else:
            lon2, lat2 = lon, lat
        n, m = lon2.shape
        x = env.array('x', (n, m), -1000, 1000, nan=nan)
        src = x
        a, b = lon.copy(), lat.copy()
        if kind != 'np':
            if lon.ndim == 1:
                src = xr.DataArray(x, dims=('lat', 'lon'), coords={'lat': b, 'lon': a})
            else:
                src = xr.DataArray(x, dims=('u', 'v'), coords={'lat': (('u', 'v'), b), 'lon': (('u', 'v'), a)})
            if kind == 'xr-xr':
                a, b = src['lon'], src['lat']
        got = gc.gradient(src, a, b) if given else gc.gradient(src)
        env.same('two', len(got), 2)
        w0, w1 = spec(env, x, lon2.astype(float).tolist(), lat2.astype(float).tolist())
        for g in got:
            env.same('type', isinstance(g, xr.DataArray), kind != 'np')
            env.same('shape', tuple(g.shape), (n, m))
            if kind != 'np':
                env.same('lon', g['lon'].values.tolist(), lon2.tolist())
                env.same('lat', g['lat'].values.tolist(), lat2.tolist())
        s = 1e6
        env.close('axis0', got[0] * s, [e * s for e in w0], 1e-9, 1e-7)
        env.close('axis1', got[1] * s, [e * s for e in w1], 1e-9, 1e-7)

    return f


def h_reject(env):
    x = env.array('x', (2, 3), -1, 1)
    lon, lat = np.array([0.0, 1.0, 2.0]), np.array([0.0, 1.0])
    lon2, lat2 = np.meshgrid(lon, lat)
    env.raises('no-coords', Exception, lambda: gc.gradient(x))
    env.raises('no-coords', Exception, lambda: gc.gradient(x, lon))
    env.raises('type', Exception, lambda: gc.gradient('data'))
    env.raises('mixed', ValueError, lambda: gc.gradient(x, lon2, lat))
    env.raises('mixed', ValueError, lambda: gc.gradient(x, lon, lat2))


def curv(n, m):
    lon = [[30 + 4.0 * j + 0.7 * i * i for j in range(m)] for i in range(n)]
    lat = [[-20 + 11.0 * i + 0.9 * j * j for j in range(m)] for i in range(n)]
    return lon, lat


INTS = {'np-irregular': ('x',), 'xr-own': ('x',), 'xr-curvilinear': ('x',)}  # cases repeated with integer input


def cases(tier):
    g1 = ([0.0, 10.0, 30.0], [-60.0, -10.0, 0.0, 45.0])
    g2 = ([359.0, 200.0, 10.0, 5.0], [89.5, 70.0, 10.0])
    cs = [
        Case('np-irregular', h(*g1)),
        Case('np-descending', h(*g2, nan=True)),
        Case('np-2x2', h([-180.0, 180.0], [-90.0 + 1e-3, 75.0], nan=True)),
        Case('np-regular', h([0.0, 1.0, 2.0, 3.0], [30.0, 31.0, 32.0, 33.0], nan=True)),
        Case('np-curvilinear', h(*curv(4, 3), nan=True)),
        Case('xr-own', h(*g1, kind='xr', given=False, nan=True)),
        Case('xr-given', h(*g2, kind='xr')),
        Case('xr-given-xr', h(*g1, kind='xr-xr')),
        Case('xr-curvilinear', h(*curv(3, 4), kind='xr', given=False)),
        Case('xr-curvilinear-given', h(*curv(3, 3), kind='xr-xr')),
        Case('int64-grid', h([0, 10, 30], [60, 70, 80, 89], nan=True, dtype=np.int64)),
        Case('int16-grid', h([340, 350, 359], [75, 40, 5], kind='xr', given=False, dtype=np.int16)),
        Case('float32-grid', h([0.5, 10.25, 30], [-89.5, -33.25, 20.5], dtype=np.float32)),
        Case('float32-xr', h(*g1, kind='xr', given=False, nan=True, dtype=np.float32)),
        Case('int-curvilinear', h([[0, 10, 20], [1, 12, 23], [3, 15, 27]], [[-80, -70, -61], [-5, 6, 15], [71, 80, 88]], kind='xr-xr', dtype=np.int32)),
        Case('np-global', h([15.0 * j for j in range(24)], [-80.0 + 20 * i for i in range(9)], nan=True)),
        Case('xr-global', h([-175.0 + 10 * j for j in range(36)], [85.0 - 34 * i for i in range(6)], kind='xr', given=False, nan=True)),
        Case('np-curvilinear-large', h([[30 + 4.0 * j + 0.7 * i * i for j in range(14)] for i in range(9)], [[-40 + 8.0 * i + 0.2 * j * j for j in range(14)] for i in range(9)], nan=True)),
        Case('spec-series', h_series),
        Case('reject', h_reject, novectors=True),
    ]
    cs += [Case(f'arc-public-{a}', h_arc_public(a, b)) for a, b in ((1, 10), (10, 30), (30, 60), (60, 90), (-90, -60), (-60, -20), (-20, -1))]
    if hasattr(gmod, '_rad_lat_wgs84'):
        cs.append(Case('radius', h_rad(-90, 90)))
    if hasattr(gmod, '_arc_lat_wgs84'):
        cs.append(Case('arc-lat', h_arc(-90, 90)))
    if hasattr(gmod, '_arc_lon_wgs84'):
        cs.append(Case('arc-lon', h_arclon))
    for k in range(6):
        la = [15.0 * k + 0.5, 15.0 * k + 7.5, 15.0 * k + 14.0]
        cs.append(Case(f'np-lat-{k}', h([0.0, 2.0], la)))
        if tier == 'thorough':
            cs.append(Case(f'np-slat-{k}', h([0.0, 2.0, 5.0], [-v for v in la], nan=True)))
    if tier == 'thorough':
        cs += [Case('np-curvilinear-4x4', h(*curv(4, 4), nan=True)), Case('xr-nan', h(*curv(4, 4), kind='xr', given=False, nan=True))]
    return cs
