"""Zonal mean meridional streamfunction."""
import contextlib
import math

import numpy as np
import xarray as xr

import geocat.comp as gc
from symx.harness import Case
from ._util import NAN
from . import C07

ID = 'C19'
PROP = dict(
    title='zonal_meridional_psi integrates the zonal mean wind from the top down',
    statement=(
        'For every meridional wind and positive surface pressure, the streamfunction at each time, latitude and level is 2 pi a cos(lat) / g times the sum of zonal mean wind times layer thickness '
        'over that level and all levels above it, thicknesses being those of delta_pressure for the zonal mean surface pressure of the same time and latitude; missing winds and layers contribute nothing, and the result does not depend on the order of the levels. '
        'Wind on hybrid levels gives the streamfunction of the wind interpolated to standard pressure levels, given names select exactly the named variables, and the result carries the dimensions of the wind with latitudes for faces, long_name and units kg/s. '
        'Missing or non-positive surface pressures raise ValueError, a missing variable KeyError, wind without vertical coordinate AttributeError.'
    ),
    quantifier=dict(over=['inputs'], text='all real winds (with missing values) and surface pressures on 2 to 4 (6) levels, 1 to 2 times, 2 to 3 latitudes, 3 faces'),
    why_tests_cant='Tests compare one file with the same formula written out again; orientation, the partial layer at the surface and gaps depend on every surface pressure.',
    anchors=dict(
        files=['geocat/comp/meteorology.py', 'geocat/comp/gc_util.py'],
        mechanism=[dict(name=n, where='geocat/comp/meteorology.py') for n in ('zonal_meridional_psi', 'zonal_mpsi', 'delta_pressure', '_delta_pressure1D')],
    ),
)
FUNCS = ['geocat.comp.meteorology.' + n for n in ('zonal_meridional_psi', 'zonal_mpsi', 'delta_pressure', '_delta_pressure1D')] + ['geocat.comp.gc_util._find_var', 'geocat.comp.gc_util._find_optional_var']
BOUNDS = 'wind in [-100,100] m/s or missing, surface pressure in [1,1100] hPa or missing; the level columns, latitudes and face weights listed in the cases'
OUTSIDE = 'the zonal averaging of uxarray (replaced by fixed weights per latitude, missing outside the grid); datasets without time; chunked data (psi is not in C25 either); symbolic level pressures (see C07); rounding. The scale is checked at latitudes where cos(lat) taken in degrees and in radians agree, and separately, as known finding, elsewhere'

A, G = 6378137.0, 9.80665
# latitudes (degrees) whose cosine is the same read as degrees or radians
P, M = 2 * math.pi / (1 - math.pi / 180), 2 * math.pi / (1 + math.pi / 180)
SAFE = [0.0, P, -M, -2 * P, 3 * M, 4 * P]
WEIGHTS = [[0.25, 0.5, 0.25], [1.0, 0.0, 0.0], [0.0, 0.5, 0.5], [0.5, 0.25, 0.25]]


@contextlib.contextmanager
def stub(outside=()):
    import uxarray as ux

    old = ux.UxDataArray.zonal_mean

    def zonal_mean(self, lat=(-90, 90, 10), *a, **k):
        if isinstance(lat, tuple):
            lat = np.linspace(lat[0], lat[1], int(round((lat[1] - lat[0]) / lat[2])) + 1)
        lats = [float(v) for v in np.atleast_1d(np.asarray(lat, float))]
        ax = self.get_axis_num('n_face')
        v = np.moveaxis(self.data, ax, -1)
        cols = []
        for i, q in enumerate(lats):
            w = WEIGHTS[i % len(WEIGHTS)]
            s = v[..., 0] * w[0]
            for f in range(1, len(w)):
                if w[f]:
                    s = s + v[..., f] * w[f]
            cols.append(s * NAN if q in outside else s)
        r = np.moveaxis(np.stack(cols, axis=-1), -1, ax)
        c = {k: w.variable for k, w in self.coords.items() if 'n_face' not in w.dims}
        c['latitudes'] = lats
        return xr.DataArray(r, dims=['latitudes' if d == 'n_face' else d for d in self.dims], coords=c, name='zonal_mean', attrs={'zonal_mean': True})

    ux.UxDataArray.zonal_mean = zonal_mean
    try:
        yield ux
    finally:
        ux.UxDataArray.zonal_mean = old


def grid(ux):
    fv = [[[10.0 * k, 0.0], [10.0 * k + 8, 0.0], [10.0 * k, 8.0]] for k in range(3)]
    return ux.Grid.from_face_vertices(fv, latlon=True)


def dataset(ux, variables):
    g = grid(ux)
    return ux.UxDataset({k: ux.UxDataArray(v, uxgrid=g) if 'n_face' in v.dims else v for k, v in variables.items()}, uxgrid=g)


def zmean(env, vals, i):
    w = WEIGHTS[i % len(WEIGHTS)]
    s = vals[0] * w[0]
    for f in range(1, 3):
        if w[f]:
            s = s + vals[f] * w[f]
    return s


def thickness(env, plev, ps):
    asc = sorted(plev)
    t = C07.spec(env, asc, ps, asc[0])
    return t


def spec(env, V, PS, plev, lats, scale):
    """V[t,k,f], PS[t,f] -> [t,k,lat]"""
    nt, nk, _ = V.shape
    order = sorted(range(nk), key=lambda k: plev[k])
    out = np.empty((nt, nk, len(lats)), dtype=object)
    for t in range(nt):
        for i, la in enumerate(lats):
            dp = thickness(env, plev, zmean(env, PS[t], i))
            s = 0.0
            for r, k in enumerate(order):
                v = zmean(env, V[t, k], i)
                w = v * dp[r]
                s = s + env.ite(env.isnan(w), 0.0, w)
                out[t, k, i] = s * (2 * math.pi * A / G * scale(la))
    return list(out.reshape(-1))


def deg(la):
    return math.cos(math.radians(la))


def make(env, nt, plev, nan=False, pnan=False, vn='V', pn='PS', plevname='plev', vattrs=None, pattrs=None, lattrs=None, plo=1.0):
    V = env.array('V', (nt, len(plev), 3), -100, 100, nan=nan)
    PS = env.array('PS', (nt, 3), plo, 1.1e5, nan=pnan)
    time = [float(q) for q in range(nt)]
    v = xr.DataArray(V, dims=('time', plevname, 'n_face'), coords={'time': time, plevname: (plevname, list(plev), lattrs or {})}, name=vn, attrs=vattrs or {})
    p = xr.DataArray(PS, dims=('time', 'n_face'), coords={'time': time}, name=pn, attrs=pattrs or {})
    return V, PS, v, p


def h(plev, lats=SAFE[:2], nt=1, nan=False, lat=None, names=None, wrapper=False, extra=None, scale=deg, **mk):
    def f(env):
        V, PS, v, p = make(env, nt, plev, nan=nan, **mk)
        asc = sorted(plev)
        for t in range(nt):
            for i in range(len(lats)):
                env.assume(zmean(env, PS[t], i) >= asc[0])
        with stub() as ux:
            variables = {v.name: v, p.name: p}
            if extra:
                variables = {**{k: q * 0 + 1 for k, q in extra(v, p).items()}, **variables}
            ds = dataset(ux, variables)
            fn = gc.zonal_mpsi if wrapper else gc.zonal_meridional_psi
            got = fn(ds, lat=lat if lat is not None else list(lats), **(names or {}))
        env.same('type', isinstance(got, xr.DataArray), True)
        env.same('dims', sorted(got.dims), sorted(('time', 'plev', 'latitudes')))
        got = got.transpose('time', 'plev', 'latitudes')
        env.same('plev', [float(q) for q in got['plev'].values], [float(q) for q in plev])
        env.same('latitudes', [float(q) for q in got['latitudes'].values], [float(q) for q in lats])
        env.same('units', (got.attrs.get('units'), got.attrs.get('long_name')), ('kg/s', 'zonal mean meridional streamfunction'))
        env.close('psi', got * 1e-6, [q * 1e-6 for q in spec(env, V, PS, plev, lats, scale)], 1e-7, 1e-3)

    return f


def h_scale(env):
    """latitudes where degrees and radians differ"""
    lats = [36.0, 45.0, 60.0]
    V, PS, v, p = make(env, 1, [2e4, 5e4])
    for i in range(3):
        env.assume(zmean(env, PS[0], i) >= 2e4)
    with stub() as ux:
        got = gc.zonal_meridional_psi(dataset(ux, {'V': v, 'PS': p}), lat=lats).transpose('time', 'plev', 'latitudes') * 1e-6
    a = [q * 1e-6 for q in spec(env, V, PS, [2e4, 5e4], lats, deg)]
    b = [q * 1e-6 for q in spec(env, V, PS, [2e4, 5e4], lats, math.cos)]
    g = env.flat(got)
    for i, (q, x, y) in enumerate(zip(g, a, b)):
        ok = lambda z: env.And(q - z <= 1e-3 + 1e-7 * 1e9, z - q <= 1e-3 + 1e-7 * 1e9)
        env.check('either-unit', env.Or(ok(x), ok(y)))
    env.close('degrees', g, a, 1e-7, 1e-3)


def h_hybrid(nlev, names=None, desc=False, find=False):
    """wind on hybrid levels: the streamfunction of the interpolated wind"""

    def f(env):
        V = env.array('V', (1, nlev, 3), -100, 100)
        PS = np.array([[9.8e4, 1.01e5, 6.2e4]])
        a = np.linspace(0.05, 0.0, nlev)
        b = np.linspace(0.0, 1.0, nlev)
        if desc:
            a, b = a[::-1].copy(), b[::-1].copy()
        n = dict(v='V', p='PS', a='hyam', b='hybm')
        n.update(names or {})
        v = xr.DataArray(V, dims=('time', 'lev', 'n_face'), coords={'time': [0.0], 'lev': ('lev', np.arange(nlev) * 1.0, {'axis': 'Z', 'positive': 'down', 'standard_name': 'atmosphere_hybrid_sigma_pressure_coordinate'})}, name=n['v'])
        p = xr.DataArray(PS, dims=('time', 'n_face'), coords={'time': [0.0]}, name=n['p'])
        ha, hb = xr.DataArray(a, dims='lev', name=n['a']), xr.DataArray(b, dims='lev', name=n['b'])
        kw = {}
        if names and not find:
            kw = dict(meridional_wind_varname=n['v'], surface_air_pressure_varname=n['p'], hyam_coordname=n['a'], hybm_coordname=n['b'])
        with stub() as ux:
            ds = dataset(ux, {n['v']: v, n['p']: p, n['a']: ha, n['b']: hb})
            got = gc.zonal_meridional_psi(ds, lat=SAFE[:2], **kw)
            vi = gc.interp_hybrid_to_pressure(v, p, ha, hb)
            want = gc.zonal_meridional_psi(dataset(ux, {'V': vi.transpose('time', 'plev', 'n_face'), 'PS': p}), lat=SAFE[:2])
        got = got.transpose('time', 'plev', 'latitudes')
        env.same('plev', [float(q) for q in got['plev'].values], [float(q) for q in vi['plev'].values])
        env.close('psi', got * 1e-6, env.flat(want.transpose('time', 'plev', 'latitudes') * 1e-6), 1e-7, 1e-3)

    return f


def h_reject(env):
    plev = [2e4, 5e4]
    V, PS, v, p = make(env, 1, plev, plo=2e4)
    bad = env.real('bad', -1000, 0)
    k = env.choice('face', (0, 1, 2))
    e = list(PS.reshape(-1))
    miss, neg = list(e), list(e)
    miss[k], neg[k] = NAN, bad
    mk = lambda q: xr.DataArray(env.mkarray(q, (1, 3)), dims=('time', 'n_face'), coords={'time': [0.0]}, name='PS')
    with stub(outside=(45.0,)) as ux:
        f = lambda variables, **kw: lambda: gc.zonal_meridional_psi(dataset(ux, variables), **{'lat': [0.0, 10.0, 20.0, 30.0], **kw})
        env.raises('missing-pressure', ValueError, f({'V': v, 'PS': mk(miss)}))
        env.raises('non-positive-pressure', ValueError, f({'V': v, 'PS': mk(neg)}))
        env.raises('latitude-outside', ValueError, f({'V': v, 'PS': p}, lat=[0.0, 45.0]))
        env.raises('no-wind', KeyError, f({'PS': p}))
        env.raises('no-pressure', KeyError, f({'V': v}))
        w = xr.DataArray(V[:, 0], dims=('time', 'n_face'), coords={'time': [0.0]}, name='V')
        env.raises('no-level', AttributeError, f({'V': w, 'PS': p}))


def h_found(env):
    """the documented names and attributes are found"""
    std, long = (lambda q: {'standard_name': q}), (lambda q: {'long_name': q})
    vs = [dict(vn=q) for q in ('V', 'vs', 'meridional_wind', 'v', 'Meridional_Wind', 'northward_wind')]
    vs += [dict(vn='f1', vattrs=q) for q in (std('northward_wind'), std('Northward_Wind'), long('Meridional wind'), long('Meridional_wind'))]
    ps = [dict(pn=q) for q in ('ps', 'PS', 'p_surface', 'surface_pressure', 'pressure_surface', 'Surface_Air_Pressure')]
    ps += [dict(pn='f2', pattrs=q) for q in (std('surface_air_pressure'), long('Surface pressure'), long('SURFACE PRESSURE'))]
    ls = [dict(plevname=q) for q in ('plev', 'pressure_lev', 'pressure_levels', 'Plev', 'air_pressure')] + [dict(plevname='lev', lattrs=std('air_pressure'))]
    h([5e4, 9e4], lats=SAFE[:1], **env.choice('convention', vs + ps + ls))(env)


def decoys(v, p):
    return {'W': v.copy(), 'surface_pressure': p.copy()}


INTS = {'gaps': ('V', 'PS'), 'hybrid': ('V',)}  # cases repeated with integer input


def cases(tier):
    up, down = [1e4, 3e4, 7e4], [1e5, 6e4, 2e4]
    nm = dict(meridional_wind_varname='U1', surface_air_pressure_varname='q')
    cs = [
        Case('ascending', h(up)),
        Case('descending', h(down)),
        Case('two-levels', h([5e4, 9e4], lats=SAFE[:3])),
        Case('gaps', h(up, nan=True)),
        Case('gaps-descending', h(down[:2], lats=SAFE[2:4], nan=True)),
        Case('times', h([8e4, 2e4], nt=2, lats=SAFE[1:3], nan=True)),
        Case('one-latitude', h(up, lats=[SAFE[1]], lat=SAFE[1])),
        Case('latitude-range', h(up, lats=[0.0], lat=(0.0, 0.0, 1.0))),
        Case('irregular', h([100.0, 2e4, 3e4, 9.9e4], lats=SAFE[3:4])),
        Case('wrapper', h(down, wrapper=True)),
        Case('named', h([5e4, 9e4], vn='U1', pn='q', names=nm, extra=decoys, vattrs={'standard_name': 'x'})),
        Case('named-plev', h([5e4, 9e4], plevname='lev_p', names=dict(plev_coordname='lev_p'))),
        Case('found-plev', h([5e4, 9e4], plevname='pressure_levels')),
        Case('found-standard', h([5e4, 9e4], vn='a1', pn='a2', vattrs={'standard_name': 'northward_wind'}, pattrs={'standard_name': 'surface_air_pressure'})),
        Case('found-long', h([9e4, 5e4], vn='a1', pn='a2', vattrs={'long_name': 'Meridional wind'}, pattrs={'long_name': 'Surface pressure'}, wrapper=True)),
        Case('conventions', h_found),
        Case('hybrid-found', h_hybrid(3, names=dict(a='hybrid_A_midpoints', b='HYB'), find=True)),
        Case('hybrid', h_hybrid(4)),
        Case('hybrid-names', h_hybrid(3, names=dict(v='vv', p='pp', a='aa', b='bb'))),
        Case('scale', h_scale),
        Case('reject', h_reject),
    ]
    if tier == 'thorough':
        cs += [
            Case('five-levels', h([1e3, 1e4, 3e4, 7e4, 9e4], lats=SAFE[:3]), weight=5),
            Case('six-levels-gaps', h([1e5, 9e4, 7e4, 3e4, 1e4, 1e3], nan=True), weight=9),
            Case('times-3', h([8e4, 5e4, 2e4], nt=3, lats=SAFE[1:4], nan=True), weight=9),
            Case('hybrid-6', h_hybrid(6)),
        ]
    return cs
