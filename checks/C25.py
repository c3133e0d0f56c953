"""dask input gives what the same values in memory give."""
import warnings

import numpy as np
import xarray as xr

import geocat.comp as gc
from symx.harness import Case
from ._util import NAN, taxis

ID = 'C25'
PROP = dict(
    title='Chunked (dask) input gives the result of the same values in memory',
    statement=(
        'For every public function that takes xarray data, every way of cutting its arguments into dask chunks, along any dimension and differently or only in part of the arguments, gives a result that computes to the values, the missing values, '
        'the dimensions, coordinates, name and attributes and the kind of container that the same arguments in memory give; it is never a failure or None where the in-memory call succeeds. '
        'The arguments themselves stay chunked as they were.'
    ),
    quantifier=dict(over=['inputs', 'schedules'], text='all values within physical ranges, missing ones included where the function takes them, for small arrays and listed chunkings, each block evaluated on its own'),
    why_tests_cant='Tests check a few functions with one chunking and one array; a block boundary inside an averaging period, a stencil or an interpolation interval, or differing chunks between arguments, are not seen.',
    anchors=dict(
        files=['geocat/comp/climatologies.py', 'geocat/comp/interpolation.py', 'geocat/comp/meteorology.py', 'geocat/comp/stats.py', 'geocat/comp/spherical.py', 'geocat/comp/gradient.py', 'geocat/comp/fourier_filters.py'],
        mechanism=[dict(name='map_blocks branches of interp_hybrid_to_pressure', where='geocat/comp/interpolation.py'), dict(name='pearson_r', where='geocat/comp/stats.py'), dict(name='calendar_average', where='geocat/comp/climatologies.py')],
    ),
)
N = 'geocat.comp.'
FUNCS = [
    N + q
    for q in (
        'dewtemp heat_index relhum relhum_ice relhum_water max_daylight psychrometric_constant saturation_vapor_pressure saturation_vapor_pressure_slope actual_saturation_vapor_pressure delta_pressure pressure_at_hybrid_levels '
        'delta_pressure_hybrid interp_hybrid_to_pressure interp_sigma_to_hybrid interp_multidim calendar_average climatology_average climate_anomaly month_to_season fourier_filter gradient nmse pearson_r decomposition recomposition'
    ).split()
]
BOUNDS = 'arrays of up to 24 values (36 time steps); 3 to 8 chunkings per function'
OUTSIDE = 'eofunc_eofs and eofunc_pcs (dask has its own singular value decomposition); schedulers other than the synchronous one (dask evaluates blocks independently of each other); whether the result is lazy; rounding'


def compare(env, label, got, ref):
    env.same(label + '-type', type(got).__name__, type(ref).__name__)
    if isinstance(ref, (tuple, list)):
        env.same(label + '-len', len(got), len(ref))
        for i, (g, r) in enumerate(zip(got, ref)):
            compare(env, f'{label}{i}', g, r)
        return
    if isinstance(ref, xr.Dataset):
        env.same(label + '-vars', list(got.data_vars), list(ref.data_vars))
        for k in ref.data_vars:
            compare(env, f'{label}-{k}', got[k], ref[k])
        return
    if hasattr(got, 'compute'):
        got = got.compute()
    if isinstance(ref, xr.DataArray):
        env.same(label + '-meta', (got.dims, got.name, sorted(map(str, got.attrs)), sorted(map(str, got.coords))), (ref.dims, ref.name, sorted(map(str, ref.attrs)), sorted(map(str, ref.coords))))
        for k in ref.coords:
            env.same(f'{label}-coord', got[k].dims, ref[k].dims)
            if ref[k].dtype.kind in 'fiu' and ref[k].size:
                env.close(f'{label}-coord', got[k], ref[k])
            else:
                env.same(f'{label}-coord', got[k].values.tolist(), ref[k].values.tolist())
    env.close(label, got, ref)


def h(build, chunkings, opts=None):
    """build(env) -> (function, arguments, keywords); a chunking is None (one
    chunk) or {dim: sizes}, possibly with 'only': indices of chunked arguments"""

    def f(env):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fn, args, kw = build(env)
            ref = fn(*args, **kw)
            for n, ch in enumerate(chunkings):
                only = ch.get('only')
                ch = {k: v for k, v in ch.items() if k != 'only'}

                def cut(x):
                    if not isinstance(x, (xr.DataArray, xr.Dataset)):
                        return x
                    return x.chunk({k: v for k, v in ch.items() if k in x.dims})

                a = [cut(x) if only is None or i in only else x for i, x in enumerate(args)]
                k = {q: cut(x) if only is None or q in only else x for q, x in kw.items()}
                before = [getattr(x, 'chunks', None) for x in a]
                got = fn(*a, **k)
                env.same('chunks', [getattr(x, 'chunks', None) for x in a], before)
                compare(env, f'r{n}', got, ref)

    return f


def field(env, nm, dims, shape, lo, hi, nan=False, **coords):
    return xr.DataArray(env.array(nm, shape, lo, hi, nan=nan), dims=dims, coords=coords, name=nm, attrs={'units': 'u', 'note': nm})


TX = ('time', 'x')
T3 = dict(time=[0.0, 1.0, 2.0])


def met(fn, *ranges, shape=(3, 2), nan=True):
    def b(env):
        return fn, [field(env, 'abc'[i], TX, shape, lo, hi, nan=nan and i == 0, time=[float(q) for q in range(shape[0])]) for i, (lo, hi) in enumerate(ranges)], {}

    return b


def daylight(env):
    return gc.max_daylight, [xr.DataArray([1.0, 80.0, 172.0, 300.0], dims='day'), xr.DataArray([-40.0, 0.0, 50.0], dims='lat')], {}


def thickness(env):
    return gc.delta_pressure, [xr.DataArray([1e3, 2e4, 5e4], dims='plev', attrs={'units': 'Pa'}), field(env, 'ps', TX, (2, 2), 6e4, 1e5)], {}


def coefs(dim='lev'):
    return xr.DataArray([0.1, 0.05, 0.0], dims=dim), xr.DataArray([0.0, 0.5, 1.0], dims=dim)


def hybrid(fn):
    return lambda env: (fn, [field(env, 'ps', TX, (3, 2), 5e4, 1.1e5, **T3), *coefs()], {})


def to_pressure(method='linear', levels=(4e4, 8e4), extra=None, order=('time', 'lev', 'x'), names=True, psT=False):
    def b(env):
        size = dict(time=2, lev=3, x=2)
        D = field(env, 'd', order, [size[q] for q in order], 200, 300, lev=[1.0, 2.0, 3.0], time=[0.0, 1.0])
        P = xr.DataArray(np.array([[9e4, 1e5], [1.05e5, 7e4]]), dims=TX)
        if psT:
            P = P.transpose('x', 'time')
        kw = dict(lev_dim='lev', new_levels=np.array(levels), method=method)
        if extra:
            e = xr.DataArray(np.array([[290.0, 280.0], [301.0, 270.0]]), dims=TX)
            kw.update(extrapolate=True, variable=extra, t_bot=e, phi_sfc=e * 10)
        return gc.interp_hybrid_to_pressure, [D, P, *coefs()], kw

    return b


def sigma(order=('lev', 'x'), method='linear'):
    def b(env):
        D = field(env, 'd', order, [dict(lev=3, x=3)[q] for q in order], 200, 300, lev=[0.1, 0.5, 0.9])
        P = xr.DataArray([9e4, 1e5, 8e4], dims='x')
        return gc.interp_sigma_to_hybrid, [D, D['lev'], P, *coefs('hyb')], dict(lev_dim='lev', method=method)

    return b


def multidim(method='linear', fill=None, cyclic=False, extra=False):
    def b(env):
        g = field(env, 'g', ('time', 'lat', 'lon'), (2, 2, 3), -5, 5, lat=[0.0, 10.0], lon=[0.0, 120.0, 240.0] if cyclic else [0.0, 10.0, 20.0])
        return gc.interp_multidim, [g, np.array([2.5, 10.0]), np.array([5.0, 20.0, 350.0] if cyclic else [5.0, 20.0])], dict(method=method, cyclic=cyclic, **({'fill_value': 'extrapolate'} if extra else {}))

    return b


def clim(fn, *args, n=24, step='MS', cal=None, nx=1, nan=True, start='2001-01-01', dataset=False, **kw):
    def b(env):
        d = field(env, 'v', ('time', 'x'), (n, nx), -10, 10, nan=nan, time=taxis(start, n, step, cal))
        if dataset:
            d = d.to_dataset()
        return fn, [d, *args], kw

    return b


def fourier(env):
    return gc.fourier_filter, [field(env, 'v', TX, (6, 2), -10, 10), 12.0], dict(cutoff_frequency_low=3, low_pass=True, time_axis=0)


def grad(two):
    def b(env):
        lat, lon = np.array([0.0, 10.0, 20.0]), np.array([5.0, 15.0, 30.0, 40.0])
        c = dict(lat=lat, lon=lon)
        g = field(env, 'g', ('lat', 'lon'), (3, 4), -5, 5, **c)
        if two:
            y, x = np.meshgrid(lat, lon, indexing='ij')
            g = xr.DataArray(g.data, dims=('y', 'x'), coords=dict(lat=(('y', 'x'), y), lon=(('y', 'x'), x)))
        return gc.gradient, [g], {}

    return b


def error(env):
    c = dict(latitude=('latitude', [-60.0, 0.0, 60.0], {'units': 'degrees_north', 'standard_name': 'latitude'}), longitude=('longitude', [0.0, 1.0], {'units': 'degrees_east', 'standard_name': 'longitude'}))
    D = ('latitude', 'longitude')
    a = field(env, 'a', D, (3, 2), 1, 2, **c)
    a = a.copy(data=env.mkarray([NAN if i == 3 else e for i, e in enumerate(env.flat(a))], (3, 2)))
    b = field(env, 'b', D, (3, 2), 1, 2, **c)
    b = b + xr.DataArray(np.arange(6.0).reshape(3, 2), dims=D)
    return gc.nmse, [a, b], {}


def correlation(weighted=False, dim='x', skipna=False, dataset=False):
    def b(env):
        a, c = (field(env, q, ('y', 'x'), (2, 3), -1, 1) for q in 'ab')
        c = c + xr.DataArray(np.array([[5.0, 0.0, -5.0], [0.0, 9.0, 3.0]]), dims=('y', 'x'))
        a = a + xr.DataArray(np.array([[7.0, 1.0, -4.0], [3.0, 8.0, 4.0]]), dims=('y', 'x'))
        kw = dict(dim=dim, skipna=skipna)
        if weighted:
            kw['weights'] = xr.DataArray([1.0, 2.0, 4.0], dims='x')
        if dataset:
            a, c = a.to_dataset(name='q'), c.to_dataset(name='q')
        return gc.pearson_r, [a, c], kw

    return b


def harmonics(env):
    D = ('lat', 'lon')
    d = field(env, 'd', D, (2, 3), -5, 5)
    lat, lon = np.meshgrid([0.5, 1.5], [0.0, 2.0, 4.0], indexing='ij')
    th, ph = xr.DataArray(lon, dims=D), xr.DataArray(lat, dims=D)
    s = xr.DataArray(np.array([[1.0, 2.0, 1.5], [0.5, 1.0, 2.5]]), dims=D)
    return gc.decomposition, [d, s, th, ph], dict(max_harm=2)


def synthesis(env):
    D = ('lat', 'lon')
    c = xr.DataArray(env.array('c', (6,), -5, 5), dims='har')
    lat, lon = np.meshgrid([0.5, 1.5], [0.0, 2.0], indexing='ij')
    return gc.recomposition, [c, xr.DataArray(lon, dims=D), xr.DataArray(lat, dims=D)], dict(max_harm=2)


def cases(tier):
    tx = [{}, {'time': 1}, {'time': (2, 1), 'x': 1}, {'time': 2, 'only': [0]}, {'x': 1, 'only': [0]}]
    two = tx + [{'time': (1, 2), 'only': [1]}]
    month = lambda n: [{}, {'time': 1}, {'time': 5}, {'time': (2, n - 2)}, {'x': 1}]
    lev = [{}, {'time': 1}, {'x': 1, 'time': 1}, {'lev': 1}, {'lev': 2, 'only': [0]}, {'time': 1, 'only': [0]}, {'x': 1, 'only': [1]}]
    g = [{}, {'lat': 1}, {'lon': 2}, {'time': 1, 'lon': 1}]
    cs = [
        Case('dewtemp', h(met(gc.dewtemp, (200, 330), (1, 100)), two)),
        Case('heat_index', h(met(gc.heat_index, (40, 120), (0, 100), shape=(3, 1)), two), weight=2),
        Case('relhum', h(met(gc.relhum, (273, 274.1), (0.0001, 0.05), (1e4, 1.1e5), shape=(3, 1)), two), weight=2),
        Case('relhum_ice', h(met(gc.relhum_ice, (200, 273), (0.0001, 0.02), (1e4, 1.1e5)), two)),
        Case('relhum_water', h(met(gc.relhum_water, (250, 330), (0.0001, 0.05), (1e4, 1.1e5)), two)),
        Case('max_daylight', h(daylight, [{}, {'day': 1}, {'lat': (2, 1)}, {'day': 3, 'only': [0]}])),
        Case('actual_svp', h(met(gc.actual_saturation_vapor_pressure, (-50, 130)), tx)),
        Case('svp', h(met(gc.saturation_vapor_pressure, (-50, 130)), tx)),
        Case('svp_slope', h(met(gc.saturation_vapor_pressure_slope, (-50, 130)), tx)),
        Case('psychrometric', h(met(gc.psychrometric_constant, (50, 110)), tx)),
        Case('delta_pressure', h(thickness, [{}, {'time': 1}, {'plev': 1}, {'plev': 2, 'x': 1}, {'x': 1, 'only': [1]}])),
        Case('pressure_at_hybrid', h(hybrid(gc.pressure_at_hybrid_levels), tx + [{'lev': 1}, {'lev': 2, 'time': 1}])),
        Case('delta_pressure_hybrid', h(hybrid(gc.delta_pressure_hybrid), tx + [{'lev': 1}, {'lev': (1, 2), 'x': 1}])),
        Case('hybrid_linear', h(to_pressure(), lev)),
        Case('hybrid_log', h(to_pressure('log', (3e4, 6e4, 9.5e4)), lev)),
        Case('hybrid_order', h(to_pressure(order=('lev', 'x', 'time'), psT=True), lev)),
        Case('hybrid_last', h(to_pressure(order=('x', 'time', 'lev')), lev)),
        Case('hybrid_extrapolate', h(to_pressure(levels=(5e4, 1.2e5), extra='other'), lev)),
        Case('hybrid_temperature', h(to_pressure(levels=(1.2e5,), extra='temperature'), lev[:4])),
        Case('hybrid_geopotential', h(to_pressure(levels=(1.2e5,), extra='geopotential'), lev[:4])),
        Case('sigma', h(sigma(), [{}, {'x': 1}, {'lev': 1}, {'x': (1, 2), 'only': [0]}, {'x': 1, 'only': [2]}, {'hyb': 1}])),
        Case('sigma_log', h(sigma(('x', 'lev'), 'log'), [{}, {'x': 2}, {'lev': 2}])),
        Case('multidim', h(multidim(), g)),
        Case('multidim_nearest', h(multidim('nearest'), g)),
        Case('multidim_cyclic', h(multidim(cyclic=True), g)),
        Case('multidim_extrapolate', h(multidim(extra=True), g)),
        Case('calendar_year', h(clim(gc.calendar_average, 'year', nx=2), month(24))),
        Case('calendar_season', h(clim(gc.calendar_average, 'season', cal='noleap', n=25), month(25))),
        Case('calendar_month', h(clim(gc.calendar_average, 'month', n=20, step='5D', start='2001-01-20'), month(20))),
        Case('climatology_month', h(clim(gc.climatology_average, 'month', n=30), month(30))),
        Case('climatology_season', h(clim(gc.climatology_average, 'season', n=24, cal='360_day'), month(24))),
        Case('climatology_dataset', h(clim(gc.climatology_average, 'season', dataset=True), month(24))),
        Case('custom_seasons', h(clim(gc.climatology_average, 'season', custom_seasons=['NDJ', 'FMA', 'MJJ', 'ASO']), month(24))),
        Case('anomaly', h(clim(gc.climate_anomaly, 'month', n=26), month(26))),
        Case('anomaly_year', h(clim(gc.climate_anomaly, 'year', nx=2), month(24))),
        Case('month_to_season', h(clim(gc.month_to_season, 'DJF', n=24, nx=2), month(24))),
        Case('month_to_season_mid', h(clim(gc.month_to_season, 'MAM', n=36, cal='noleap'), month(36))),
        Case('fourier', h(fourier, [{}, {'time': 2}, {'x': 1}, {'time': (1, 5), 'x': 1}])),
        Case('gradient_1d', h(grad(False), [{}, {'lat': 1}, {'lon': (1, 3)}, {'lat': 2, 'lon': 2}])),
        Case('gradient_2d', h(grad(True), [{}, {'y': 1}, {'x': (1, 3)}, {'y': 2, 'x': 2}])),
        Case('nmse', h(error, [{}, {'latitude': 1}, {'longitude': 1, 'only': [0]}, {'latitude': 2, 'only': [1]}])),
        Case('pearson', h(correlation(), [{}, {'y': 1}, {'x': 1}, {'x': 2, 'only': [0]}, {'x': (1, 2), 'only': [1]}])),
        Case('pearson_all', h(correlation(dim=None, skipna=True), [{}, {'x': 1, 'y': 1}])),
        Case('pearson_weights', h(correlation(True, dataset=True), [{}, {'x': 1}, {'x': 2, 'only': ['weights']}])),
        Case('decomposition', h(harmonics, [{}, {'lat': 1}, {'lon': 2}, {'lon': 1, 'only': [0]}])),
        Case('recomposition', h(synthesis, [{}, {'lat': 1}, {'har': 2}, {'lon': 1, 'only': [1, 2]}])),
    ]
    return cs
