"""No public function changes its arguments or shares storage with them."""
import copy
import functools
import warnings

import numpy as np
import xarray as xr

import geocat.comp as gc
from symx.harness import Case

from . import C19, C25

ID = 'C26'
PROP = dict(
    title='Calls leave their arguments unchanged and results are independent of them',
    statement=(
        'For every public function and every kind of argument it takes (lists, numpy arrays, DataArrays, Datasets), the values, missing values, coordinates, attributes, names, dimensions and index of every argument are after the call what they were before, also when the call is refused; '
        'the result shares neither attributes nor writable data with an argument, so that changing the result in place leaves the arguments as they were; and a second call with the same arguments gives the same result.'
    ),
    quantifier=dict(over=['inputs', 'histories'], text='all values within physical ranges for small arrays of every container kind; one call, a change to its result, and a second call'),
    why_tests_cant='Tests look at results and use fresh or constant inputs; a helper that clips, fills, sorts or labels an argument in place, or returns it, is only seen by its next user.',
    anchors=dict(
        files=['geocat/comp/climatologies.py', 'geocat/comp/interpolation.py', 'geocat/comp/meteorology.py', 'geocat/comp/stats.py', 'geocat/comp/spherical.py', 'geocat/comp/gradient.py', 'geocat/comp/fourier_filters.py'],
        mechanism=[dict(name='all public functions', where='geocat/comp/__init__.py')],
    ),
)
FUNCS = C25.FUNCS + ['geocat.comp.' + q for q in ('dpres_plev', 'fourier_low_pass', 'fourier_high_pass', 'fourier_band_pass', 'fourier_band_block', 'scale_voronoi', 'eofunc_eofs', 'eofunc_pcs', 'zonal_meridional_psi', 'zonal_mpsi')]
BOUNDS = C25.BOUNDS
OUTSIDE = 'read-only arguments; concurrent calls; the zonal averaging of uxarray (replaced as in C19); rounding'


def snap(x):
    if isinstance(x, (xr.DataArray, xr.Dataset)):
        r = x.copy(deep=True)
        return r
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, list):
        return [snap(q) for q in x]
    return copy.copy(x) if isinstance(x, dict) else x


def held(env, label, x, b):
    """x is still what b was"""
    if isinstance(x, xr.Dataset):
        env.same(label + '-vars', (list(x.data_vars), dict(x.attrs)), (list(b.data_vars), dict(b.attrs)))
        for k in x.data_vars:
            held(env, label, x[k], b[k])
    elif isinstance(x, xr.DataArray):
        env.same(label + '-meta', (x.dims, x.name, dict(x.attrs), list(map(str, x.coords)), sorted(x.encoding)), (b.dims, b.name, dict(b.attrs), list(map(str, b.coords)), sorted(b.encoding)))
        for k in b.coords:
            env.same(label + '-coord', (x[k].dims, dict(x[k].attrs), x[k].values.tolist()), (b[k].dims, dict(b[k].attrs), b[k].values.tolist()))
        env.close(label, x, b, 0, 0)
    elif isinstance(x, np.ndarray):
        env.same(label + '-shape', x.shape, b.shape)
        env.close(label, x, b, 0, 0)
    elif isinstance(x, list):
        env.same(label + '-len', len(x), len(b))
        for p, q in zip(x, b):
            held(env, label, p, q)
    elif isinstance(x, (int, float, str, dict, type(None))):
        env.same(label + '-value', x, b)


def spoil(r):
    """change a result in place"""
    if isinstance(r, (tuple, list)):
        for q in r:
            spoil(q)
    elif isinstance(r, xr.Dataset):
        for k in r.data_vars:
            spoil(r[k])
        r.attrs['spoiled'] = 1
    elif isinstance(r, xr.DataArray):
        r.attrs['spoiled'] = 1
        try:
            r.data[...] = -77.0
        except (ValueError, TypeError):
            pass  # read-only result
    elif isinstance(r, np.ndarray) and r.ndim:
        try:
            r[...] = -77.0
        except ValueError:
            pass


def h(build, cont='da', twice=True):
    def f(env):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fn, args, kw = build(env)

            def conv(x):
                if cont == 'da' or not isinstance(x, (xr.DataArray, xr.Dataset)):
                    return x
                return x.data if cont == 'np' else tolist(env, x.data)

            args = [conv(x) for x in args]
            kw = {k: conv(v) for k, v in kw.items()}
            before, kb = [snap(x) for x in args], {k: snap(v) for k, v in kw.items()}
            r = fn(*args, **kw)
            for x, b in zip(args, before):
                held(env, 'argument', x, b)
            for k in kb:
                held(env, 'keyword', kw[k], kb[k])
            if not twice:
                return
            first = snap(r) if not isinstance(r, tuple) else tuple(snap(q) for q in r)
            spoil(r)
            for x, b in zip(args, before):
                held(env, 'independent', x, b)
            for k in kb:
                held(env, 'independent', kw[k], kb[k])
            C25.compare(env, 'again', fn(*args, **kw), first)

    return f


def tolist(env, x):
    return env.flat(x) if x.ndim == 1 else [tolist(env, q) for q in x]


def plain(fn, *shapes, lo=-5, hi=5, nan=False, **kw):
    def b(env):
        return fn, [env.array('abcd'[i], s, lo, hi, nan=nan) if isinstance(s, tuple) else s for i, s in enumerate(shapes)], kw

    return b


def bounds2(env):
    return gc.dpres_plev, [np.array([1e3, 2e4, 5e4]), env.array('p', (2, 2), 6e4, 1e5)], {}


def one_level(env):
    return gc.delta_pressure, [np.array([5e4, 2e4, 1e3]), env.real('p', 6e4, 1e5)], {}


def missing(value):
    def b(env):
        g = C25.field(env, 'g', ('lat', 'lon'), (2, 3), 1, 5, lat=[0.0, 10.0], lon=[0.0, 10.0, 20.0])
        g = g.copy(data=env.mkarray([value if i == 4 else e for i, e in enumerate(env.flat(g))], (2, 3)))
        return gc.interp_multidim, [g, np.array([2.5, 10.0]), np.array([5.0, 20.0])], dict(missing_val=value)

    return b


def unsorted_levels(env):
    fn, a, k = C25.to_pressure()(env)
    return fn, a, dict(k, new_levels=np.array([8e4, 3e4, 6e4]))


def psi(fn, plev=None, hybrid=0, nan=False, lat=C19.SAFE[:2], surface=None, **names):
    """the streamfunction of wind on pressure or hybrid levels; the zonal mean replaced as in C19"""

    def b(env):
        n = hybrid or len(plev)
        co = {'time': [0.0]}
        pv = env.array('PS', (1, 3), 9e4, 1.1e5) if surface is None else np.array([surface])
        V = env.array('V', (1, n, 3), -100, 100, nan=nan)
        p = xr.DataArray(pv, dims=('time', 'n_face'), coords=co, attrs={'units': 'Pa'})
        if hybrid:
            lev = ('lev', np.arange(n) * 1.0, {'axis': 'Z', 'positive': 'down', 'standard_name': 'atmosphere_hybrid_sigma_pressure_coordinate'})
            v = xr.DataArray(V, dims=('time', 'lev', 'n_face'), coords={**co, 'lev': lev}, attrs={'units': 'm/s'})
            more = {'hyam': xr.DataArray(np.linspace(0.05, 0.0, n), dims='lev'), 'hybm': xr.DataArray(np.linspace(0.0, 1.0, n), dims='lev')}
        else:
            v = xr.DataArray(V, dims=('time', 'plev', 'n_face'), coords={**co, 'plev': ('plev', list(plev), {'units': 'Pa'})}, attrs={'units': 'm/s'})
            more = {}

        @functools.wraps(fn)
        def g(*a, **k):
            with C19.stub():
                return fn(*a, **k)

        import uxarray as ux

        return g, [C19.dataset(ux, {names.get('meridional_wind_varname', 'V'): v, names.get('surface_air_pressure_varname', 'PS'): p, **more})], dict(lat=list(lat), **names)

    return b


def bad(fn, exc, *a, **kw):
    """a refused call"""

    def f(env):
        d = C25.field(env, 'd', ('time', 'x'), (3, 2), 1, 5, time=[0.0, 1.0, 2.0])
        b = snap(d)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            env.raises('refused', exc, lambda: fn(d, *a, **kw))
        held(env, 'argument', d, b)

    return f


def cases(tier):
    c = C25
    da = dict(
        dewtemp=c.met(gc.dewtemp, (200, 330), (1, 100)),
        heat_index=c.met(gc.heat_index, (40, 120), (2, 100), shape=(1, 1), nan=False),
        relhum=c.met(gc.relhum, (270, 270.5), (0.0001, 0.05), (1e4, 1.1e5), shape=(2, 1)),
        relhum_clip=c.met(gc.relhum, (160, 174), (0.0001, 0.05), (1e4, 1.1e5), shape=(1, 1)),
        relhum_ice=c.met(gc.relhum_ice, (200, 273), (0.0001, 0.02), (1e4, 1.1e5)),
        relhum_water=c.met(gc.relhum_water, (250, 330), (0.0001, 0.05), (1e4, 1.1e5)),
        max_daylight=c.daylight,
        actual_svp=c.met(gc.actual_saturation_vapor_pressure, (-50, 130)),
        svp=c.met(gc.saturation_vapor_pressure, (-50, 130)),
        svp_slope=c.met(gc.saturation_vapor_pressure_slope, (-50, 130)),
        psychrometric=c.met(gc.psychrometric_constant, (50, 110)),
        delta_pressure=c.thickness,
        pressure_at_hybrid=c.hybrid(gc.pressure_at_hybrid_levels),
        delta_pressure_hybrid=c.hybrid(gc.delta_pressure_hybrid),
        fourier=c.fourier,
        decomposition=c.harmonics,
        recomposition=c.synthesis,
        pearson=c.correlation(),
    )
    cs = [Case(f'{k}-da', h(b)) for k, b in da.items()]
    cs += [Case(f'{k}-np', h(da[k], 'np')) for k in da if k not in ('max_daylight', 'pearson', 'pressure_at_hybrid', 'delta_pressure_hybrid')]
    cs += [Case(f'{k}-list', h(da[k], 'list')) for k in ('dewtemp', 'heat_index', 'relhum_ice', 'relhum_water', 'actual_svp', 'svp', 'svp_slope', 'psychrometric')]
    xa = dict(
        hybrid_linear=c.to_pressure(),
        hybrid_log=c.to_pressure('log', (3e4, 9.5e4)),
        hybrid_levels=unsorted_levels,
        hybrid_other=c.to_pressure(levels=(5e4, 1.2e5), extra='other'),
        hybrid_temperature=c.to_pressure(levels=(1.2e5,), extra='temperature'),
        hybrid_geopotential=c.to_pressure(levels=(1.2e5,), extra='geopotential'),
        sigma=c.sigma(),
        sigma_log=c.sigma(('x', 'lev'), 'log'),
        multidim=c.multidim(),
        multidim_cyclic=c.multidim(cyclic=True),
        multidim_extrapolate=c.multidim(extra=True),
        multidim_missing=missing(2.0),
        calendar_year=c.clim(gc.calendar_average, 'year', nx=2),
        calendar_season=c.clim(gc.calendar_average, 'season', cal='noleap', n=25),
        calendar_dataset=c.clim(gc.calendar_average, 'season', dataset=True),
        climatology_month=c.clim(gc.climatology_average, 'month', n=30),
        climatology_season=c.clim(gc.climatology_average, 'season', n=24, cal='360_day'),
        custom_seasons=c.clim(gc.climatology_average, 'season', custom_seasons=['NDJ', 'FMA', 'MJJ', 'ASO']),
        anomaly=c.clim(gc.climate_anomaly, 'month', n=26),
        anomaly_dataset=c.clim(gc.climate_anomaly, 'season', dataset=True),
        month_to_season=c.clim(gc.month_to_season, 'DJF', n=24, nx=2),
        month_to_season_dataset=c.clim(gc.month_to_season, 'MAM', n=24, dataset=True),
        gradient_1d=c.grad(False),
        gradient_2d=c.grad(True),
        nmse=c.error,
        pearson_all=c.correlation(dim=None, skipna=True),
        pearson_weights=c.correlation(True, dataset=True),
        eofs=lambda env: (gc.eofunc_eofs, [C25.field(env, 'v', ('time', 'y', 'x'), (3, 2, 2), -5, 5)], dict(neofs=2, meta=True)),
        pcs=lambda env: (gc.eofunc_pcs, [C25.field(env, 'v', ('time', 'y', 'x'), (3, 2, 2), -5, 5, time=[0.0, 1.0, 2.0])], dict(npcs=2, meta=True)),
    )
    xa.update(
        psi=psi(gc.zonal_meridional_psi, [2e4, 5e4, 8e4], nan=True),
        psi_down=psi(gc.zonal_mpsi, [8e4, 5e4, 2e4], meridional_wind_varname='a', surface_air_pressure_varname='b'),
        psi_hybrid=psi(gc.zonal_meridional_psi, hybrid=3, surface=[9.8e4, 1.01e5, 6.2e4]),
    )
    cs += [Case(k, h(b)) for k, b in xa.items()]
    np_ = dict(
        dpres_plev=bounds2,
        delta_scalar=one_level,
        low_pass=plain(gc.fourier_low_pass, (6,), 12.0, 3.0),
        high_pass=plain(gc.fourier_high_pass, (6,), 12.0, 3.0),
        band_pass=plain(gc.fourier_band_pass, (6,), 12.0, 2.0, 4.0),
        band_block=plain(gc.fourier_band_block, (6,), 12.0, 2.0, 4.0),
        pearson_plain=plain(gc.pearson_r, (4,), np.array([4.0, -1.0, 2.0, 9.0]), lo=-1, hi=1),
        pearson_axis=plain(gc.pearson_r, (2, 3), np.array([[4.0, -1.0, 2.0], [1.0, 5.0, 9.0]]), lo=-1, hi=1, axis=1, weights=np.array([1.0, 2.0, 3.0])),
        eofs_np=plain(gc.eofunc_eofs, (2, 3, 2), time_dim=1, neofs=1),
        pcs_np=plain(gc.eofunc_pcs, (2, 3), time_dim=-1, npcs=1),
    )
    cs += [Case(k, h(b)) for k, b in np_.items()]
    cs += [
        Case('refused-average', bad(gc.calendar_average, Exception, 'month'), novectors=True),
        Case('refused-hybrid', bad(gc.interp_hybrid_to_pressure, Exception, None, None, None), novectors=True),
        Case('refused-eofs', bad(gc.eofunc_eofs, ValueError, 0), novectors=True),
        Case('refused-gradient', bad(gc.gradient, Exception), novectors=True),
        Case('refused-season', bad(gc.month_to_season, Exception, 'XYZ'), novectors=True),
    ]
    return cs
