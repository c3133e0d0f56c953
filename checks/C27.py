"""Results depend on the arguments alone, not on the calls made before."""
import contextlib
import os
import warnings

import dask.array  # noqa: F401
import numpy as np
import xarray as xr

import geocat.comp as gc
from symx import fresh
from symx.harness import Case

from . import C19, C25
from .C26 import psi, snap, tolist
from ._util import NAN, taxis

ID = 'C27'
PROP = dict(
    title='Results depend on the arguments alone, whatever was called before',
    statement=(
        'For every public function, a call gives the values, missing values, dimensions, coordinates, name, attributes and kind of container that it gives as the first call in a new interpreter, whatever calls came before it: of the same function on other values, coordinates or coefficients of the same shapes, with other options, '
        'on other kinds of container, refused ones, or of the other public functions. A result that was returned is not changed by later calls, and no call changes the error state or print options of numpy, the options of xarray, the warning filters or the working directory.'
    ),
    quantifier=dict(over=['inputs', 'histories'], text='all values within physical ranges for small arrays in the last call; histories of 2 to 18 listed calls before it, compared with the same call in a freshly loaded copy of the package'),
    why_tests_cant='Tests make each call once or always on the same data; a cache keyed on too little, a work array kept between calls, or a table or default changed in place is only seen by a later call on something else.',
    anchors=dict(
        files=['geocat/comp/climatologies.py', 'geocat/comp/interpolation.py', 'geocat/comp/meteorology.py', 'geocat/comp/stats.py', 'geocat/comp/spherical.py', 'geocat/comp/gradient.py', 'geocat/comp/fourier_filters.py', 'geocat/comp/gc_util.py'],
        mechanism=[dict(name='all public functions', where='geocat/comp/__init__.py'), dict(name='module-level tables and default arguments', where='geocat/comp/meteorology.py')],
    ),
)
FUNCS = C25.FUNCS + ['geocat.comp.' + q for q in ('dpres_plev', 'fourier_low_pass', 'fourier_high_pass', 'fourier_band_pass', 'fourier_band_block', 'scale_voronoi', 'eofunc_eofs', 'eofunc_pcs', 'zonal_meridional_psi', 'zonal_mpsi')]
BOUNDS = 'arrays of up to 30 values; histories of 2 to 18 calls; the values of the earlier calls are fixed numbers (the last call is symbolic), in some cases symbolic too'
OUTSIDE = 'concurrent calls; state kept inside the libraries the package uses, other than their options; the zonal averaging of uxarray (replaced as in C19); rounding'


class Past:
    """stands for env while an earlier call is built: fixed numbers"""

    def __init__(self, k):
        self.k = k

    def real(self, name, lo=None, hi=None, nan=False):
        lo, hi = (-1.0 if lo is None else lo), (1.0 if hi is None else hi)
        f = ((sum(map(ord, name)) * 7 + 5 * self.k) % 16 + 0.5) / 16
        return lo + f * (hi - lo)

    def array(self, name, shape, lo=None, hi=None, nan=False):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        r = np.empty(shape)
        for n, i in enumerate(np.ndindex(shape)):
            r[i] = self.real(name + 'x' * n, lo, hi)
        if nan and self.k % 2:
            r[(0,) * len(shape)] = NAN
        return r

    def mkarray(self, elems, shape=None):
        r = np.array(elems, dtype=float)
        return r if shape is None else r.reshape(shape)

    def flat(self, x):
        return list(np.asarray(x).reshape(-1))


class Named:
    """stands for env: symbolic, under names of its own"""

    def __init__(self, env, k):
        self.env, self.p = env, f'h{k}'

    def __getattr__(self, q):
        f = getattr(self.env, q)
        return (lambda name, *a, **k: f(self.p + name, *a, **k)) if q in ('real', 'array', 'integer') else f


def world():
    p = np.get_printoptions()
    return (
        np.geterr(),
        {k: p[k] for k in ('precision', 'threshold', 'edgeitems', 'linewidth', 'suppress', 'nanstr', 'infstr')},
        dict(xr.get_options()),
        len(warnings.filters),
        os.getcwd(),
    )


@contextlib.contextmanager
def clean():
    """the usual state, whatever the code does to it in here"""
    opts, prints, wd = dict(xr.get_options()), np.get_printoptions(), os.getcwd()
    prints.pop('override_repr', None)
    with warnings.catch_warnings(), np.errstate(all='warn', under='ignore'):
        warnings.simplefilter('ignore')
        try:
            yield
        finally:
            now = xr.get_options()
            xr.set_options(**{k: v for k, v in opts.items() if now[k] != v})
            np.set_printoptions(**prints)
            os.chdir(wd)


def call(pkg, build, cont, env):
    fn, args, kw = build(env)

    def conv(x):
        if cont == 'da' or not isinstance(x, (xr.DataArray, xr.Dataset)):
            return x
        if cont == 'dask':
            return x.chunk({x.dims[0]: 1}) if isinstance(x, xr.DataArray) and x.ndim else x
        return x.data if cont == 'np' else tolist(env, x.data)

    with C19.stub() if 'psi' in fn.__name__ else contextlib.nullcontext():
        return getattr(pkg, fn.__name__)(*[conv(x) for x in args], **{k: conv(v) for k, v in kw.items()})


def copied(r):
    return tuple(snap(q) for q in r) if isinstance(r, tuple) else snap(r)


def notes(env, label, a, b):
    """the same attributes"""
    env.same(label, list(a), list(b))
    for k in a:
        if isinstance(a[k], xr.DataArray) or isinstance(b[k], xr.DataArray) or np.ndim(a[k]):
            env.same(label, np.shape(a[k]), np.shape(b[k]))
            env.close(label, a[k], b[k])
        elif isinstance(a[k], (str, bool, int, type(None))):
            env.same(label, a[k], b[k])
        else:
            env.close(label, [a[k]], [b[k]])


def agree(env, label, got, want):
    if isinstance(want, (tuple, list)):
        for p, q in zip(got, want):
            agree(env, label, p, q)
        return
    C25.compare(env, label, got, want)
    if isinstance(want, (xr.DataArray, xr.Dataset)):
        notes(env, label + '-attrs', got.attrs, want.attrs)
        for k in want.variables if isinstance(want, xr.Dataset) else want.coords:
            notes(env, label + '-attrs', got[k].attrs, want[k].attrs)


def h(last, past, symbolic=()):
    """last and past: (build, container); past calls may be refused"""

    def f(env):
        used, new = fresh.load('used'), fresh.load('new')
        with clean():
            w = world()
            kept = []
            for k, (b, cont) in enumerate(past):
                try:
                    r = call(used, b, cont, Named(env, k) if k in symbolic else Past(k))
                except Exception:
                    continue  # whether a call is refused is another property's matter
                if cont != 'dask':
                    kept.append((r, copied(r)))
            got = call(used, *last, env)
            env.same('surroundings', world(), w)
            want = call(new, *last, env)
            agree(env, 'last', got, want)
            for r, c in kept:
                agree(env, 'earlier', r, c)

    return f


def overwrite(x, y):
    """give x the values of y in place, where that is possible"""
    if isinstance(x, xr.Dataset):
        for k in x.data_vars:
            overwrite(x[k], y[k])
    elif isinstance(x, xr.DataArray):
        overwrite(x.data, y.data)
    elif isinstance(x, np.ndarray) and x.ndim and x.shape == y.shape:
        try:
            x[...] = y
        except ValueError:
            pass  # read-only
    elif isinstance(x, list):
        x[:] = y


def h_changed(build, cont):
    """the same objects once more, their values changed in place"""

    def f(env):
        used, new = fresh.load('used'), fresh.load('new')
        with clean():
            fn, args, kw = build(env)
            _, args2, kw2 = build(Named(env, 1))
            conv = lambda x: x.data if cont == 'np' and isinstance(x, xr.DataArray) else tolist(env, x.data) if cont == 'list' and isinstance(x, xr.DataArray) else x
            args, args2 = [conv(x) for x in args], [conv(x) for x in args2]
            kw, kw2 = {k: conv(v) for k, v in kw.items()}, {k: conv(v) for k, v in kw2.items()}
            again = lambda env: (fn, args, kw)
            try:
                r = call(used, again, 'da', env)
            except Exception:
                r = None
            kept = copied(r)
            for x, y in zip(args, args2):
                overwrite(x, y)
            for k in kw:
                overwrite(kw[k], kw2[k])
            args2, kw2 = [snap(x) for x in args], {k: snap(v) for k, v in kw.items()}
            got = call(used, again, 'da', env)
            want = call(new, lambda env: (fn, args2, kw2), 'da', env)
            agree(env, 'changed', got, want)
            if r is not None:
                agree(env, 'first', r, kept)

    return f


# ------------------------------------------------------------------- calls
def daylight(days, lats):
    return lambda env: (gc.max_daylight, [xr.DataArray(days, dims='day'), xr.DataArray(lats, dims='lat')], {})


def thick(levels, fn=gc.delta_pressure, **kw):
    def b(env):
        ps = C25.field(env, 'ps', C25.TX, (2, 2), 6e4, 1e5)
        if fn is gc.dpres_plev:
            return fn, [np.array(levels), ps.data], kw
        return fn, [xr.DataArray(levels, dims='plev', attrs={'units': 'Pa'}), ps], kw

    return b


def hyb(fn, A, B, **kw):
    def b(env):
        a, c = (xr.DataArray(list(q), dims='lev') for q in (A, B))
        return fn, [C25.field(env, 'ps', C25.TX, (3, 2), 5e4, 1.1e5), a, c], kw

    return b


def hybrid(A, B, P, levels, method='linear', extra=None, order=('time', 'lev', 'x'), default=False, one=280.0, lev=(1.0, 2.0, 3.0)):
    def b(env):
        size = dict(time=2, lev=3, x=2)
        D = C25.field(env, 'd', order, [size[q] for q in order], 200, 300, lev=list(lev), time=[0.0, 1.0])
        ps = xr.DataArray(np.array(P, dtype=float), dims=C25.TX)
        kw = dict(lev_dim='lev', method=method)
        if not default:
            kw['new_levels'] = np.array(levels)
        if extra:
            e = xr.DataArray(np.array([[one, 280.0], [301.0, 270.0]]), dims=C25.TX)
            kw.update(extrapolate=True, variable=extra, t_bot=e, phi_sfc=e * 10)
        return gc.interp_hybrid_to_pressure, [D, ps, xr.DataArray(list(A), dims='lev'), xr.DataArray(list(B), dims='lev')], kw

    return b


def sig(lev, P, order=('lev', 'x'), method='linear', A=(0.1, 0.05, 0.0), B=(0.0, 0.5, 1.0), **kw):
    def b(env):
        D = C25.field(env, 'd', order, [dict(lev=3, x=2)[q] for q in order], 200, 300, lev=list(lev))
        return gc.interp_sigma_to_hybrid, [D, D['lev'], xr.DataArray(list(P), dims='x'), xr.DataArray(list(A), dims='hyb'), xr.DataArray(list(B), dims='hyb')], dict(lev_dim='lev', method=method, **kw)

    return b


def multi(lat, lon, la, lo, **kw):
    def b(env):
        g = C25.field(env, 'g', ('lat', 'lon'), (len(lat), len(lon)), -5, 5, lat=list(lat), lon=list(lon))
        return gc.interp_multidim, [g, np.array(la), np.array(lo)], kw

    return b


def grad(lat, lon, two=False, swap=False):
    def b(env):
        g = C25.field(env, 'g', ('lat', 'lon'), (3, 4), -5, 5)
        y, x = np.array(lat), np.array(lon)
        if two:
            y, x = np.meshgrid(y, x, indexing='ij')
        return gc.gradient, [g.data], dict(lon=x, lat=y)

    return b


def four(fn, *a, shape=(6, 2), **kw):
    return lambda env: (fn, [C25.field(env, 'v', C25.TX, shape, -10, 10), *a], kw)


def nm(lats, lons, k=6.0):
    def b(env):
        c = dict(lat=('lat', list(lats), {'units': 'degrees_north'}), lon=('lon', list(lons), {'units': 'degrees_east'}))
        D = ('lat', 'lon')
        a, m = (C25.field(env, q, D, (3, 2), 1, 2, **c) for q in 'ab')
        return gc.nmse, [a, m + xr.DataArray(np.arange(k, k + 6).reshape(3, 2), dims=D)], {}

    return b


def corr(w=None, p=(7.0, 1.0, -4.0), fn=gc.pearson_r, **kw):
    def b(env):
        a, c = (C25.field(env, q, ('y', 'x'), (2, 3), -1, 1) for q in 'ab')
        c = c + xr.DataArray(np.array([[5.0, 0.0, -5.0], [0.0, 9.0, 3.0]]), dims=('y', 'x'))
        a = a + xr.DataArray(np.array([p, [3.0, 8.0, 4.0]]), dims=('y', 'x'))
        k = dict(kw)
        if w:
            k['weights'] = xr.DataArray(list(w), dims='x')
        return fn, [a, c], k

    return b


def har(lat, lon, s, fn=gc.decomposition, n=2):
    def b(env):
        D = ('lat', 'lon')
        y, x = np.meshgrid(list(lat), list(lon), indexing='ij')
        th, ph = xr.DataArray(x, dims=D), xr.DataArray(y, dims=D)
        if fn is gc.scale_voronoi:
            return fn, [th, ph], {}
        if fn is gc.recomposition:
            return fn, [xr.DataArray(env.array('c', ((n + 1) * (n + 2) // 2,), -5, 5), dims='har'), th, ph], dict(max_harm=n)
        return fn, [C25.field(env, 'd', D, (len(lat), len(lon)), -5, 5), xr.DataArray(np.array(s, dtype=float).reshape(len(lat), len(lon)), dims=D), th, ph], dict(max_harm=n)

    return b


def eof(fn, shape=(3, 2, 2), cont='da', **kw):
    def b(env):
        v = env.array('v', shape, -5, 5)
        return fn, [xr.DataArray(v, dims=('time', 'y', 'x')[: len(shape)], name='v', attrs={'u': kw.get('ddof', 1)}) if cont == 'da' else v], kw

    return b


def clim(fn, *args, start='2001-01-01', n=24, step='MS', cal=None, dataset=False, time='time', **kw):
    def b(env):
        d = xr.DataArray(env.array('v', (n, 1), -10, 10, nan=True), dims=(time, 'x'), coords={time: taxis(start, n, step, cal)}, name='v', attrs={'units': 'u', 'from': start})
        return fn, [d.to_dataset() if dataset else d, *args], kw

    return b


def pools():
    """families of calls: every one is the last call of one case, after the others"""
    m = C25.met
    dew, heat, rel, ice, wat = gc.dewtemp, gc.heat_index, gc.relhum, gc.relhum_ice, gc.relhum_water
    AB, AB2 = ((0.1, 0.05, 0.0), (0.0, 0.5, 1.0)), ((0.02, 0.01, 0.003), (0.1, 0.4, 0.9))
    AB3 = ((0.1, 0.02, 0.0), (0.0, 0.3, 1.0))
    P1, P2 = [[9e4, 1e5], [1.05e5, 7e4]], [[7e4, 8e4], [6e4, 1e5]]
    mp = gc.zonal_meridional_psi
    ca, cl, an, ms = gc.calendar_average, gc.climatology_average, gc.climate_anomaly, gc.month_to_season
    # the first and last of each are also those of another, which differs in between
    lat1, lat2, lat3, lon1, lon2, lon3 = [0.0, 10.0, 20.0], [5.0, 30.0, 70.0], [0.0, 13.0, 20.0], [5.0, 15.0, 30.0, 40.0], [0.0, 20.0, 25.0, 60.0], [5.0, 15.0, 25.0, 40.0]
    y = dict(
        dewtemp=[(m(dew, (200, 330), (1, 100)), 'da'), (m(dew, (280, 320), (20, 90)), 'da'), (m(dew, (200, 330), (1, 100)), 'np'), (m(dew, (200, 330), (1, 100), shape=(2, 3)), 'list')],
        heat=[(m(heat, (85, 120), (10, 80), shape=(1, 1)), 'da'), (m(heat, (40, 70), (0, 100), shape=(1, 1)), 'np'), (m(heat, (80, 110), (86, 100), shape=(1, 1), nan=False), 'list')],
        relhum=[(m(rel, (273, 273.6), (0.0001, 0.05), (1e4, 1.1e5), shape=(2, 1)), 'da'), (m(rel, (160, 173), (0.0001, 0.05), (1e4, 1.1e5), shape=(2, 1)), 'np'), (m(rel, (375, 380), (0.0001, 0.05), (1e4, 1.1e5), shape=(2, 1), nan=False), 'list')],
        relice=[(m(q, (lo, hi), (0.0001, 0.02), (1e4, 1.1e5)), c) for q, lo, hi, c in ((ice, 200, 273, 'da'), (wat, 250, 330, 'da'), (ice, 230, 270, 'np'), (wat, 200, 240, 'np'))],
        daylight=[(daylight([1.0, 80.0, 172.0], [-40.0, 0.0]), 'da'), (daylight([30.0, 90.0, 300.0], [50.0, 10.0]), 'da'), (daylight([30.0, 90.0, 301.0], [50.0, -10.0]), 'np'), (daylight([1.0, 90.0, 172.0], [-40.0, 0.0]), 'da')],
        fao=[(m(q, r), c) for q, r, c in ((gc.actual_saturation_vapor_pressure, (-50, 130), 'da'), (gc.saturation_vapor_pressure, (-50, 130), 'da'), (gc.saturation_vapor_pressure_slope, (-50, 130), 'np'), (gc.saturation_vapor_pressure, (0, 50), 'np'), (gc.actual_saturation_vapor_pressure, (0, 100), 'list'), (gc.psychrometric_constant, (50, 110), 'da'))],
        thickness=[(thick([1e3, 2e4, 5e4]), 'da'), (thick([5e4, 1e4, 5e3]), 'da'), (thick([1e3, 3e4, 5e4]), 'da'), (thick([2e3, 3e4, 5.5e4], pressure_top=500.0), 'np'), (thick([5e4, 2e4, 1e3], gc.dpres_plev), 'da'), (thick([5e4, 5e3, 2e3], gc.dpres_plev), 'da')],
        levels=[(hyb(gc.pressure_at_hybrid_levels, *AB), 'da'), (hyb(gc.delta_pressure_hybrid, *AB2), 'da'), (hyb(gc.delta_pressure_hybrid, *AB, p0=90000.0), 'np'), (hyb(gc.delta_pressure_hybrid, *AB), 'da'), (hyb(gc.delta_pressure_hybrid, *AB3), 'da'), (hyb(gc.pressure_at_hybrid_levels, *AB3), 'da'), (hyb(gc.pressure_at_hybrid_levels, *AB2), 'da'), (hyb(gc.pressure_at_hybrid_levels, *AB2, p0=95000.0), 'np')],
        hybrid=[
            (hybrid(*AB, P1, (4e4, 8e4)), 'da'),
            (hybrid(*AB2, P2, (3e4, 5e4)), 'da'),
            (hybrid(*AB, P2, (7e4, 3e4), 'log', lev=(5.0, 7.0, 9.0)), 'da'),
            (hybrid(*AB, P1, (), default=True), 'da'),
            (hybrid(*AB2, P1, (6e4, 3e4, 5e4), order=('lev', 'x', 'time')), 'da'),
            (hybrid(*AB, P1, (4e4, 8e4)), 'dask'),
            (hybrid(*AB3, P1, (4e4, 6e4, 8e4)), 'da'),
            (hybrid(*AB, P1, (4e4, 5e4, 8e4)), 'da'),
            (hybrid(*AB, [[9e4, 8e4], [6e4, 7e4]], (4e4, 8e4)), 'da'),
            (hybrid(*AB, P1, (5e4, 1.2e5), extra='other'), 'da'),
        ],
        extrapolate=[(hybrid(*AB, P1, (1.2e5,), extra='temperature'), 'da'), (hybrid(*AB, P2, (1.1e5,), extra='geopotential', one=291.0), 'da'), (hybrid(*AB2, P1, (1.1e5,), extra='temperature', one=250.0), 'da'), (hybrid(*AB2, P1, (1.1e5,), extra='geopotential', one=250.0), 'da')],
        psi=[
            (psi(mp, [2e4, 5e4, 8e4]), 'da'),
            (psi(mp, [8e4, 5e4, 2e4], nan=True), 'da'),
            (psi(gc.zonal_mpsi, hybrid=3, surface=[9.8e4, 1.01e5, 6.2e4]), 'da'),
            (psi(mp, [2e4, 6e4, 8e4], lat=C19.SAFE[1:3]), 'da'),
            (psi(mp, [2e4, 5e4, 8e4], lat=C19.SAFE[2:3], meridional_wind_varname='a', surface_air_pressure_varname='b'), 'da'),
            (psi(mp, hybrid=3, surface=[9.9e4, 1.0e5, 9.2e4]), 'da'),
        ],
        sigma=[(sig((0.1, 0.5, 0.9), (9e4, 1e5)), 'da'), (sig((0.2, 0.4, 0.95), (8e4, 1e5), A=(0.2, 0.02, 0.01)), 'da'), (sig((0.1, 0.5, 0.9), (7e4, 6e4), method='log'), 'da'), (sig((0.1, 0.6, 0.9), (9e4, 1e5), A=AB3[0], B=AB3[1]), 'da'), (sig((0.3, 0.5, 0.8), (7e4, 9e4), order=('x', 'lev'), p0=90000.0), 'da')],
        multidim=[
            (multi([0.0, 10.0], [0.0, 10.0, 20.0], [2.5, 10.0], [5.0, 20.0]), 'da'),
            (multi([0.0, 20.0], [0.0, 5.0, 30.0], [2.5, 10.0], [5.0, 20.0], method='nearest'), 'da'),
            (multi([5.0, 20.0], [0.0, 15.0, 40.0], [7.5, 10.0], [6.0, 2.0], missing_val=-99.0), 'da'),
            (multi([0.0, 10.0], [0.0, 5.0, 20.0], [2.5, 10.0], [5.0, 20.0]), 'da'),
            (multi([0.0, 10.0], [0.0, 10.0, 20.0], [2.5, 10.0], [5.0, 20.0], method='nearest'), 'da'),
            (multi([0.0, 10.0], [0.0, 120.0, 240.0], [2.5, 10.0], [5.0, 350.0], cyclic=True), 'da'),
            (multi([0.0, 10.0], [0.0, 10.0, 20.0], [2.5, 12.0], [5.0, 25.0], fill_value='extrapolate'), 'da'),
        ],
        gradient=[(grad(lat1, lon1), 'da'), (grad(lat2, lon1), 'da'), (grad(lat1, lon2), 'da'), (grad(lat2, lon2, two=True), 'da'), (grad(lat3, lon1), 'da'), (grad(lat1, lon3), 'da'), (grad(lat2, lon1, two=True), 'da'), (C25.grad(False), 'da')],
        fourier=[
            (four(gc.fourier_low_pass, 12.0, 3.0), 'da'),
            (four(gc.fourier_high_pass, 12.0, 3.0), 'da'),
            (four(gc.fourier_low_pass, 6.0, 3.0), 'np'),
            (four(gc.fourier_band_pass, 12.0, 2.0, 4.0), 'np'),
            (four(gc.fourier_band_block, 12.0, 3.0, 5.0), 'da'),
            (four(gc.fourier_low_pass, 12.0, 4.0, shape=(2, 6), time_axis=1), 'np'),
            (four(gc.fourier_high_pass, 12.0, 5.0), 'np'),
        ],
        nmse=[(nm([-60.0, 0.0, 60.0], [0.0, 1.0]), 'da'), (nm([0.0, 45.0, 90.0], [0.0, 1.0], 2.0), 'da'), (nm([60.0, 0.0, -60.0], [0.0, 180.0], 9.0), 'da')],
        pearson=[(corr((1.0, 2.0, 4.0), dim='x'), 'da'), (corr((4.0, 1.0, 1.0), dim='x', p=(2.0, 1.0, -3.0)), 'da'), (corr((1.0, 3.0, 4.0), dim='x'), 'da'), (corr(dim='x', skipna=True), 'da'), (corr(dim=('y', 'x')), 'da'), (corr(axis=1), 'np')],
        harmonics=[
            (har([0.5, 1.5], [0.0, 2.0, 4.0], [1, 2, 1.5, 0.5, 1, 2.5]), 'da'),
            (har([1.0, 2.0], [0.5, 2.5, 3.0], [1, 1, 1.5, 0.5, 2, 2.5]), 'da'),
            (har([0.5, 1.5], [0.0, 3.0, 4.0], [1, 2, 1.5, 0.5, 1, 2.5]), 'da'),
            (har([0.5, 1.5], [0.0, 2.0, 4.0], [1, 1, 2.5, 0.5, 1, 2.5]), 'da'),
            (har([1.0, 2.5], [0.0, 2.0, 3.0], [1, 1, 1.5, 0.5, 2, 2.5]), 'np'),
            (har([0.5, 1.5], [0.0, 2.0, 4.0], None, gc.recomposition), 'da'),
            (har([0.5, 1.5], [0.0, 1.0, 4.0], None, gc.recomposition), 'da'),
            (har([0.7, 2.5], [1.0, 2.0, 5.0], None, gc.recomposition), 'da'),
            (har([1.0, 2.0], [0.5, 2.5, 3.0], None, gc.recomposition), 'np'),
            (har([1.0, 2.0], [0.5, 2.5, 3.0], None, gc.recomposition, 1), 'da'),
        ],
        eofs=[
            (eof(gc.eofunc_eofs, neofs=2), 'da'),
            (eof(gc.eofunc_pcs, npcs=2), 'da'),
            (eof(gc.eofunc_eofs, neofs=2, ddof=0, meta=True), 'da'),
            (eof(gc.eofunc_pcs, cont='np', npcs=2, time_dim=1, shape=(2, 3, 2)), 'da'),
            (eof(gc.eofunc_eofs, neofs=2, center=False), 'da'),
            (eof(gc.eofunc_eofs, neofs=2, weights=np.array([[1.0, 2.0], [3.0, 0.5]])), 'da'),
            (eof(gc.eofunc_pcs, npcs=2, weights=np.array([[1.0, 4.0], [3.0, 0.5]])), 'da'),
            (eof(gc.eofunc_eofs, neofs=2, weights=np.array([[1.0, 4.0], [3.0, 0.5]])), 'da'),
        ],
        calendar=[
            (clim(ca, 'year'), 'da'),
            (clim(ca, 'season', start='2003-12-01'), 'da'),
            (clim(ca, 'season', cal='noleap'), 'da'),
            (clim(ca, 'season', start='2003-12-01', cal='noleap'), 'da'),
            (clim(ca, 'season'), 'da'),
            (clim(ca, 'month', start='2003-12-20', step='5D'), 'da'),
            (clim(ca, 'year', start='2004-06-01', cal='360_day', dataset=True), 'da'),
            (clim(ca, 'month', start='2000-02', step='mid', time='t', time_dim='t'), 'da'),
        ],
        climatology=[
            (clim(cl, 'month'), 'da'),
            (clim(cl, 'season', start='2003-12-01'), 'da'),
            (clim(cl, 'season', custom_seasons=['NDJ', 'FMA', 'MJJ', 'ASO']), 'da'),
            (clim(cl, 'month', start='2004-06-01', cal='360_day', dataset=True, keep_attrs=False), 'da'),
            (clim(an, 'month', start='2002-03-01'), 'da'),
            (clim(cl, 'season', start='2003-12-01', cal='noleap'), 'da'),
            (clim(cl, 'season', start='2003-12-01', custom_seasons=['DJF', 'MAM']), 'da'),
            (clim(an, 'month'), 'da'),
            (clim(an, 'season', start='2003-12-01'), 'da'),
            (clim(cl, 'season', cal='noleap', start='2000-01-01'), 'da'),
        ],
        months=[(clim(ms, 'DJF'), 'da'), (clim(ms, 'MAM', start='2003-01-01'), 'da'), (clim(ms, 'DJF', cal='noleap', start='2004-01-01'), 'da'), (clim(ms, 'XYZ'), 'da'), (clim(ms, 'JJA', dataset=True), 'da')],
    )
    return y


def cases(tier):
    cs = []
    fam = pools()
    for nm_, pool in fam.items():
        for i, last in enumerate(pool):
            if nm_ == 'months' and i == 3:
                continue  # a refused call, only in histories
            # the rest of the family, then the same call on other values
            past = [pool[(i + k) % len(pool)] for k in range(len(pool) - 1, 0, -1)] + [last]
            cs.append(Case(f'{nm_}-{i}', h(last, past)))
    for nm_ in ('dewtemp', 'relice', 'fao', 'thickness', 'levels', 'multidim', 'gradient', 'fourier', 'harmonics', 'calendar'):
        cs.append(Case(f'{nm_}-symbolic', h(fam[nm_][0], [fam[nm_][1], fam[nm_][0]], symbolic=(0, 1))))
    for nm_, pool in fam.items():
        for i in range(len(pool)):
            if nm_ == 'months' and i == 3 or pool[i][1] == 'dask':
                continue
            if not any(pool[j][0] is pool[i][0] and pool[j][1] == pool[i][1] for j in range(i)) and i < 3:
                cs.append(Case(f'{nm_}-{i}-changed', h_changed(*pool[i])))
    # one call of every family before the last one
    every = [p[-1] for k, p in fam.items() if k != 'months']
    for nm_ in fam:
        cs.append(Case(f'{nm_}-after-all', h(fam[nm_][0], [q for k, q in zip(fam, every) if k != nm_])))
    return cs
