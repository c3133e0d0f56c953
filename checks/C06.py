"""FAO-56 vapour pressure family."""
import math

import numpy as np
import xarray as xr

import geocat.comp as gc
from symx.harness import Case
from ._util import many

ID = 'C06'
PROP = dict(
    title='FAO-56 vapour pressures, slope and psychrometric constant hold everywhere',
    statement=(
        'For every temperature T in Fahrenheit, with Tc = (T-32)*5/9, saturation vapour pressure and its dew-point variant are 0.6108*exp(17.27*Tc/(Tc+237.3)) kPa '
        'and the slope is 4096 times that over (Tc+237.3)^2 where Tc > 0, and the fill value (default missing) where Tc <= 0, missing for missing T; the saturation pressure increases with '
        'temperature. The psychrometric constant is 0.00066474 times pressure. All are elementwise, keep the shape of scalars, lists, ndarrays and '
        'DataArrays, and give DataArrays their documented units.'
    ),
    quantifier=dict(over=['inputs'], text='every real T in [-150,300] F, every fill value, every container type, arrays up to 2x2'),
    why_tests_cant='Tests compare tables of warm temperatures; the freezing threshold, the fill value and the formula must hold at every temperature.',
    anchors=dict(
        files=['geocat/comp/meteorology.py'],
        mechanism=[
            dict(name=n, where='geocat/comp/meteorology.py')
            for n in ('saturation_vapor_pressure', 'actual_saturation_vapor_pressure', 'saturation_vapor_pressure_slope', 'psychrometric_constant')
        ],
    ),
)
FUNCS = ['geocat.comp.meteorology.' + n for n in ('saturation_vapor_pressure', 'actual_saturation_vapor_pressure', 'saturation_vapor_pressure_slope', 'psychrometric_constant')]
BOUNDS = 'T in [-150,300] F, fill in [-1e4,1e4] or default; pressure in [0,200] kPa; scalar, list of 2, ndarray (2,),(2,2), DataArray; missing temperatures (default fill) and pressures in ndarray (2,), DataArray (2,); arrays and lists of 18 to 130 elements in up to 4 dimensions with one element symbolic'
OUTSIDE = 'temperatures below -395 F, missing temperatures combined with an explicit fill, rounding'


def svp(env, tc):
    return 0.6108 * env.exp(17.27 * tc / (tc + 237.3))


def slope(env, tc):
    return 4096 * svp(env, tc) / ((tc + 237.3) * (tc + 237.3))


F = {
    'svp': (gc.saturation_vapor_pressure, svp, 'kPa'),
    'actual': (gc.actual_saturation_vapor_pressure, svp, 'kPa'),
    'slope': (gc.saturation_vapor_pressure_slope, slope, 'kPa/C'),
}


def want(env, f, t, fill):
    out = []
    for x in env.flat(t):
        tc = (x - 32) * 5 / 9
        out.append(env.ite(tc > 0, f(env, tc), fill))
    return out


def h(name, kind, shape, fill):
    fn, sp, units = F[name]

    def run(env):
        t = env.array('t', shape, -150, 300)
        kw = {}
        fv = math.nan
        if fill:
            fv = kw['tfill'] = env.real('fill', -10000, 10000)
        env.witness('warm', env.flat(t)[0] > 40)
        env.witness('cold', env.flat(t)[0] < 30)
        if kind == 'ndarray':
            got = fn(t, **kw)
            env.same('type', isinstance(got, np.ndarray), True)
        elif kind == 'list':
            got = fn(list(t), **kw)
        elif kind == 'scalar':
            got = fn(t[0], **kw)
            env.same('ndim', np.ndim(got), 0)
        else:
            got = fn(xr.DataArray(t, dims=('x', 'y')[: t.ndim], coords={'x': list(range(t.shape[0]))}, attrs={'units': 'F'}), **kw)
            env.same('type', isinstance(got, xr.DataArray), True)
            env.same('dims', got.dims, ('x', 'y')[: t.ndim])
            env.same('coord', list(got['x'].values), list(range(t.shape[0])))
            env.same('units', got.attrs.get('units'), units)
        if kind not in ('scalar',):
            env.same('shape', tuple(np.shape(got)), tuple(t.shape))
        env.close('value', got, want(env, sp, t, fv), 1e-9, 1e-9)

    return run


def h_missing(name, kind):
    def run(env):
        fn = gc.psychrometric_constant if name == 'psychrometric' else F[name][0]
        t = env.array('t', 2, *((0, 200) if name == 'psychrometric' else (-150, 300)), nan=True)
        got = fn(xr.DataArray(t, dims='x') if kind == 'xarray' else t)
        for g, x in zip(env.flat(got), t):
            tc = (x - 32) * 5 / 9
            if name == 'psychrometric':
                bad, w = env.isnan(x), 0.00066474 * x
            else:
                bad, w = env.Or(env.isnan(x), tc <= 0), F[name][1](env, tc)
            env.check('missing-where-cold-or-missing', env.isnan(g) == bad)
            env.close('value', [env.ite(bad, 0.0, g)], [env.ite(bad, 0.0, w)], 1e-9, 1e-9)

    return run


def h_mono(env):
    t = env.array('t', 2, 32.5, 300)
    env.assume(t[0] < t[1])
    g = env.flat(gc.saturation_vapor_pressure(t))
    env.check('increasing', g[0] < g[1] + 1e-9)
    env.check('positive', g[0] > 0)


def h_psy(kind):
    def run(env):
        p = env.array('p', 2, 0, 200)
        if kind == 'ndarray':
            got = gc.psychrometric_constant(p)
        elif kind == 'list':
            got = gc.psychrometric_constant(list(p))
        elif kind == 'scalar':
            got = gc.psychrometric_constant(p[0])
        else:
            got = gc.psychrometric_constant(xr.DataArray(p, dims='x', coords={'x': [1, 2]}))
            env.same('units', got.attrs.get('units'), 'kPa/C')
            env.same('dims', got.dims, ('x',))
        env.close('value', got, [0.00066474 * e for e in (p[:1] if kind == 'scalar' else p)], 1e-10, 1e-12)

    return run


INTS = {'svp-ndarray2-fill': ('t',), 'svp-xarray2-fill': ('t',), 'svp-list2-nofill': ('t',), 'svp-xarray2-nofill': ('t',), 'actual-ndarray2-fill': ('t',), 'actual-xarray2-fill': ('t',), 'actual-list2-nofill': ('t',), 'actual-xarray2-nofill': ('t',), 'slope-ndarray2-fill': ('t',), 'slope-xarray2-fill': ('t',), 'slope-list2-nofill': ('t',), 'slope-xarray2-nofill': ('t',), 'psychrometric-ndarray': ('p',)}  # cases repeated with integer input


def cases(tier):
    cs = []
    for n in F:
        for kind, shape in (('ndarray', (2,)), ('ndarray', (2, 2)), ('list', (2,)), ('scalar', (1,)), ('xarray', (2,)), ('xarray', (1, 2))):
            for fill in (False, True):
                cs.append(Case(f'{n}-{kind}{"x".join(map(str, shape))}-{"fill" if fill else "nofill"}', h(n, kind, shape, fill)))
    for n in F:
        cs += many(n, F[n][0], lambda e, t, f=F[n][1]: want(e, f, [t], math.nan)[0], [('t', -150, 300)], tol=1e-9, near=1e-9)
    cs += many('psychrometric', gc.psychrometric_constant, lambda e, p: 0.00066474 * p, [('p', 0, 200)], tol=1e-10, near=1e-12)
    cs += [Case(f'{n}-missing-{k}', h_missing(n, k)) for n in (*F, 'psychrometric') for k in ('ndarray', 'xarray')]
    cs.append(Case('monotone', h_mono))
    cs += [Case('psychrometric-' + k, h_psy(k)) for k in ('ndarray', 'list', 'scalar', 'xarray')]
    return cs
