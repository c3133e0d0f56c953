"""Relative humidity over ice and over water (Magnus forms)."""
import numpy as np
import xarray as xr

import geocat.comp as gc
from symx.harness import Case
from ._util import many, many

ID = 'C04'
PROP = dict(
    title='Relative humidity over ice and water follows the Magnus forms for all inputs',
    statement=(
        'For every temperature, mixing ratio and pressure in the meteorological range (0.01p > 0.378e), relative humidity over ice is '
        '100*w*(0.01p - 0.378*e)/(0.622*e) with e = 6.1128*exp(22.571*(T-273.15)/(T-273.15+273.71)), and over water the same with '
        'e = 6.1128*exp(17.269*(T-273.15)/(T-35.86)); it is elementwise, linear in the mixing ratio and increasing in pressure. '
        'Elements with a missing input are missing. The result has the container type and shape of the inputs (list in, list out; DataArrays keep dims, coords and the temperature\'s attributes), and '
        'inputs of different types or shapes are rejected (TypeError, ValueError).'
    ),
    quantifier=dict(over=['inputs'], text='every real (T, w, p) in range for each container type, arrays up to 2x2'),
    why_tests_cant='Tests use one tabulated sounding; a wrong constant pair or branch can agree with it near freezing and be wrong elsewhere.',
    anchors=dict(
        files=['geocat/comp/meteorology.py'],
        mechanism=[dict(name=n, where='geocat/comp/meteorology.py') for n in ('relhum_ice', 'relhum_water', '_relhum_ice', '_relhum_water')],
    ),
)
FUNCS = ['geocat.comp.meteorology.' + n for n in ('relhum_ice', 'relhum_water', '_relhum_ice', '_relhum_water')]
BOUNDS = 'T in [100,400] K, w in [0,0.05], p in [100,110000] Pa, all reals; scalar, list, ndarray (1,),(2,),(2,2), DataArray; any element missing: ndarray (2,), DataArray (2,), scalar; arrays and lists of 18 to 130 elements in up to 4 dimensions with one element symbolic'
OUTSIDE = 'temperatures at the poles of the exponent, rounding'

F = {'ice': gc.relhum_ice, 'water': gc.relhum_water}


def esat(env, kind, t):
    x = t - 273.15
    return 6.1128 * env.exp(22.571 * x / (x + 273.71) if kind == 'ice' else 17.269 * x / (t - 35.86))


def spec(env, kind, t, w, p):
    e = esat(env, kind, t)
    env.assume(0.01 * p > 0.378 * e)
    return 100 * w * (0.01 * p - 0.378 * e) / (0.622 * e)


def _in(env, shape):
    return env.array('t', shape, 100, 400), env.array('w', shape, 0, 0.05), env.array('p', shape, 100, 110000)


def want(env, kind, t, w, p):
    return [spec(env, kind, a, b, c) for a, b, c in zip(env.flat(t), env.flat(w), env.flat(p))]


def h_np(kind, shape):
    def h(env):
        i = _in(env, shape)
        w = want(env, kind, *i)
        got = F[kind](*i)
        env.same('type', isinstance(got, np.ndarray), True)
        env.same('shape', tuple(np.shape(got)), tuple(np.shape(i[0])))
        env.close('value', got, w, 1e-8, 1e-8)

    return h


def h_list(kind):
    def h(env):
        i = _in(env, 2)
        w = want(env, kind, *i)
        got = F[kind](*[list(x) for x in i])
        env.same('list-out', isinstance(got, list), True)
        env.close('value', got, w, 1e-8, 1e-8)

    return h


def h_scalar(kind):
    def h(env):
        i = (env.real('t', 100, 400), env.real('w', 0, 0.05), env.real('p', 100, 110000))
        w = [spec(env, kind, *i)]
        got = F[kind](*i)
        env.same('ndim', np.ndim(got), 0)
        env.close('value', got, w, 1e-8, 1e-8)

    return h


def h_xr(kind):
    def h(env):
        i = _in(env, (1, 2))
        c = {'x': [3], 'y': [10, 20]}
        das = [xr.DataArray(x, dims=('x', 'y'), coords=c, attrs={'name': n}) for n, x in enumerate(i)]
        w = want(env, kind, *i)
        got = F[kind](*das)
        env.same('type', isinstance(got, xr.DataArray), True)
        env.same('dims', got.dims, ('x', 'y'))
        env.same('coord', list(got['y'].values), [10, 20])
        env.same('attrs', dict(got.attrs), {'name': 0})
        env.close('value', got, w, 1e-8, 1e-8)

    return h


def h_missing(kind, cont):
    def h(env):
        n = 1 if cont == 'scalar' else 2
        i = [env.array(k, n, lo, hi, nan=True) for k, lo, hi in (('t', 100, 400), ('w', 0, 0.05), ('p', 100, 110000))]
        if cont == 'scalar':
            got = F[kind](*[v[0] for v in i])
        else:
            mk = (lambda v: xr.DataArray(v, dims='x')) if cont == 'xarray' else (lambda v: v)
            got = F[kind](*[mk(v) for v in i])
        for g, t, w, p in zip(env.flat(got), *i):
            bad = env.Or(env.isnan(t), env.isnan(w), env.isnan(p))
            e = esat(env, kind, t)
            env.assume(env.Or(bad, 0.01 * p > 0.378 * e))
            want = 100 * w * (0.01 * p - 0.378 * e) / (0.622 * e)
            env.check('missing-iff-input-missing', env.isnan(g) == bad)
            env.close('value', [env.ite(bad, 0.0, g)], [env.ite(bad, 0.0, want)], 1e-8, 1e-8)

    return h


def h_linear(kind):
    def h(env):
        t, p = env.real('t', 100, 400), env.real('p', 100, 110000)
        w, k = env.real('w', 0, 0.02), env.real('k', 0, 2)
        g = env.flat(F[kind](env.mkarray([t, t]), env.mkarray([w, k * w]), env.mkarray([p, p])))
        env.close('linear-in-mixing-ratio', [g[1]], [k * g[0]], 1e-7, 1e-7)

    return h


def h_press(kind):
    def h(env):
        t, w = env.real('t', 100, 400), env.real('w', 0, 0.05)
        p = env.array('p', 2, 100, 110000)
        env.assume(p[0] < p[1])
        env.assume(0.01 * p[0] > 0.378 * esat(env, kind, t))
        g = env.flat(F[kind](env.mkarray([t, t]), env.mkarray([w, w]), p))
        env.check('increasing-in-pressure', g[0] <= g[1] + 1e-9)

    return h


def h_shapes(kind):
    """as many elements, but another shape"""

    def h(env):
        f = getattr(gc, 'relhum_' + kind)
        for a, b in [((2, 3), (3, 2)), ((1, 4), (4, 1)), ((4,), (2, 2)), ((4,), (1, 4)), ((1,), ()), ((2, 1, 2), (2, 2))]:
            t, w, p = env.array('t', a, 200, 350), env.array('w', b, 0.001, 1), env.array('p', a, 1000, 100000)
            t2, p2 = env.array('u', b, 200, 350), env.array('q', b, 1000, 100000)
            for q in ((t, w, p), (t, w, p2), (t2, w, p)):
                env.raises('rejects-different-shapes', ValueError, lambda: f(*q))
                D = ('p', 'q', 'r')
                X = [xr.DataArray(e, dims=D[: e.ndim]) for e in q]
                env.raises('rejects-different-shapes', ValueError, lambda: f(*X))

    return h


def h_reject(kind):
    def h(env):
        t, w, p = _in(env, 2)
        f = F[kind]
        env.raises('rejects-different-types', TypeError, lambda: f(list(t), w, p))
        env.raises('rejects-different-types', TypeError, lambda: f(t, w, list(p)))
        env.raises('rejects-different-types', TypeError, lambda: f(t, xr.DataArray(w, dims='x'), p))
        env.raises('rejects-different-shapes', ValueError, lambda: f(t, w[:1], p))
        env.raises('rejects-different-shapes', ValueError, lambda: f(t, w, p[:1]))
        env.raises('rejects-different-shapes', ValueError, lambda: f(t[:1], w, p))

    return h


INTS = {'ice-ndarray2': ('t', 'p'), 'water-xarray': ('t', 'p'), 'water-list': ('t', 'p'), 'ice-list': ('t', 'p')}  # cases repeated with integer input


def cases(tier):
    cs = []
    for k in F:
        cs += many(k, F[k], lambda e, t, w, p, k=k: spec(e, k, t, w, p), [('t', 150, 330), ('w', 0, 0.05), ('p', 20000, 110000)], tol=1e-8, near=1e-8)[:-1]
        for s in ((1,), (2,), (2, 2)):
            cs.append(Case(f'{k}-ndarray{"x".join(map(str, s))}', h_np(k, s)))
        cs += [Case(k + '-list', h_list(k)), Case(k + '-scalar', h_scalar(k)), Case(k + '-xarray', h_xr(k))]
        cs += [Case(f'{k}-missing-{c}', h_missing(k, c)) for c in ('ndarray', 'xarray', 'scalar')]
        cs += [Case(k + '-linear', h_linear(k)), Case(k + '-pressure', h_press(k)), Case(k + '-reject', h_reject(k), novectors=True), Case(k + '-shapes', h_shapes(k), novectors=True)]
    return cs
