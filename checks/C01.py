"""Heat index: NWS decision procedure, for every temperature and humidity."""
import numpy as np
import xarray as xr

import geocat.comp as gc
from symx.harness import Case
from ._util import many

ID = 'C01'
PROP = dict(
    title='Heat index follows the NWS decision procedure for every input',
    statement=(
        'For every temperature T (F) and relative humidity RH in [0,100] %, the heat index is T below 40 F, else 0.5*(T + 61 + (T-68)*1.2 + RH*0.094), replaced by the '
        'Rothfusz regression when that value reaches 79 (70 with the alternate coefficients), minus (13-RH)/4*sqrt(|17-|T-95||/17) for RH <= 13 and T in [80,112], plus '
        '(RH-85)/10*(87-T)/5 for RH > 85 and T in [80,87]; both adjustments apply whichever formula was used. A missing temperature, or a missing humidity at 40 F or above, gives a missing result and leaves other elements alone. It is elementwise for scalars, lists, ndarrays and '
        'DataArrays (list in, list out; DataArrays get units "F"), and humidity outside [0,100], different input types or different shapes are rejected.'
    ),
    quantifier=dict(over=['inputs'], text='every real T in [-200,250] F and RH in [0,100] %, both coefficient sets, every container type, arrays up to 3'),
    why_tests_cant='The piecewise procedure has a dozen regions with inclusive/exclusive edges; tests hit a few points in some of them.',
    anchors=dict(
        files=['geocat/comp/meteorology.py'],
        mechanism=[dict(name='heat_index', where='geocat/comp/meteorology.py'), dict(name='_nws_eqn', where='geocat/comp/meteorology.py')],
    ),
)
FUNCS = ['geocat.comp.meteorology.heat_index', 'geocat.comp.meteorology._nws_eqn', 'xarray.where/apply_ufunc (executed)']
BOUNDS = 'temperature in [-200,250] F, humidity in [0,100] %, all real values; containers: DataArray, ndarray, list, scalar; arrays of 1 and 2 (thorough 3) elements; both coefficient sets; any element missing: ndarray and DataArray (2,); arrays and lists of 18 to 130 elements in up to 4 dimensions with one element symbolic'
OUTSIDE = 'float rounding at the branch thresholds'
ASSUME = []

DEF = (-42.379, 2.04901523, 10.14333127, -0.22475541, -0.00683783, -0.05481717, 0.00122874, 0.00085282, -0.00000199)
ALT = (0.363445176, 0.988622465, 4.777114035, -0.114037667, -0.000850208, -0.020716198, 0.000687678, 0.000274954, 0.0)


def spec(env, t, r, alt):
    c = ALT if alt else DEF
    crit = 70 if alt else 79
    simple = (t + 61 + (t - 68) * 1.2 + r * 0.094) / 2
    low = env.ite(t < 40, t, simple)
    reg = (
        c[0] + c[1] * t + c[2] * r + c[3] * t * r + c[4] * t * t + c[5] * r * r
        + c[6] * t * t * r + c[7] * t * r * r + c[8] * t * t * r * r
    )  # fmt: skip
    h = env.ite(low >= crit, reg, low)
    d = abs(17 - abs(t - 95)) / 17
    h1 = h - (13 - r) / 4 * env.sqrt(d)
    h = env.ite(env.And(r <= 13, t >= 80, t <= 112), h1, h)
    h2 = h + (r - 85) / 10 * ((87 - t) / 5)
    h = env.ite(env.And(r > 85, t >= 80, t <= 87), h2, h)
    return h


def _in(env, n):
    return env.array('t', n, -200, 250), env.array('rh', n, 0, 100)


def h_np(alt, n):
    def h(env):
        t, r = _in(env, n)
        got = gc.heat_index(t, r, alternate_coeffs=alt)
        env.same('type', isinstance(got, np.ndarray), True)
        env.same('shape', tuple(np.shape(got)), (n,))
        env.witness('hot', t[0] > 90)
        env.close('value', got, [spec(env, a, b, alt) for a, b in zip(t, r)], 1e-7, 1e-6)

    return h


def h_xr(alt):
    def h(env):
        t, r = _in(env, 1)
        c = dict(dims='x', coords={'x': [4.0]})
        got = gc.heat_index(xr.DataArray(t, **c), xr.DataArray(r, **c), alternate_coeffs=alt)
        env.same('type', isinstance(got, xr.DataArray), True)
        env.same('dims', got.dims, ('x',))
        env.same('coord', list(got['x'].values), [4.0])
        env.close('value', got, [spec(env, t[0], r[0], alt)], 1e-7, 1e-6)
        env.same('units', got.attrs.get('units'), 'F')

    return h


def h_list(env):
    t, r = _in(env, 1)
    got = gc.heat_index(list(t), list(r))
    env.same('type', isinstance(got, list), True)
    env.close('value', got, [spec(env, t[0], r[0], False)], 1e-7, 1e-6)


def h_scalar(env):
    t, r = env.real('t', -200, 250), env.real('rh', 0, 100)
    got = gc.heat_index(t, r)
    env.close('value', got, [spec(env, t, r, False)], 1e-7, 1e-6)


def h_invalid(env):
    t, r = env.array('t', 2, -200, 250), env.array('rh', 2, -300, 300)
    bad = env.Or(r[0] < 0, r[1] < 0, r[0] > 100, r[1] > 100)
    env.assume(bad)
    env.raises('rejects-humidity-outside-0-100', ValueError, lambda: gc.heat_index(t, r))


def h_missing(kind, alt):
    def h(env):
        t, r = env.array('t', 2, -200, 250, nan=True), env.array('rh', 2, 0, 100, nan=True)
        if kind == 'xarray':
            got = gc.heat_index(xr.DataArray(t, dims='x'), xr.DataArray(r, dims='x'), alternate_coeffs=alt)
        else:
            got = gc.heat_index(t, r, alternate_coeffs=alt)
        env.close('value', got, [spec(env, a, b, alt) for a, b in zip(t, r)], 1e-7, 1e-6)

    return h


def h_invalid_missing(kind):
    """an invalid humidity is rejected whatever else is missing"""

    def h(env):
        t, r = env.array('t', 2, -200, 250, nan=True), env.array('rh', 2, -300, 300, nan=True)
        env.assume(env.Or(*[env.And(env.Not(env.isnan(x)), env.Or(x < 0, x > 100)) for x in r]))
        mk = (lambda v: xr.DataArray(v, dims='x')) if kind == 'xarray' else (lambda v: v)
        env.raises('rejects-humidity-outside-0-100', ValueError, lambda: gc.heat_index(mk(t), mk(r)))

    return h


def h_reject(env):
    t, r = _in(env, 2)
    env.raises('rejects-different-types', TypeError, lambda: gc.heat_index(list(t), r))
    env.raises('rejects-different-types', TypeError, lambda: gc.heat_index(xr.DataArray(t, dims='x'), r))
    env.raises('rejects-different-shapes', ValueError, lambda: gc.heat_index(t, r[:1]))
    env.raises('rejects-different-shapes', ValueError, lambda: gc.heat_index(t[:1], r))


def h_shapes(env):
    """as many elements, but another shape"""
    for a, b in [((2, 3), (3, 2)), ((1, 4), (4, 1)), ((4,), (2, 2)), ((4,), (1, 4)), ((1,), ()), ((2, 1, 2), (2, 2))]:
        t, r = env.array('t', a, 60, 110), env.array('rh', b, 0, 100)
        env.raises('rejects-different-shapes', ValueError, lambda: gc.heat_index(t, r))
        D = ('p', 'q', 'r')
        T, R = xr.DataArray(t, dims=D[: len(a)]), xr.DataArray(r, dims=D[: len(b)])
        env.raises('rejects-different-shapes', ValueError, lambda: gc.heat_index(T, R))


def h_xr2(env):
    t, r = env.array('t', (1, 2), -200, 250), env.array('rh', (1, 2), 0, 100)
    c = {'x': [1], 'y': [2, 3]}
    got = gc.heat_index(xr.DataArray(t, dims=('x', 'y'), coords=c), xr.DataArray(r, dims=('x', 'y'), coords=c))
    env.same('dims', got.dims, ('x', 'y'))
    env.same('coord', list(got['y'].values), [2, 3])
    env.close('value', got, [spec(env, a, b, False) for a, b in zip(env.flat(t), env.flat(r))], 1e-7, 1e-6)


INTS = {'ndarray2-alt0': ('t', 'rh'), 'xarray1-alt1': ('t', 'rh'), 'scalar': ('t', 'rh'), 'list1': ('t', 'rh')}  # cases repeated with integer input


def cases(tier):
    cs = []
    for alt in (False, True):
        cs.append(Case(f'ndarray1-alt{int(alt)}', h_np(alt, 1)))
        cs.append(Case(f'xarray1-alt{int(alt)}', h_xr(alt)))
        cs.append(Case(f'ndarray2-alt{int(alt)}', h_np(alt, 2)))
    cs += [Case('missing-ndarray', h_missing('ndarray', False)), Case('missing-xarray', h_missing('xarray', True))]
    cs += [Case('invalid-missing-' + k, h_invalid_missing(k)) for k in ('ndarray', 'xarray')]
    cs.append(Case('list1', h_list))
    cs.append(Case('scalar', h_scalar))
    cs.append(Case('invalid', h_invalid))
    cs += [Case('reject', h_reject, novectors=True), Case('shapes', h_shapes, novectors=True)]
    cs.append(Case('xarray1x2', h_xr2))
    R = [('t', -200, 250), ('rh', 0, 100)]
    cs += many('std', gc.heat_index, lambda e, t, r: spec(e, t, r, False), R, near=1e-6)[:-1]
    cs += many('alt', lambda t, r: gc.heat_index(t, r, alternate_coeffs=True), lambda e, t, r: spec(e, t, r, True), R, near=1e-6)[:2]
    if tier == 'thorough':
        cs.append(Case('ndarray3-alt0', h_np(False, 3)))
        cs.append(Case('ndarray3-alt1', h_np(True, 3)))
    return cs
