"""Relative humidity from the saturation vapour pressure table."""
import numpy as np
import xarray as xr

import geocat.comp as gc
from symx.harness import Case
from ._util import many

ID = 'C03'
PROP = dict(
    title='Table-based relative humidity interpolates the saturation table everywhere',
    statement=(
        'For every temperature, mixing ratio and pressure, relative humidity equals max(1e-4, 100*w*(p - 0.378*e)/(0.622*e)) where e (Pa) is 0.1 times the '
        'linear interpolation of the standard 1-K saturation vapour pressure table starting at 173.16 K, with temperatures below 173.16 K or above '
        '375.16 K clamped to those limits. Elements with a missing input are missing and leave the others alone. The computation is elementwise for scalars, lists, ndarrays and DataArrays, and inputs of different shapes are '
        'rejected with ValueError.'
    ),
    quantifier=dict(over=['inputs'], text='every real T in [100,450] K (each of the 202 table cells and both clamped ends), w in [0,0.05], p in [1,110000] Pa'),
    why_tests_cant='Tests touch a few dozen of the 202 table cells; a wrong table entry, cell boundary or clamp is invisible outside them.',
    anchors=dict(files=['geocat/comp/meteorology.py'], mechanism=[dict(name='relhum', where='geocat/comp/meteorology.py')]),
)
FUNCS = ['geocat.comp.meteorology.relhum']
BOUNDS = 'T in [100,450] K, w in [0,0.05] kg/kg, p in [1,110000] Pa, all reals; scalar (whole range), ndarray (1,), list (1,), DataArray (1,) over whole range, ndarray (2,) over a 4-cell band; any element of any input missing: ndarray and DataArray (3,), scalar; arrays and lists of 18 to 130 elements in up to 4 dimensions with one element symbolic'
OUTSIDE = 'rounding at the cell boundaries'

# saturation vapour pressure in 0.1 Pa * 10, one entry per kelvin from 173.16 K (Goff-Gratch/NCL drelhum table)
TABLE = [
    0.01403, 0.01719, 0.02101, 0.02561, 0.03117, 0.03784, 0.04584, 0.05542, 0.06685, 0.08049, 0.09672, 0.116, 0.1388, 0.1658, 0.1977,
    0.2353, 0.2796, 0.3316, 0.3925, 0.4638, 0.5472, 0.6444, 0.7577, 0.8894, 1.042, 1.22, 1.425, 1.662, 1.936, 2.252, 2.615, 3.032,
    3.511, 4.06, 4.688, 5.406, 6.225, 7.159, 8.223, 9.432, 10.8, 12.36, 14.13, 16.12, 18.38, 20.92, 23.8, 27.03, 30.67, 34.76, 39.35,
    44.49, 50.26, 56.71, 63.93, 71.98, 80.97, 90.98, 102.1, 114.5, 128.3, 143.6, 160.6, 179.4, 200.2, 223.3, 248.8, 276.9, 307.9,
    342.1, 379.8, 421.3, 466.9, 517.0, 572.0, 632.3, 698.5, 770.9, 850.2, 937.0, 1032.0, 1146.6, 1272.0, 1408.1, 1556.7, 1716.9,
    1890.3, 2077.6, 2279.6, 2496.7, 2729.8, 2980.0, 3247.8, 3534.1, 3839.8, 4164.8, 4510.5, 4876.9, 5265.1, 5675.2, 6107.8, 6566.2,
    7054.7, 7575.3, 8129.4, 8719.2, 9346.5, 10013.0, 10722.0, 11474.0, 12272.0, 13119.0, 14017.0, 14969.0, 15977.0, 17044.0, 18173.0,
    19367.0, 20630.0, 21964.0, 23373.0, 24861.0, 26430.0, 28086.0, 29831.0, 31671.0, 33608.0, 35649.0, 37796.0, 40055.0, 42430.0,
    44927.0, 47551.0, 50307.0, 53200.0, 56236.0, 59422.0, 62762.0, 66264.0, 69934.0, 73777.0, 77802.0, 82015.0, 86423.0, 91034.0,
    95855.0, 100890.0, 106160.0, 111660.0, 117400.0, 123400.0, 129650.0, 136170.0, 142980.0, 150070.0, 157460.0, 165160.0, 173180.0,
    181530.0, 190220.0, 199260.0, 208670.0, 218450.0, 228610.0, 239180.0, 250160.0, 261560.0, 273400.0, 285700.0, 298450.0, 311690.0,
    325420.0, 339650.0, 354410.0, 369710.0, 385560.0, 401980.0, 418980.0, 436590.0, 454810.0, 473670.0, 493170.0, 513350.0, 534220.0,
    555800.0, 578090.0, 601130.0, 624940.0, 649530.0, 674920.0, 701130.0, 728190.0, 756110.0, 784920.0, 814630.0, 845280.0, 876880.0,
    909450.0, 943020.0, 977610.0, 1013250.0, 1049940.0, 1087740.0, 1087740.0
]  # fmt: skip
LO, HI = 173.16, 375.16
NAN = float('nan')




def es_cell(tt, k):
    x = tt - LO - k
    return 0.1 * (TABLE[k] * (1 - x) + TABLE[k + 1] * x)


def rh(env, e, w, p):
    return env.fmax(100 * w * (p - 0.378 * e) / (0.622 * e), 0.0001)


def _band(env, k0, k1, n, name='t'):
    """temperatures within cells k0..k1 (k0=-1: below the table, k1=202: above)"""
    lo = 100 if k0 < 0 else round(LO + k0, 2)
    hi = 450 if k1 >= 202 else round(LO + k1 + 1, 2)
    return env.array(name, n, lo, hi)


def value(env, t, w, p):
    tt = env.fmin(env.fmax(t, LO), HI)
    k = int((tt - LO) // 1) if not hasattr(tt, 'floor') else int(((tt - LO) * 1.0).floor())
    k = min(k, 201)
    return rh(env, es_cell(tt, k), w, p)


def check_point(env, got, t, w, p):
    env.close('value', got, [value(env, t, w, p)], 1e-7, 1e-9)


def h_band(kind, k0, k1):
    def h(env):
        t, w, p = _band(env, k0, k1, 1), env.array('w', 1, 0, 0.05), env.array('p', 1, 1, 110000)
        if kind == 'ndarray':
            got = gc.relhum(t, w, p)
            env.same('type', isinstance(got, np.ndarray), True)
            env.same('shape', tuple(np.shape(got)), (1,))
        elif kind == 'list':
            got = gc.relhum(list(t), list(w), list(p))
        elif kind == 'scalar':
            got = gc.relhum(t[0], w[0], p[0])
        else:
            mk = lambda v: xr.DataArray(v, dims='x', coords={'x': [7]}, attrs={'a': 1})
            got = gc.relhum(mk(t), mk(w), mk(p))
            env.same('type', isinstance(got, xr.DataArray), True)
            env.same('dims', got.dims, ('x',))
            env.same('coord', list(got['x'].values), [7])
            env.same('units', got.attrs.get('units'), 'percentage')
        check_point(env, env.flat(got)[0], t[0], w[0], p[0])

    return h


def h_two(k0, k1):
    def h(env):
        t, w, p = _band(env, k0, k1, 2), env.array('w', 2, 0, 0.05), env.array('p', 2, 1, 110000)
        g = env.flat(gc.relhum(t, w, p))
        for i in range(2):
            check_point(env, g[i], t[i], w[i], p[i])

    return h


def h_floor(env):
    t, w, p = _band(env, 100, 103, 1), env.array('w', 1, -0.05, 0.05), env.array('p', 1, 1, 110000)
    g = env.flat(gc.relhum(t, w, p))
    env.check('never-below-floor', g[0] >= 0.0001 - 1e-12)


def h_missing(kind, n):
    """any subset of the inputs missing, three elements in one call"""

    def h(env):
        lo, hi = round(LO + 99, 2), round(LO + 102, 2)
        t = env.array('t', n, lo, hi, nan=True)
        w, p = env.array('w', n, 0, 0.05, nan=True), env.array('p', n, 1, 110000, nan=True)
        if kind == 'scalar':
            got = [gc.relhum(t[0], w[0], p[0])]
        elif kind == 'xarray':
            got = gc.relhum(*[xr.DataArray(v, dims='x') for v in (t, w, p)])
        else:
            got = gc.relhum(t, w, p)
        g = env.flat(got)
        for i in range(n):
            bad = env.Or(env.isnan(t[i]), env.isnan(w[i]), env.isnan(p[i]))
            e = NAN
            for k in range(99, 102):
                e = env.ite(t[i] >= LO + k, es_cell(t[i], k), e)
            want = env.ite(bad, NAN, rh(env, env.ite(bad, 1.0, e), env.ite(bad, 0.0, w[i]), env.ite(bad, 1.0, p[i])))
            env.close('value', [g[i]], [want], 1e-7, 1e-9)

    return h


def h_shapes(env):
    """as many elements, but another shape"""
    for a, b in [((2, 3), (3, 2)), ((1, 4), (4, 1)), ((4,), (2, 2)), ((4,), (1, 4)), ((1,), ()), ((2, 1, 2), (2, 2))]:
        t, w, p = env.array('t', a, 200, 350), env.array('w', b, 0.001, 1), env.array('p', a, 1000, 100000)
        t2, p2 = env.array('u', b, 200, 350), env.array('q', b, 1000, 100000)
        for q in ((t, w, p), (t, w, p2), (t2, w, p)):
            env.raises('rejects-different-shapes', ValueError, lambda: gc.relhum(*q))
            D = ('p', 'q', 'r')
            X = [xr.DataArray(e, dims=D[: e.ndim]) for e in q]
            env.raises('rejects-different-shapes', ValueError, lambda: gc.relhum(*X))


def h_reject(env):
    t, w, p = env.array('t', 2, 200, 300), env.array('w', 1, 0, 0.05), env.array('p', 2, 1, 110000)
    env.raises('rejects-different-shapes', ValueError, lambda: gc.relhum(t, w, p))
    env.raises('rejects-different-shapes', ValueError, lambda: gc.relhum(t, p, w))


INTS = {'ndarray-cells-1..12': ('t', 'p'), 'xarray-cells97..110': ('t', 'p'), 'pair-cells199..202': ('t', 'p'), 'list-cells-1..3': ('t', 'p')}  # cases repeated with integer input


def cases(tier):
    cs = []
    step = 14
    for k in range(-1, 203, step):
        for kind in ('ndarray', 'scalar', 'xarray', 'list') if tier == 'thorough' else ('ndarray', 'xarray'):
            cs.append(Case(f'{kind}-cells{k}..{k + step - 1}', h_band(kind, k, k + step - 1), weight=2))
    if tier != 'thorough':
        for k in (-1, 98, 198):
            for kind in ('scalar', 'list'):
                cs.append(Case(f'{kind}-cells{k}..{k + 4}', h_band(kind, k, k + 4)))
    for k in (-1, 99, 199):
        cs.append(Case(f'pair-cells{k}..{k + 3}', h_two(k, k + 3)))
    cs += [Case('missing-' + k, h_missing(k, n)) for k, n in (('ndarray', 3), ('xarray', 3), ('scalar', 1))]
    cs += many('table', gc.relhum, value, [('t', 150, 400, 268, 276), ('w', 0, 0.05), ('p', 1, 110000)], near=1e-9)
    cs += [Case('floor', h_floor), Case('reject', h_reject, novectors=True), Case('shapes', h_shapes, novectors=True)]
    return cs
