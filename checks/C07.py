"""Pressure layer thickness."""
import numpy as np
import xarray as xr

import geocat.comp as gc
from symx.harness import Case

ID = 'C07'
PROP = dict(
    title='Pressure layer thicknesses tile the column from its top to the surface',
    statement=(
        'For every strictly monotonic pressure column and surface pressure at or above the column top pressure, the layers with a thickness are the top layer and those whose upper '
        'half-level lies above the surface; each thickness is the distance between the half-levels (midpoints of adjacent levels) bounding it, the first '
        'starting at the top pressure (default: the smallest level) and the lowest one ending at the surface, so thicknesses are non-negative and sum exactly to '
        'surface minus top pressure; all other layers are missing, as are all layers below a missing surface pressure. Reversing the level order reverses the result, every element of an N-d surface pressure '
        'is treated independently (a missing one never affects another) with the level as a new last dimension, and a top pressure that is negative, below the surface, or greater than the smallest level raises ValueError.'
    ),
    quantifier=dict(over=['inputs'], text='every monotonic column of 2 to 7 (thorough 10) levels, fixed columns of up to 37, every surface and top pressure, every container type'),
    why_tests_cant='Tests use one column and three surface pressures; which layers exist depends on the ordering of the surface against every half-level.',
    anchors=dict(
        files=['geocat/comp/meteorology.py'],
        mechanism=[dict(name='delta_pressure', where='geocat/comp/meteorology.py'), dict(name='_delta_pressure1D', where='geocat/comp/meteorology.py')],
    ),
)
FUNCS = ['geocat.comp.meteorology.delta_pressure', 'geocat.comp.meteorology._delta_pressure1D', 'geocat.comp.meteorology.dpres_plev']
BOUNDS = 'columns of 2..5 and 7 levels (thorough: ..10), both orders, all reals in (0,1100]; fixed columns of 12, 18, 37 usual levels with any surface pressure, alone or in fields of 12 points; surface pressure scalar, (2,), (1,2) ndarray, DataArray, list-of-levels; missing surface pressures'
OUTSIDE = 'single-level columns, missing levels, longer columns of unknown levels, rounding'


def column(env, n, desc=False, hi=1100):
    p = env.array('lev', n, 0.5, hi)
    for i in range(n - 1):
        env.assume(p[i + 1] < p[i] if desc else p[i] < p[i + 1])
    return p


def spec(env, lev, ps, top):
    """lev ascending list"""
    n = len(lev)
    out = []
    half = [(lev[i] + lev[i + 1]) / 2 for i in range(n - 1)]
    for k in range(n):
        upper = top if k == 0 else half[k - 1]
        lower = ps if k == n - 1 else env.ite(half[k] < ps, half[k], ps)
        here = True if k == 0 else half[k - 1] < ps
        out.append(env.ite(here, lower - upper, float('nan')))
    return out


def h_col(n, desc, kind, toparg):
    def h(env):
        lev = column(env, n, desc)
        small = lev[-1] if desc else lev[0]
        ps = env.real('ps', 0.5, 1200)
        top = small
        kw = {}
        if toparg:
            top = env.real('top', 0, 1100)
            env.assume(top <= small)
            kw['pressure_top'] = top
        env.assume(ps >= top)
        env.witness('surface-inside-column', ps < (lev[0] + lev[1]) / 2)
        arg = list(lev) if kind == 'list' else xr.DataArray(lev, dims='plev') if kind == 'xrlev' else lev
        got = gc.delta_pressure(arg, ps, **kw)
        w = spec(env, list(lev)[::-1] if desc else list(lev), ps, top)
        env.close('thickness', got, w[::-1] if desc else w, 1e-9, 1e-9)
        tot = 0.0
        for g in env.flat(got):
            m = env.isnan(g)
            tot = tot + env.ite(m, 0.0, g)
            env.check('non-negative', env.Or(m, g >= -1e-9))
        env.close('sum', [tot], [ps - top], 1e-9, 1e-9)

    return h


def h_nd(shape, kind, desc=False):
    def h(env):
        lev = column(env, 3, desc)
        small = lev[-1] if desc else lev[0]
        ps = env.array('ps', shape, 0.5, 1200)
        for e in env.flat(ps):
            env.assume(e >= small)
        asc = list(lev)[::-1] if desc else list(lev)
        w = []
        for e in env.flat(ps):
            s = spec(env, asc, e, small)
            w += s[::-1] if desc else s
        if kind == 'fortran':
            ps = ps.T.copy().T
            lev = np.repeat(lev, 2)[::2]
        if kind in ('ndarray', 'fortran'):
            got = gc.delta_pressure(lev, ps)
            env.same('type', isinstance(got, np.ndarray), True)
        else:
            dims = ('time', 'x')[-ps.ndim :]
            da = xr.DataArray(ps, dims=dims, coords={dims[-1]: [5, 6]}, attrs={'units': 'hPa', 'src': 'ps'})
            pl = xr.DataArray(lev, dims='plev', attrs={'units': 'Pa', 'name': 'levels'}) if kind == 'xrboth' else lev
            got = gc.delta_pressure(pl, da)
            env.same('type', isinstance(got, xr.DataArray), True)
            env.same('dims', got.dims, dims + ('lev',))
            env.same('coord', list(got[dims[-1]].values), [5, 6])
            env.same('attrs-kept', got.attrs.get('units'), 'Pa' if kind == 'xrboth' else 'hPa')
            env.close('lev-coord', got['lev'], list(lev))
        env.same('shape', tuple(got.shape), tuple(ps.shape) + (3,))
        env.close('thickness', got, w, 1e-9, 1e-9)

    return h


def h_missing(kind, shape):
    def h(env):
        lev = column(env, 3)
        ps = env.array('ps', shape, 0.5, 1200, nan=True)
        w = []
        for e in env.flat(ps):
            bad = env.isnan(e)
            env.assume(env.Or(bad, e >= lev[0]))
            w += [env.ite(bad, float('nan'), q) for q in spec(env, list(lev), e, lev[0])]
        if kind == 'scalar':
            got = gc.delta_pressure(lev, env.flat(ps)[0])
        elif kind == 'xr':
            got = gc.delta_pressure(xr.DataArray(lev, dims='plev'), xr.DataArray(ps, dims=('t', 'x')[-ps.ndim :]))
        else:
            got = gc.delta_pressure(lev, ps)
        env.close('thickness', got, w, 1e-9, 1e-9)

    return h


ERA = [1.0, 2, 3, 5, 7, 10, 20, 30, 50, 70, 100, 125, 150, 175, 200, 225, 250, 300, 350, 400, 450, 500, 550, 600, 650, 700, 750, 775, 800, 825, 850, 875, 900, 925, 950, 975, 1000]


def h_fixed(n, desc, kind, top=False):
    """a usual set of levels, any surface pressure (and top)"""

    def h(env):
        asc = ERA[:: len(ERA) // n][-n:]
        lev = env.mkarray(asc[::-1] if desc else asc)
        kw, t = {}, asc[0]
        if top:
            t = kw['pressure_top'] = env.real('top', 0, asc[0])
        if kind == 'scalar':
            ps = env.array('ps', 1, asc[0], 1100)
            got = gc.delta_pressure(lev, ps[0], **kw)
        else:
            # a field with one unknown and one missing surface pressure
            shape = (3, 4) if kind == 'np' else (2, 3, 2)
            m = int(np.prod(shape))
            v = [1010.0 - 30 * ((5 * i) % 7) for i in range(m)]
            v[m // 2] = env.real('ps', asc[0], 1100)
            v[m - 2] = float('nan')
            ps = env.mkarray(v, shape)
            if kind == 'np':
                got = gc.delta_pressure(lev, ps, **kw)
            else:
                dims = ('time', 'lat', 'lon')
                got = gc.delta_pressure(xr.DataArray(lev, dims='plev'), xr.DataArray(ps, dims=dims, coords={'lat': [1.0, 2.0, 3.0]}), **kw)
                env.same('dims', got.dims, dims + ('lev',))
                env.same('lat', list(got['lat'].values), [1.0, 2.0, 3.0])
        env.same('shape', tuple(np.shape(got)), (() if kind == 'scalar' else tuple(ps.shape)) + (len(asc),))
        w = []
        for e in env.flat(ps):
            q = spec(env, asc, e, t) if not (isinstance(e, float) and e != e) else [float('nan')] * len(asc)
            w += q[::-1] if desc else q
        env.close('thickness', got, w, 1e-9, 1e-9)

    return h


def h_alias(env):
    lev = column(env, 3)
    ps = env.real('ps', 0.5, 1200)
    env.assume(ps >= lev[0])
    env.close('same-as-delta_pressure', gc.dpres_plev(lev, ps, None), gc.delta_pressure(lev, ps), 0, 1e-9)


def h_reject(kind):
    def h(env):
        lev = column(env, 3)
        ps, top = env.real('ps', 0.5, 1200), env.real('top', -100, 1300)
        if kind == 'top-above-surface':
            env.assume(top > ps)
            env.assume(top <= lev[0])
        elif kind == 'negative-top':
            env.assume(top < 0)
        elif kind == 'top-inside-column':
            env.assume(top > lev[0])
        if kind == 'surface-above-column':
            env.assume(ps < lev[0])
            env.raises(kind, ValueError, lambda: gc.delta_pressure(lev, ps))
            env.raises(kind, ValueError, lambda: gc.delta_pressure(lev, env.mkarray([ps])))
        else:
            env.raises(kind, ValueError, lambda: gc.delta_pressure(lev, ps, pressure_top=top))

    return h


INTS = {'column3': ('lev', 'ps', 'top'), 'column3-desc-top': ('lev', 'ps', 'top'), 'surface2-ndarray': ('ps', 'lev'), 'missing-ndarray': ('lev',)}  # cases repeated with integer input


def cases(tier):
    cs = []
    ns = (2, 3, 4, 5, 7) if tier == 'quick' else (2, 3, 4, 5, 6, 7, 8, 10)
    for n in ns:
        for desc in (False, True):
            for top in (False, True):
                cs.append(Case(f'column{n}{"-desc" if desc else ""}{"-top" if top else ""}', h_col(n, desc, 'ndarray', top), weight=n))
    cs += [Case('list', h_col(3, False, 'list', False)), Case('xarray-levels', h_col(3, False, 'xrlev', False))]
    cs += [Case('xarray-levels-desc', h_col(3, True, 'xrlev', False))]
    for s in ((2,), (1, 2)):
        for k in ('ndarray', 'xrps', 'xrboth'):
            cs.append(Case(f'surface{"x".join(map(str, s))}-{k}', h_nd(s, k), weight=3))
    cs.append(Case('surface2x2-fortran', h_nd((2, 2), 'fortran'), weight=4))
    cs.append(Case('surface2-desc', h_nd((2,), 'ndarray', True)))
    cs += [Case('missing-scalar', h_missing('scalar', (1,))), Case('missing-ndarray', h_missing('ndarray', (2,))), Case('missing-xarray', h_missing('xr', (1, 2)))]
    for n in (12, 18, 37):
        for desc in (False, True):
            cs.append(Case(f'fixed{n}{"-desc" if desc else ""}', h_fixed(n, desc, 'scalar', n == 18), weight=4))
    cs += [Case('fixed12-field', h_fixed(12, False, 'np'), weight=4), Case('fixed18-field-desc', h_fixed(18, True, 'xr', True), weight=4)]
    cs.append(Case('alias', h_alias))
    for k in ('top-above-surface', 'negative-top', 'top-inside-column', 'surface-above-column'):
        cs.append(Case('reject-' + k, h_reject(k)))
    return cs
