"""Extrapolation below the lowest model level."""
import numpy as np
import xarray as xr

import geocat.comp as gc
from symx.harness import Case

from ._util import NAN, monotone

ID = 'C10'
PROP = dict(
    title='Below-ground extrapolation follows the ECMWF formulas and changes nothing else',
    statement=(
        'With extrapolate=True, requested pressures greater than the pressure of the lowest model level (the level with the largest level coordinate) receive, column by column, '
        'the ECMWF extrapolated temperature (variable="temperature"), the ECMWF extrapolated geopotential height (variable="geopotential"), or the value of the lowest model level '
        '(variable="other"), computed from that column\'s surface pressure, bottom temperature and surface geopotential, and missing where one of those is. All requested pressures at or above (in height) the lowest level are exactly what the call without '
        'extrapolation returns, and dimensions, order and coordinates are the same.'
    ),
    quantifier=dict(over=['inputs'], text='all temperatures 150..350 K, surface geopotentials -1000..60000, surface pressures 30..110 kPa, levels up to 120 kPa and all data; 2 to 3 model levels, ascending or descending, 1..2 output levels, up to 2 columns'),
    why_tests_cant='The formulas have several regimes (height below 2000 m, 2000 to 2500 m, above; temperature thresholds 255, 290.5 and 298 K); tests compare one file at a loose tolerance and only reach some of them.',
    anchors=dict(
        files=['geocat/comp/interpolation.py'],
        mechanism=[dict(name=n, where='geocat/comp/interpolation.py') for n in ('_vertical_remap_extrap', '_temp_extrapolate', '_geo_height_extrapolate', 'interp_hybrid_to_pressure')],
    ),
)
FUNCS = [
    'geocat.comp.interpolation.interp_hybrid_to_pressure',
    'geocat.comp.interpolation._vertical_remap_extrap',
    'geocat.comp.interpolation._temp_extrapolate',
    'geocat.comp.interpolation._geo_height_extrapolate',
]
BOUNDS = '2..3 model levels with fixed hybrid coefficients, 1..2 requested levels, 1..2 columns (4 for one regime; also the 21 mandatory levels), layouts (t,lev), (lev,x), (t,lev,x), (x,lev); t_bot in [150,350], phi_sfc in [-1000,60000] (away from 0), data and these possibly missing, ps in [30000,110000]'
OUTSIDE = 'surface geopotential within 1e-3 of zero for the regimes that divide by it, missing surface pressure, hybrid coefficients without level labels, rounding'

NAN = float('nan')
RD, G = 287.04, 9.80616
GI = 1 / G
AL = 0.0065 * RD * GI


def temp(env, tb, p, psl, ps, phi):
    """ECMWF IFS documentation / NCL vinth2p_ecmwf"""
    ts = tb * (1 + AL * (ps / psl - 1))
    z = phi * GI
    t0 = ts + 0.0065 * z
    y = env.log(p / ps)
    tpl = env.fmin(298.0, t0)
    tp = env.ite(z > 2500, tpl, 0.002 * ((2500 - z) * t0 + (z - 2000) * tpl))
    x = env.ite(z < 2000, AL * y, env.ite(tp < ts, 0.0, RD * (tp - ts) / phi * y))
    return ts * (1 + x + 0.5 * x * x + 1 / 6 * x * x * x)


def geo(env, tb, p, psl, ps, phi):
    ts = tb * (1 + AL * (ps / psl - 1))
    z = phi * GI
    t0 = ts + 0.0065 * z
    hot0 = t0 > 290.5
    hots = ts > 290.5
    a = env.ite(hot0, env.ite(hots, 0.0, RD / phi * (290.5 - ts)), AL)
    ts = env.ite(env.And(hot0, hots), (290.5 + ts) / 2, ts)
    ts = env.ite(ts < 255, (255 + ts) / 2, ts)
    y = env.log(p / ps)
    x = a * y
    return z - RD * ts * GI * y * (1 + 0.5 * x + 1 / 6 * x * x)


MAND = [1000, 925, 850, 700, 500, 400, 300, 250, 200, 150, 100, 70, 50, 30, 20, 10, 7, 5, 3, 2, 1]


def coef(n, desc):
    A = [0.1, 0.02, 0.0][-n:]
    B = [0.1, 0.5, 0.99][-n:]
    return (A[::-1], B[::-1]) if desc else (A, B)


def h(var, n=2, M=1, layout=('t', 'lev'), desc=False, where='below', dask=None, phi_range=None, method='linear', nolev=False, gaps=False, sizes=None, auxT=False, mand=False, found=False, ps_range=(30000, 110000), order=None):
    def run(env):
        size = {'lev': n, 'x': 2, 't': 1, **(sizes or {})}
        m = M
        others = [d for d in layout if d != 'lev']
        osh = tuple(size[d] for d in others)
        ncol = int(np.prod(osh))
        A, B = coef(n, desc)
        crd = {d: [5 * i + 2 for i in range(size[d])] for d in others}
        lab = [100.0 * k + 1 for k in range(n)]
        lab = lab[::-1] if desc else lab
        bot = 0 if desc else n - 1
        plo, phi_ = phi_range or (-1000, 60000)
        v = env.array('v', tuple(size[d] for d in layout), -100, 100, nan=gaps)
        ps = env.array('ps', osh, *ps_range)
        tb = env.array('tb', osh, 150, 350, nan=gaps)
        ph = env.array('phi', osh, plo, phi_, nan=gaps)
        if mand:
            lv = [100.0 * q for q in MAND]
            m = len(lv)
        else:
            lv = env.array('plev', m, 100, 120000)
            if order:
                # requested in another order
                for a, b in zip(order[:-1], order[1:]):
                    env.assume(lv[b] - lv[a] > 1)
            else:
                monotone(env, lv)
        if plo <= 0 and var == 'geopotential':
            for e in env.flat(ph):
                env.assume(env.Or(e > 1.0, e < -1.0))
        psl = [A[bot] * 100000.0 + B[bot] * e for e in env.flat(ps)]
        if where == 'below':
            for j in range(m):
                for q in psl:
                    env.assume(lv[j] > q)
        lc = {} if nolev else {'lev': ('lev', lab, {'positive': 'down'} if found else {})}
        X = lambda q: xr.DataArray(q, dims=others, coords=crd)
        D = xr.DataArray(v, dims=layout, coords={**crd, **lc}, name='T', attrs={'u': 1})
        S, T, P = X(ps), X(tb), X(ph)
        if auxT:
            T, P = T.transpose(*others[::-1]), P.transpose(*others[::-1])
        if dask:
            D = D.chunk(dask)
            S, T, P = [q.chunk({k: c for k, c in dask.items() if k in q.dims}) for q in (S, T, P)]
        H = [xr.DataArray(env.mkarray(q), dims='lev', coords=lc) for q in (A, B)]
        kw = dict(method=method)
        if not mand:
            kw['new_levels'] = lv
        if not found:
            kw['lev_dim'] = 'lev'
        got = gc.interp_hybrid_to_pressure(D, S, *H, extrapolate=True, variable=var, t_bot=T, phi_sfc=P, **kw)
        odims = tuple('plev' if d == 'lev' else d for d in layout)
        env.same('dims', got.dims, odims)
        env.same('coords', set(map(str, got.coords)), {'plev', *others})
        env.close('plev-coord', got['plev'], list(lv), 1e-9, 1e-6)
        for d in others:
            env.same('coord-' + d, list(got[d].values), crd[d])
        gf = env.flat(got.transpose(*others, 'plev'))
        vf = env.flat(D.transpose(*others, 'lev'))
        base = None
        if where != 'below':
            base = env.flat(gc.interp_hybrid_to_pressure(D, S, *H, **kw).transpose(*others, 'plev'))
        pf, tf, hf = env.flat(ps), env.flat(tb), env.flat(ph)
        for c in range(ncol):
            for j in range(m):
                if var == 'temperature':
                    w = temp(env, tf[c], lv[j], psl[c], pf[c], hf[c])
                elif var == 'geopotential':
                    w = geo(env, tf[c], lv[j], psl[c], pf[c], hf[c])
                else:
                    w = vf[c * n + bot]
                if gaps and var != 'other':
                    w = env.ite(env.Or(env.isnan(tf[c]), env.isnan(hf[c])), NAN, w)
                if base is not None:
                    w = env.ite(lv[j] <= psl[c], base[c * m + j], w)
                env.close('value', [gf[c * m + j]], [w], 1e-6, 1e-6)

    return run


INTS = {'temperature-below': ('v', 'tb', 'phi'), 'other-any': ('v',), 'other-desc': ('v', 'ps'), 'other-dask': ('v',)}  # cases repeated with integer input


def cases(tier):
    cs = []
    for var in ('temperature', 'geopotential'):
        cs.append(Case(f'{var}-below', h(var), weight=3))
        cs.append(Case(f'{var}-desc', h(var, desc=True), weight=3))
        cs.append(Case(f'{var}-any', h(var, where='any'), weight=3))
        cs.append(Case(f'{var}-2cols', h(var, layout=('lev', 'x')), weight=3))
        cs.append(Case(f'{var}-missing', h(var, gaps=True, phi_range=(1, 19000)), weight=3))
        cs.append(Case(f'{var}-missing-high', h(var, gaps=True, phi_range=(24600, 60000), layout=('x', 'lev')), weight=3))
        cs.append(Case(f'{var}-missing-any', h(var, gaps=True, phi_range=(19700, 24500), where='any'), weight=3))
        cs.append(Case(f'{var}-dask', h(var, layout=('t', 'lev'), dask={'t': 1}), weight=3))
        for nm, r in (('low', (1, 19000)), ('mid', (19700, 24500)), ('high', (24600, 60000)), ('neg', (-1000, -1))):
            cs.append(Case(f'{var}-{nm}', h(var, phi_range=r), weight=2))
    cols4 = dict(layout=('t', 'lev', 'x'), sizes={'t': 2})
    cs.append(Case('temperature-4cols-low', h('temperature', phi_range=(1, 19000), **cols4), weight=3))
    cs.append(Case('temperature-auxT', h('temperature', phi_range=(24600, 60000), layout=('t', 'x', 'lev'), auxT=True, sizes={'t': 2}), weight=3))
    cs.append(Case('geopotential-auxT', h('geopotential', layout=('x', 'lev', 't'), auxT=True, sizes={'x': 1, 't': 2}, phi_range=(1, 60000)), weight=3))
    mk = dict(mand=True, where='any', ps_range=(90000, 99000))
    cs.append(Case('temperature-mandatory', h('temperature', phi_range=(1, 19000), **mk), weight=3))
    cs.append(Case('geopotential-mandatory', h('geopotential', phi_range=(1, 60000), **mk), weight=3))
    cs.append(Case('temperature-unsorted', h('temperature', M=3, order=(2, 0, 1), phi_range=(1, 19000)), weight=2))
    cs.append(Case('temperature-found', h('temperature', phi_range=(1, 19000), found=True), weight=2))
    for nm, k in (
        ('below', {}),
        ('unsorted', dict(M=3, order=(1, 2, 0), where='any')),
        ('unsorted-dask', dict(M=3, order=(2, 0, 1), where='any', dask={'t': 1})),
        ('4cols', cols4),
        ('mandatory', mk),
        ('found', dict(found=True, desc=True, where='any')),
        ('desc', dict(desc=True)),
        ('any', dict(where='any')),
        ('3lev-any', dict(n=3, M=2, where='any')),
        ('3d', dict(layout=('t', 'lev', 'x'))),
        ('xlev', dict(layout=('x', 'lev'))),
        ('dask', dict(dask={'t': 1})),
        ('missing', dict(gaps=True, where='any')),
        ('missing-2cols', dict(gaps=True, layout=('lev', 'x'))),
        ('nolev', dict(nolev=True)),
        ('log', dict(method='log', where='any')),
    ):
        cs.append(Case(f'other-{nm}', h('other', **k), weight=2))
    return cs
