"""Sigma to hybrid level interpolation."""
import numpy as np
import xarray as xr

import geocat.comp as gc
from symx.harness import Case

from ._util import NAN, monotone

ID = 'C11'
PROP = dict(
    title='Sigma-to-hybrid interpolation is exact and columnwise',
    statement=(
        'For every column, the value at hybrid level k is the data interpolated linearly in sigma (or log sigma) at sigma_k = A_k*p0/ps + B_k of that column, '
        'reproduces the data where sigma_k is a data level, and is missing where sigma_k lies outside the data\'s sigma range or the surface pressure or a surrounding value is missing. The result has the hybrid levels in dimension "hlev" in place of the level dimension '
        '(for fewer, as many or more hybrid than sigma levels), keeps the other dimensions in order with their coordinates (none of the replaced dimension), the name and the attributes, and depends only on the column\'s own data and surface pressure.'
    ),
    quantifier=dict(over=['inputs'], text='all real data and surface pressures (2..3 sigma levels, 1..3 hybrid levels, 1..2 columns, all positions of the level dimension), both methods; all hybrid coefficients and sigma levels with 2 levels'),
    why_tests_cant='Tests compare one file column; which pair of levels brackets a target depends on ps and coefficients, and shape handling on the number of levels.',
    anchors=dict(
        files=['geocat/comp/interpolation.py'],
        mechanism=[dict(name=n, where='geocat/comp/interpolation.py') for n in ('interp_sigma_to_hybrid', '_sigma_from_hybrid', '_vertical_remap')],
    ),
)
FUNCS = [
    'geocat.comp.interpolation.interp_sigma_to_hybrid',
    'geocat.comp.interpolation._sigma_from_hybrid',
    'geocat.comp.interpolation._vertical_remap',
    'metpy.interpolate.interpolate_1d / log_interpolate_1d (executed symbolically)',
]
BOUNDS = '2..3 sigma levels (linear: 8, 26), 1..3 hybrid levels (linear: 6, 26), 1..2 columns (linear: 4), any data value or surface pressure missing, 1-D to 3-D layouts; data in [-100,100], ps in [50000,110000], coefficients and sigma in [0.001,1]'
OUTSIDE = 'further column coordinates may come back with more dimensions, duplicate column labels (refused), target sigma that is not increasing with level, whether a missing value counts for a target exactly on the level beside it, value of the "hlev" coordinate with several columns (it is the first column\'s), rounding'


def h(ns, nh, layout, method='linear', sym=False, hdim='hy', dask=None, levcoord=True, psT=False, desc=False, p0=None, gaps=None, sizes=None, aux=False, found=None):
    def run(env):
        size = {'lev': ns, 'x': 2, 't': 1, 'y': 1, **(sizes or {})}
        oth = [d for d in layout if d != 'lev']
        osh = tuple(size[d] for d in oth)
        ncol = int(np.prod(osh)) if oth else 1
        if sym:
            sig = env.array('sig', ns, 0.001, 1)
            a, b = env.array('a', nh, 0.001, 1), env.array('b', nh, 0.001, 1)
        else:
            s0 = [0.15, 0.5, 0.85][:ns] if ns > 2 else [0.2, 0.8]
            if ns > 3:
                s0 = [round(0.1 + 0.8 * k / (ns - 1), 3) for k in range(ns)]
            s0 = s0[::-1] if desc else s0
            if method == 'log':
                # ranges, so that logarithms stay symbolic
                sig = env.mkarray([env.real(f'sig_{i}', q - 0.02, q + 0.02) for i, q in enumerate(s0)])
            else:
                sig = env.mkarray(s0)
            a = env.mkarray([0.1, 0.05, 0.01][-nh:])
            b = env.mkarray([0.03, 0.35, 0.8][-nh:] if nh > 1 else [0.4])
            if nh > 3:
                a = env.mkarray([round(0.1 - 0.09 * k / (nh - 1), 4) for k in range(nh)])
                b = env.mkarray([round(0.02 + 0.88 * k / (nh - 1), 3) for k in range(nh)])
        monotone(env, sig, desc, 1e-4)
        ps = env.array('ps', osh or 1, 50000, 110000)
        v = env.array('v', tuple(size[d] for d in layout), -100, 100, nan=gaps == 'data')
        P0 = 100000.0 if p0 is None else env.real('p0', 50000, 150000)
        tgt = [[a[k] * P0 / e + b[k] for k in range(nh)] for e in env.flat(ps)]
        for t in tgt:
            monotone(env, t)
            if sym:
                env.assume(t[0] < 3)
        if gaps:
            # at a level itself a missing neighbour may or may not count
            for t in tgt:
                for x in t:
                    for q in sig:
                        env.assume(env.Or(x > q, x < q))
        if gaps == 'ps':
            gone = [env.boolean(f'gone{c}') for c in range(ncol)]
            ps = env.mkarray([NAN if q else e for e, q in zip(env.flat(ps), gone)], ps.shape)
        crd = {d: [4 * i + 1 for i in range(size[d])] for d in oth}
        dc = dict(crd)
        if levcoord:
            dc['lev'] = ('lev', [float(k) for k in range(ns)], found or {})
        if aux:
            dc['height'] = ('lev', [7.0 + k for k in range(ns)])
            dc['scalar'] = 42
            dc['name'] = (oth[-1], [f'n{k}' for k in range(size[oth[-1]])])
        D = xr.DataArray(v, dims=layout, coords=dc, name='U', attrs={'units': 'm/s'})
        if oth:
            S = xr.DataArray(ps, dims=oth, coords=crd)
            if psT:
                S = S.transpose(*oth[::-1])
        else:
            S = xr.DataArray(env.mkarray([ps[0]]).reshape(()))
        if dask:
            D = D.chunk(dask)
        X = lambda q, d: xr.DataArray(q, dims=d)
        kw = {} if p0 is None else {'p0': P0}
        env.witness('inside', env.And(tgt[0][0] > env.fmin(sig[0], sig[-1]), tgt[0][0] < env.fmax(sig[0], sig[-1])))
        got = gc.interp_sigma_to_hybrid(D, X(sig, 'lev'), S, X(a, hdim), X(b, hdim), method=method, **({} if found else {'lev_dim': 'lev'}), **kw)
        env.same('dims', got.dims, tuple('hlev' if d == 'lev' else d for d in layout))
        env.same('shape', tuple(got.shape), tuple(nh if d == 'lev' else size[d] for d in layout))
        env.same('name', got.name, 'U')
        env.same('attrs', dict(got.attrs), {'units': 'm/s'})
        for d in oth:
            env.same('coord-' + d, list(got[d].values), crd[d])
        if aux:
            env.same('aux', (int(got['scalar']), sorted(set(np.ravel(got['name'].values).tolist())), 'height' in got.coords), (42, [f'n{k}' for k in range(size[oth[-1]])], False))
        if ncol == 1 and not gaps:
            env.close('hlev', got['hlev'], tgt[0], 1e-9, 1e-9)
        gf = env.flat(got.transpose(*oth, 'hlev'))
        vf = env.flat(D.transpose(*oth, 'lev'))
        f = env.log if method == 'log' else (lambda q: q)
        for c in range(ncol):
            for k in range(nh):
                x = tgt[c][k]
                w = NAN
                for j in range(ns - 1):
                    s0, s1 = sig[j], sig[j + 1]
                    q0, q1 = f(s0), f(s1)
                    val = vf[c * ns + j] + (f(x) - q0) / (q1 - q0) * (vf[c * ns + j + 1] - vf[c * ns + j])
                    here = env.Or(env.And(x >= s0, x <= s1), env.And(x <= s0, x >= s1))
                    w = env.ite(here, val, w)
                if gaps == 'ps' and gone[c]:
                    w = NAN
                env.close('value', [gf[c * nh + k]], [w], 1e-6, 1e-6)

    return run


def h_nodim(env):
    D = xr.DataArray(env.array('v', 2, -1, 1), dims='q')
    X = lambda q: xr.DataArray(env.mkarray(q), dims='q')
    env.raises('no-vertical-dim', ValueError, lambda: gc.interp_sigma_to_hybrid(D, X([0.1, 0.9]), xr.DataArray(env.real('ps', 50000, 60000)), X([0.1]), X([0.1])))
    env.raises('unknown-method', ValueError, lambda: gc.interp_sigma_to_hybrid(D, X([0.1, 0.9]), xr.DataArray(env.real('ps', 50000, 60000)), X([0.1]), X([0.1]), lev_dim='q', method='cubic'))


INTS = {'linear-1d-2to3': ('v', 'ps'), 'log-2d-levlast': ('v',), 'linear-3d': ('v',)}  # cases repeated with integer input


def cases(tier):
    cs = []
    for m in ('linear', 'log'):
        cs += [
            Case(f'{m}-1d-2to1-sym', h(2, 1, ('lev',), m, sym=True), weight=3),
            Case(f'{m}-1d-3to3', h(3, 3, ('lev',), m), weight=3),
            Case(f'{m}-1d-2to3', h(2, 3, ('lev',), m), weight=3),
            Case(f'{m}-1d-3to2-desc', h(3, 2, ('lev',), m, desc=True), weight=3),
            Case(f'{m}-2d-levfirst', h(2, 1, ('lev', 'x'), m), weight=3),
            Case(f'{m}-2d-levlast', h(3, 1, ('x', 'lev'), m), weight=3),
            Case(f'{m}-missing', h(3, 1, ('t', 'lev'), m, gaps='data'), weight=2),
            Case(f'{m}-missing-ps', h(2, 1, ('lev', 'x'), m, gaps='ps'), weight=2),
            Case(f'{m}-3d', h(2, 2, ('t', 'lev', 'x'), m), weight=4),
        ]
    cs += [
        Case('2d-2to3', h(2, 3, ('t', 'lev')), weight=2),
        Case('8to1', h(8, 1, ('t', 'lev')), weight=2),
        Case('5to6', h(5, 6, ('lev', 't')), weight=2),
        Case('4cols', h(2, 1, ('t', 'lev', 'x'), sizes={'t': 2}), weight=2),
        Case('samedim', h(3, 2, ('lev', 'x'), hdim='lev'), weight=2),
        Case('nolevcoord', h(3, 2, ('lev', 't'), levcoord=False), weight=2),
        Case('psT', h(2, 1, ('t', 'lev', 'x'), psT=True), weight=2),
        Case('aux', h(2, 2, ('t', 'lev', 'x'), aux=True), weight=2),
        Case('aux-1col', h(3, 3, ('lev', 't'), aux=True), weight=2),
        Case('found', h(2, 2, ('lev', 'x'), found={'positive': 'down'}), weight=2),
        Case('found-1d', h(3, 2, ('lev',), found={'standard_name': 'air_pressure'}), weight=2),
        Case('26to4', h(26, 4, ('t', 'lev')), weight=2),
        Case('3to26', h(3, 26, ('lev', 't')), weight=2),
        Case('dask', h(2, 2, ('lev', 'x'), dask={'x': 1}), weight=3),
        Case('p0', h(2, 1, ('lev', 't'), p0=1), weight=2),
        Case('reject', h_nodim, novectors=True),
    ]
    if tier == 'thorough':
        for m in ('linear', 'log'):
            cs += [
                Case(f'{m}-1d-3to2-sym', h(3, 2, ('lev',), m, sym=True), weight=8),
                Case(f'{m}-2d-3to3', h(3, 3, ('lev', 'x'), m), weight=8),
            ]
    return cs
