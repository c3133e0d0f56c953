"""Hybrid to pressure level interpolation (inside the column)."""
import numpy as np
import xarray as xr

import geocat.comp as gc
from symx.harness import Case

from ._util import NAN, lin, monotone

ID = 'C09'
PROP = dict(
    title='Hybrid-to-pressure interpolation is exact, columnwise and never extrapolates',
    statement=(
        'For every column, each requested pressure inside the range of the column\'s hybrid-level pressures A*p0 + B*ps receives the value interpolated linearly in pressure '
        '(or in log pressure) between the two surrounding levels, reproducing the data at a level, and every requested pressure outside that range is missing unless '
        'extrapolation is requested; a missing surface pressure or a missing surrounding value makes it missing. The result at a point depends only on that point\'s column and surface pressure, wherever the level dimension sits and whatever '
        'the dimension order of the surface pressure; the level dimension is replaced in place by "plev" labelled with the requested levels in the order given '
        'and all other dimensions, coordinates, name and attributes are kept. Without requested levels the 21 mandatory pressure levels (1000 to 1 hPa) are used; without a level dimension name it is the one marked vertical by CF metadata (positive or standard name).'
    ),
    quantifier=dict(over=['inputs'], text='all real data, surface pressures, coefficients and requested levels; 2 to 21 model levels, 1 to 3 or the 21 mandatory output levels, up to 2x2 columns, both methods'),
    why_tests_cant='Tests compare one model file at mandatory levels; bracketing, bounds and column independence depend on the ordering of all pressures involved.',
    anchors=dict(
        files=['geocat/comp/interpolation.py'],
        mechanism=[dict(name=n, where='geocat/comp/interpolation.py') for n in ('interp_hybrid_to_pressure', '_interpolate_mb', '_vertical_remap', 'pressure_at_hybrid_levels')],
    ),
)
FUNCS = [
    'geocat.comp.interpolation.interp_hybrid_to_pressure',
    'geocat.comp.interpolation._func_interpolate',
    'geocat.comp.interpolation.pressure_at_hybrid_levels',
    'metpy.interpolate.interpolate_1d / log_interpolate_1d (executed symbolically)',
]
BOUNDS = '2..5 model levels (linear: 7, and 12 with targets near two levels; 4 and 21 with the mandatory levels, CAM-like coefficients), 1..3 output levels, (lev), (time,lev), (lev,x), (time,lev,x) layouts with up to 2 columns (linear: 4); any data value or surface pressure missing; data in [-100,100], ps in [50000,110000], A,B in [0,1], levels in [100,120000]'
OUTSIDE = 'level dimensions recognisable by name only (refused), non-monotonic column pressures, repeated requested levels, whether a missing value counts for a target exactly on the level beside it, larger columns (columns are checked pairwise independent), pint quantities, rounding'


def cols(env, n, ncol, sym, desc=False):
    """hybrid coefficients and ps per column with strictly monotonic pressure"""
    if sym:
        a, b = env.array('a', n, 0, 1), env.array('b', n, 0, 1)
    else:
        A = [0.002, 0.05, 0.02, 0.0][:n] if n > 2 else [0.03, 0.01]
        B = [0.01, 0.4, 0.8, 1.0][:n] if n > 2 else [0.3, 0.99]
        if n > 4:
            A = [0.002 + 0.05 * k * (n - 1 - k) / n for k in range(n)]
            B = [round((k / (n - 1)) ** 1.5, 3) for k in range(n)]
        if desc:
            A, B = A[::-1], B[::-1]
        a, b = env.mkarray(A), env.mkarray(B)
    ps = env.array('ps', ncol, 50000, 110000)
    P = []
    for e in ps:
        p = [a[k] * 100000.0 + b[k] * e for k in range(n)]
        monotone(env, p, desc, 1.0 if sym else 0.0)
        if sym:
            env.assume((p[-1] if desc else p[0]) >= 10.0)
        P.append(p)
    return a, b, ps, P


def pick(env, m, desc=False):
    lv = env.array('plev', m, 100, 120000)
    monotone(env, lv, desc, 0.0)
    return lv


def h(n, m, layout, method, sym=False, desc=False, ldesc=False, dask=None, psT=False, anyorder=False, crdmode='lev', sizes=None, gaps=None, near=None):
    """layout: tuple of dims with 'lev' somewhere; other dims have size 2 ('x')
    or 1 ('t')"""

    def run(env):
        size = {'lev': n, 'x': 2, 't': 1, 'x1': 1, **(sizes or {})}
        others = [d for d in layout if d != 'lev']
        ncol = int(np.prod([size[d] for d in others])) if others else 1
        a, b, ps, P = cols(env, n, ncol, sym, desc)
        if anyorder:
            lv = env.array('plev', m, 100, 120000)
            for i in range(m):
                for j in range(i):
                    env.assume(env.Or(lv[i] - lv[j] > 1, lv[j] - lv[i] > 1))
        elif near is not None:
            # targets around some of the levels of the first column only
            lv = env.mkarray([env.real(f'plev_{j}', 0.9 * q, 1.1 * q) for j, q in enumerate(near)])
            monotone(env, lv)
        else:
            lv = pick(env, m, ldesc)
        shp = tuple(size[d] for d in layout)
        v = env.array('v', shp, -100, 100, nan=gaps == 'data')
        if gaps:
            # at a level itself a missing neighbour may or may not count
            for p in P:
                for x in lv:
                    for q in p:
                        env.assume(env.Or(x > q, x < q))
        if gaps == 'ps':
            gone = [env.boolean(f'gone{c}') for c in range(ncol)]
            ps = env.mkarray([NAN if q else e for e, q in zip(ps, gone)])
        oshape = tuple(size[d] for d in others)
        crd = {d: [10 * i + 3 for i in range(size[d])] for d in others}
        lab = [float(k) for k in range(n)] if desc is False else [float(n - k) for k in range(n)]
        dc = dict(crd)
        if crdmode in ('lev', 'aux'):
            dc['lev'] = lab
        if crdmode == 'aux':
            dc['height'] = ('lev', [7.0 + k for k in range(n)])
            dc['scalar'] = 42
            dc['name2'] = ('t', ['a'])
        D = xr.DataArray(v, dims=layout, coords=dc, name='T', attrs={'units': 'K'})
        pdims = list(others)
        psa = ps.reshape(oshape) if others else ps[0] * env.mkarray([1.0])[0]
        if others:
            S = xr.DataArray(psa, dims=pdims, coords=crd)
        else:
            S = xr.DataArray(env.mkarray([ps[0]]).reshape(()))
        if psT:
            S = S.transpose(*pdims[::-1])
        hc = {'lev': lab} if crdmode != 'none' else {}
        H, B = xr.DataArray(a, dims='lev', coords=hc), xr.DataArray(b, dims='lev', coords=hc)
        if dask is not None:
            D = D.chunk(dask)
            S = S.chunk({k: c for k, c in dask.items() if k in S.dims})
        env.witness('inside', env.And(lv[0] > env.fmin(P[0][0], P[0][-1]), lv[0] < env.fmax(P[0][0], P[0][-1])))
        env.witness('below', lv[-1] > env.fmax(P[0][0], P[0][-1]))
        kw = {'method': method} if method else {}
        got = gc.interp_hybrid_to_pressure(D, S, H, B, new_levels=lv, lev_dim='lev', **kw)
        odims = tuple('plev' if d == 'lev' else d for d in layout)
        env.same('dims', got.dims, odims)
        env.same('shape', tuple(got.shape), tuple(m if d == 'lev' else size[d] for d in layout))
        env.same('name', got.name, 'T')
        env.same('attrs', dict(got.attrs), {'units': 'K'})
        env.close('plev-coord', got['plev'], list(lv), 1e-9, 1e-6)
        for d in others:
            env.same('coord-' + d, list(got[d].values), crd[d])
        if crdmode == 'aux':
            env.same('aux-coords', (int(got['scalar']), list(got['name2'].values), 'height' in got.coords), (42, ['a'], False))
        g = got.transpose(*(others + ['plev']))
        vv = D.transpose(*(others + ['lev']))
        gf, vf = env.flat(g), env.flat(vv)
        for c in range(ncol):
            for j in range(m):
                f = env.log if method == 'log' else (lambda q: q)
                # bounds are decided on pressure itself
                p = P[c]
                inside = env.And(lv[j] >= env.fmin(p[0], p[-1]), lv[j] <= env.fmax(p[0], p[-1]))
                w = NAN
                for k in range(n - 1):
                    q0, q1 = f(p[k]), f(p[k + 1])
                    val = vf[c * n + k] + (f(lv[j]) - q0) / (q1 - q0) * (vf[c * n + k + 1] - vf[c * n + k])
                    here = env.Or(env.And(lv[j] >= p[k], lv[j] <= p[k + 1]), env.And(lv[j] <= p[k], lv[j] >= p[k + 1]))
                    w = env.ite(here, val, w)
                del inside
                if gaps == 'ps' and gone[c]:
                    w = NAN
                env.close('value', [gf[c * m + j]], [w], 1e-6, 1e-6)

    return run


def h_at_level(method):
    """a requested pressure equal to a level's pressure returns the data"""

    def run(env):
        n = 3
        a, b, ps, P = cols(env, n, 1, False)
        v = env.array('v', n, -100, 100)
        lv = env.mkarray(P[0])
        got = gc.interp_hybrid_to_pressure(
            xr.DataArray(v.reshape(1, n), dims=('t', 'lev'), coords={'lev': [1.0, 2.0, 3.0]}),
            xr.DataArray(ps, dims='t'),
            xr.DataArray(a, dims='lev'),
            xr.DataArray(b, dims='lev'),
            new_levels=lv,
            lev_dim='lev',
            method=method,
        )
        env.close('reproduces-data', got, list(v), 1e-8, 1e-8)

    return run


def h_p0(env):
    n = 2
    p0 = env.real('p0', 50000, 150000)
    ps = env.array('ps', 1, 50000, 110000)
    a, b = env.mkarray([0.1, 0.05]), env.mkarray([0.2, 0.9])
    P = [a[k] * p0 + b[k] * ps[0] for k in range(n)]
    monotone(env, P)
    lv = pick(env, 1)
    v = env.array('v', (1, n), -100, 100)
    X = lambda q, d: xr.DataArray(q, dims=d)
    got = gc.interp_hybrid_to_pressure(X(v, ('t', 'lev')), X(ps, 't'), X(a, 'lev'), X(b, 'lev'), p0=p0, new_levels=lv, lev_dim='lev')
    env.close('value', got, [lin(env, lv[0], P, list(v[0]))], 1e-6, 1e-6)


CAM_A = [0.0036, 0.0076, 0.0144, 0.0246, 0.0359, 0.0432, 0.0517, 0.0615, 0.0738, 0.0878, 0.103, 0.1214, 0.1428, 0.168, 0.1651, 0.1474, 0.1245, 0.0959, 0.0624, 0.0229, 0.0]
CAM_B = [0.0] * 14 + [0.0327, 0.1106, 0.2115, 0.3381, 0.4861, 0.6606, 0.985]


def h_default_levels(n, dims, lev=None, attrs=None, step=1):
    """no new_levels: the mandatory levels; no lev_dim: found from the metadata"""
    mand = [1000, 925, 850, 700, 500, 400, 300, 250, 200, 150, 100, 70, 50, 30, 20, 10, 7, 5, 3, 2, 1]

    def run(env):
        A, B = CAM_A[::step][-n:], CAM_B[::step][-n:]
        ps = env.mkarray([env.real('ps', 95000, 104000)])
        v = env.mkarray([env.real('v', -100, 100) if k == n - 2 else 2.0 * k for k in range(n)])
        zz = dims[1]
        X = lambda q, d, c=None: xr.DataArray(q, dims=d, coords=c)
        crd = {zz: (zz, [float(k) for k in range(n)], attrs or {})}
        D = X(v.reshape(1, n), dims, crd)
        kw = {} if lev is None else {'lev_dim': lev}
        got = gc.interp_hybrid_to_pressure(D, X(ps, dims[0]), X(env.mkarray(A), zz, crd), X(env.mkarray(B), zz, crd), **kw)
        env.same('dims', got.dims, (dims[0], 'plev'))
        env.same('levels', [float(q) for q in got['plev'].values], [100.0 * q for q in mand])
        P = [A[k] * 100000.0 + B[k] * ps[0] for k in range(n)]
        want = [lin(env, 100.0 * q, P, list(v)) for q in mand]
        env.close('value', got, want, 1e-6, 1e-6)

    return run


def h_named(zname, attrs, dask=None):
    """the level dimension is recognised by name or metadata"""

    def run(env):
        a, b, ps, P = cols(env, 3, 1, False)
        v = env.array('v', (1, 3), -100, 100)
        lv = pick(env, 1)
        crd = {zname: (zname, [1.0, 2.0, 3.0], attrs), 'time': ('time', np.array(['2001-01-01'], 'M8[ns]'))}
        D = xr.DataArray(v, dims=('time', zname), coords=crd)
        S = xr.DataArray(ps, dims='time', coords={'time': crd['time']})
        if dask:
            D, S = D.chunk({'time': 1}), S.chunk({'time': 1})
        got = gc.interp_hybrid_to_pressure(D, S, xr.DataArray(a, dims=zname), xr.DataArray(b, dims=zname), new_levels=lv)
        env.same('dims', got.dims, ('time', 'plev'))
        env.same('time', got['time'].values.astype(str).tolist(), ['2001-01-01T00:00:00.000000000'])
        env.close('value', got, [lin(env, lv[0], P[0], list(v[0]))], 1e-6, 1e-6)

    return run


def h_reject(env):
    v, ps = env.array('v', (1, 2), -1, 1), env.array('ps', 1, 50000, 110000)
    a, b = env.mkarray([0.1, 0.05]), env.mkarray([0.2, 0.9])
    X = lambda q, d: xr.DataArray(q, dims=d)
    D, S, A, B = X(v, ('t', 'lev')), X(ps, 't'), X(a, 'lev'), X(b, 'lev')
    f = gc.interp_hybrid_to_pressure
    lv = env.mkarray([60000.0])
    env.raises('numpy-data', TypeError, lambda: f(v, S, A, B, new_levels=lv, lev_dim='lev'))
    env.raises('numpy-ps', TypeError, lambda: f(D, ps, A, B, new_levels=lv, lev_dim='lev'))
    env.raises('numpy-hyam', TypeError, lambda: f(D, S, a, B, new_levels=lv, lev_dim='lev'))
    env.raises('numpy-hybm', TypeError, lambda: f(D, S, A, b, new_levels=lv, lev_dim='lev'))
    env.raises('unknown-method', ValueError, lambda: f(D, S, A, B, new_levels=lv, lev_dim='lev', method='cubic'))
    env.raises('extrapolate-without-variable', ValueError, lambda: f(D, S, A, B, new_levels=lv, lev_dim='lev', extrapolate=True))
    env.raises('temperature-needs-t_bot', ValueError, lambda: f(D, S, A, B, new_levels=lv, lev_dim='lev', extrapolate=True, variable='temperature'))
    tb, ph = X(env.array('tb', 1, 200, 320), 't'), X(env.array('ph', 1, 0, 20000), 't')
    for var in ('temperature', 'geopotential'):
        for nm, kw in (('neither', {}), ('no-phi_sfc', {'t_bot': tb}), ('no-t_bot', {'phi_sfc': ph})):
            env.raises(f'{var}-{nm}', ValueError, lambda kw=kw, var=var: f(D, S, A, B, new_levels=lv, lev_dim='lev', extrapolate=True, variable=var, **kw))
    env.raises('unknown-variable', ValueError, lambda: f(D, S, A, B, new_levels=lv, lev_dim='lev', extrapolate=True, variable='wind'))
    env.raises('no-vertical-dim', ValueError, lambda: f(X(v, ('t', 'q')), S, X(a, 'q'), X(b, 'q'), new_levels=lv))


INTS = {'linear-3lev-2out': ('v', 'plev'), 'linear-2cols-3d': ('v', 'ps'), 'dask-any-order': ('v',), 'log-2cols-levfirst': ('v',)}  # cases repeated with integer input


def cases(tier):
    cs = []
    for method in ('linear', 'log'):
        cs.append(Case(f'{method}-2lev-1out-symcoef', h(2, 1, ('t', 'lev'), method, sym=True), weight=3))
        cs.append(Case(f'{method}-3lev-1out', h(3, 1, ('t', 'lev'), method)))
        cs.append(Case(f'{method}-3lev-2out', h(3, 2, ('t', 'lev'), method), weight=3))
        cs.append(Case(f'{method}-3lev-desc-2out', h(3, 2, ('t', 'lev'), method, desc=True), weight=3))
        cs.append(Case(f'{method}-2lev-2out-desc', h(2, 2, ('t', 'lev'), method, ldesc=True), weight=2))
        cs.append(Case(f'{method}-2cols-levfirst', h(2, 1, ('lev', 'x'), method), weight=3))
        cs.append(Case(f'{method}-2cols-levlast', h(2, 1, ('x', 'lev'), method), weight=3))
        cs.append(Case(f'{method}-2cols-3d', h(2, 1, ('t', 'lev', 'x'), method), weight=3))
        cs.append(Case(f'{method}-2cols-psT', h(2, 1, ('t', 'lev', 'x'), method, psT=True), weight=3))
        cs.append(Case(f'{method}-at-level', h_at_level(method)))
        cs.append(Case(f'{method}-any-order', h(2, 3, ('t', 'lev'), method, anyorder=True), weight=4))
        if method == 'linear':
            cs.append(Case('linear-7lev', h(7, 1, ('t', 'lev'), method), weight=3))
            cs.append(Case('linear-12lev', h(12, 2, ('t', 'lev'), method, near=(30000.0, 70000.0)), weight=3))
            cs.append(Case('linear-4cols', h(2, 1, ('t', 'x', 'lev'), method, sizes={'t': 2}), weight=3))
        cs.append(Case(f'{method}-4lev', h(4, 1, ('t', 'lev'), method), weight=3))
        cs.append(Case(f'{method}-5lev', h(5, 1, ('t', 'lev'), method, near=(50000.0,)), weight=3))
        cs.append(Case(f'{method}-missing', h(3, 1, ('t', 'lev'), method, gaps='data')))
        cs.append(Case(f'{method}-missing-2cols', h(2, 1, ('lev', 'x'), method, gaps='data')))
        cs.append(Case(f'{method}-missing-ps', h(2, 1, ('lev', 'x'), method, gaps='ps')))
    cs.append(Case('no-lev-coord', h(2, 2, ('t', 'lev'), 'linear', crdmode='none')))
    cs.append(Case('aux-coords', h(2, 2, ('t', 'lev'), 'linear', crdmode='aux')))
    cs.append(Case('dask-any-order', h(2, 3, ('t', 'lev'), 'linear', anyorder=True, dask={'t': 1}), weight=3))
    cs.append(Case('default-method', h(2, 1, ('t', 'lev'), None)))
    for nm, ch in (('t', {'t': 1}), ('lev1', {'t': 1, 'lev': -1}), ('x', {'x': 1}), ('levsplit', {'lev': 1})):
        lay = ('t', 'lev', 'x') if nm == 'x' else ('t', 'lev')
        cs.append(Case(f'dask-{nm}', h(2, 1, lay, 'linear', dask=ch), weight=4))
    cs.append(Case('mandatory-levels-4', h_default_levels(4, ('t', 'lev'), 'lev', step=6), weight=3))
    cs.append(Case('mandatory-levels-21', h_default_levels(21, ('t', 'lev'), 'lev'), weight=5))
    cs.append(Case('mandatory-levels-found', h_default_levels(4, ('t', 'lev'), None, {'positive': 'down'}, step=6), weight=3))
    for nm, at in (('lev', {'positive': 'down', 'units': 'level'}), ('k', {'positive': 'up'}), ('hy', {'standard_name': 'air_pressure'})):
        cs.append(Case(f'found-{nm}', h_named(nm, at)))
    cs.append(Case('found-dask', h_named('lev', {'positive': 'down'}, True)))
    cs += [Case('p0', h_p0), Case('reject', h_reject, novectors=True)]
    if tier == 'thorough':
        for method in ('linear', 'log'):
            cs.append(Case(f'{method}-4lev-2out', h(4, 2, ('t', 'lev'), method), weight=8))
            cs.append(Case(f'{method}-3lev-3out', h(3, 3, ('t', 'lev'), method), weight=8))
            cs.append(Case(f'{method}-2cols-3lev', h(3, 1, ('lev', 'x'), method), weight=8))
            cs.append(Case(f'{method}-3lev-1out-symcoef', h(3, 1, ('t', 'lev'), method, sym=True), weight=8))
    return cs
