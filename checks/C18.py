"""Horizontal interpolation (interp_multidim)."""
import numpy as np
import xarray as xr

import geocat.comp as gc
from symx.harness import Case
from ._util import NAN

ID = 'C18'
PROP = dict(
    title='interp_multidim is bilinear or nearest, wraps longitudes, and never hides a gap',
    statement=(
        'For every field on a rectilinear grid (latitudes and longitudes in any order), every target point and every other index, linear interpolation gives the bilinear combination of the four surrounding grid values and nearest gives the closest grid value; '
        'the result is missing exactly when a contributing value is missing or the point lies outside the grid (replaced by fill_value, or extrapolated from the outermost cell when asked), and points marked by missing_val count, and come back, as missing. '
        'With cyclic=True the same holds on the grid continued by one column on either side across the date line. '
        'The output keeps container type and leading dimensions of the input, with the target latitudes and longitudes as last two axes.'
    ),
    quantifier=dict(over=['inputs'], text='all real fields up to 4 x 5 (x 2) with any pattern of missing values; all real target points (symbolic) for up to 2 x 2 targets; grids enumerated'),
    why_tests_cant='Tests interpolate three fixed fields to fixed points; cell selection, wrapping and gaps matter for every position of the target and every pattern of missing data.',
    anchors=dict(
        files=['geocat/comp/interpolation.py'],
        mechanism=[dict(name=n, where='geocat/comp/interpolation.py') for n in ('interp_multidim', '_pre_interp_multidim', '_post_interp_multidim')],
    ),
)
FUNCS = ['geocat.comp.interpolation.' + n for n in ('interp_multidim', '_pre_interp_multidim', '_post_interp_multidim')]
BOUNDS = 'field values real in [-1000,1000] or missing; grids 2x2 to 13x24 listed in the cases (target points fixed on the larger ones, else real) over the whole grid and beyond'
OUTSIDE = 'scipy.interpolate.interp1d itself (modelled: interval search, linear, nearest, fill values); grids that already contain the wrapped longitude; ties of nearest; a grid value of weight zero may or may not count as surrounding; methods other than linear and nearest; rounding'


def locate(env, xs, x, cyclic_vals=None):
    """-> [(condition, k)] for the cells k,k+1 (ascending xs)"""
    return [(env.And(x >= xs[k], x <= xs[k + 1]), k) for k in range(len(xs) - 1)]


def pick(env, xs, x, f):
    """f(k) of the cell holding x; the outermost cell beyond the ends"""
    n = len(xs)
    r = f(n - 2)
    for k in reversed(range(n - 2)):
        r = env.ite(x <= xs[k + 1], f(k), r)
    return r


def bilinear(env, la, lo, v, y, x):
    def row(i):
        return pick(env, lo, x, lambda k: v[i][k] + (v[i][k + 1] - v[i][k]) * ((x - lo[k]) / (lo[k + 1] - lo[k])))

    rows = [row(i) for i in range(len(la))]
    return pick(env, la, y, lambda k: rows[k] + (rows[k + 1] - rows[k]) * ((y - la[k]) / (la[k + 1] - la[k])))


def nearest(env, la, lo, v, y, x):
    def near(xs, q, vals):
        r = vals[-1]
        for k in reversed(range(len(xs) - 1)):
            r = env.ite(q < (xs[k] + xs[k + 1]) / 2, vals[k], r)
        return r

    return near(la, y, [near(lo, x, v[i]) for i in range(len(la))])


def around(env, xs, k, x, strict):
    a = xs[k - 1] if k else None
    b = xs[k + 1] if k + 1 < len(xs) else None
    c = []
    if a is not None:
        c.append(x > a if strict else x >= a)
    if b is not None:
        c.append(x < b if strict else x <= b)
    return env.And(*c)


def judge(env, la, lo, v, bad, y, x, got, method, fill, gone, tag, anybad):
    """one target point. v: values, bad: missing flags (ascending grid); gone(g): g is missing"""
    n, m = len(la), len(lo)
    inside = env.And(y >= la[0], y <= la[-1], x >= lo[0], x <= lo[-1])
    z = [[0.0 if bad[i][j] is True else v[i][j] if bad[i][j] is False else env.ite(bad[i][j], 0.0, v[i][j]) for j in range(m)] for i in range(n)]
    if method == 'nearest':
        want = nearest(env, la, lo, v, y, x)
        if fill != 'extrapolate':
            want = env.ite(inside, want, fill)
        env.close('nearest' + tag, [got], [want], 1e-9, 1e-9)
        return
    want = bilinear(env, la, lo, z, y, x)
    if not anybad:
        if fill != 'extrapolate':
            want = env.ite(inside, want, fill)
        env.close('linear' + tag, [got], [want], 1e-9, 1e-9)
        return
    must, may = [], []
    for i in range(n):
        for j in range(m):
            if bad[i][j] is not False:
                must.append(env.And(bad[i][j], around(env, la, i, y, True), around(env, lo, j, x, True)))
                may.append(env.And(bad[i][j], around(env, la, i, y, False), around(env, lo, j, x, False)))
    g = gone(got)
    env.check('gap' + tag, env.Implies(env.Or(*must, env.Not(inside)), g))
    env.check('no-gap' + tag, env.Implies(env.And(inside, g), env.Or(*may)))
    env.close('linear' + tag, [env.ite(g, want, got)], [want], 1e-9, 1e-9)


LA = [-30.0, 5.0, 20.0, 60.0]
LO = [0.0, 80.0, 200.0, 290.0, 340.0]


def h(la, lo, y, x, kind='xr', method='linear', cyclic=False, nan=False, mv=None, fill=NAN, lead=(), gaps=None, latlon=('lat', 'lon'), vlo=-1000):
    """y, x: list of floats, or (count, lo, hi) for symbolic targets"""

    def f(env):
        n, m = len(la), len(lo)
        shape = tuple(lead) + (n, m)
        v = env.array('v', shape, vlo, 1000, nan=nan and gaps is None)
        if mv is not None:
            v = env.mkarray([env.ite(env.boolean(f'm{i}'), float(mv), e) if i % 2 == 0 else e for i, e in enumerate(v.reshape(-1))], shape)
        if gaps:
            e = [NAN if (i % (n * m)) in gaps else q for i, q in enumerate(v.reshape(-1))]
            v = env.mkarray(e, shape)

        def target(t, nm, nodes):
            if not isinstance(t, tuple):
                return t, np.array(t, float)
            a = env.array(nm, (t[0],), t[1], t[2])
            if method == 'nearest':
                for q in a:
                    for c, d in zip(nodes[:-1], nodes[1:]):
                        env.assume(env.Not(q == (c + d) / 2))
            return list(a), a

        sa, so = sorted(range(n), key=lambda i: la[i]), sorted(range(m), key=lambda j: lo[j])
        gla = [la[i] for i in sa]
        glo = [lo[j] for j in so]
        cols = list(so)
        if cyclic:
            glo = [glo[-1] - 360] + glo + [glo[0] + 360]
            cols = [cols[-1]] + cols + [cols[0]]
        ys, ya = target(y, 'y', gla)
        xs, xa = target(x, 'x', glo)
        kw = {}
        if cyclic:
            kw['cyclic'] = True
        if mv is not None:
            kw['missing_val'] = mv
        if method != 'linear':
            kw['method'] = method
        if fill == fill:
            kw['fill_value'] = fill
        if kind == 'xr':
            dims = tuple(f't{k}' for k in range(len(lead))) + latlon
            coords = {latlon[0]: list(la), latlon[1]: list(lo)}
            coords.update({f't{k}': [7.0 + 2 * q for q in range(s)] for k, s in enumerate(lead)})
            src = xr.DataArray(v, dims=dims, coords=coords)
            got = gc.interp_multidim(src, ya, xa, **kw)
            env.same('type', isinstance(got, xr.DataArray), True)
            env.same('dims', got.dims, dims)
            for k in range(len(lead)):
                env.same('lead-coord', got[f't{k}'].values.tolist(), coords[f't{k}'])
            env.close('lat-out', got[latlon[0]], ys, 0, 0)
            env.close('lon-out', got[latlon[1]], xs, 0, 0)
            g = got.data
        else:
            got = gc.interp_multidim(v, ya, xa, np.array(la), np.array(lo), **kw) if kind == 'np' else gc.interp_multidim(v, ya, xa, lat_in=np.array(la), lon_in=np.array(lo), **kw)
            env.same('type', isinstance(got, xr.DataArray), False)
            g = got
        env.same('shape', tuple(g.shape), tuple(lead) + (len(ys), len(xs)))
        gone = (lambda q: env.Or(env.isnan(q), q == float(mv))) if mv is not None else env.isnan
        anybad = nan or mv is not None or gaps
        for L in np.ndindex(*lead):
            vv = [[v[L + (i, j)] for j in cols] for i in sa]
            bad = [[gone(e) if anybad else False for e in r] for r in vv]
            for a, yy in enumerate(ys):
                for b, xx in enumerate(xs):
                    r = g[L + (a, b)]
                    if mv is not None:
                        env.check('not-nan', env.Not(env.isnan(r)))
                    judge(env, gla, glo, vv, bad, yy, xx, r, method, float(mv) if mv is not None and fill != fill else fill, gone, f'{list(L)}{a}{b}' if lead else f'{a}{b}', anybad)

    return f


def h_exact(method):
    """targets equal to the grid give the field back"""

    def f(env):
        v = env.array('v', (3, 4), -1000, 1000)
        la, lo = [10.0, 20.0, 50.0], [0.0, 100.0, 150.0, 300.0]
        src = xr.DataArray(v, dims=('lat', 'lon'), coords={'lat': la, 'lon': lo})
        got = gc.interp_multidim(src, np.array(la), np.array(lo), method=method)
        env.close('identity', got, v, 1e-12, 1e-9)
        got = gc.interp_multidim(src, np.array(la), np.array(lo) + 0.0, method=method, cyclic=True)
        env.close('identity-cyclic', got, v, 1e-12, 1e-9)

    return f


def h_reject(env):
    v = env.array('v', (2, 3), -1, 1)
    la, lo = np.array([0.0, 1.0]), np.array([0.0, 1.0, 2.0])
    env.raises('no-coords', ValueError, lambda: gc.interp_multidim(v, la, lo))
    env.raises('no-lon', ValueError, lambda: gc.interp_multidim(v, la, lo, lat_in=la))
    env.raises('no-lat', ValueError, lambda: gc.interp_multidim(v, la, lo, lon_in=lo))


INTS = {'points': ('v',), 'points-np-cyclic': ('v',), 'missing-val': ('v',), 'missing-val-0-nearest': ('v',), 'fill': ('v',), 'nearest-gap': ('v',)}  # cases repeated with integer input


def cases(tier):
    S = lambda k, a, b: (k, float(a), float(b))
    cs = [
        Case('points', h(LA, LO, [-30.0, 4.0, 30.0], [10.0, 80.0, 201.0, 340.0], nan=True)),
        Case('points-np', h(LA, LO, [-12.0, 59.0], [100.0, 339.0], kind='np', nan=True)),
        Case('points-np-cyclic', h(LA[:3], LO[:3], [-12.0, 19.0], [-20.0, 199.0, 355.0], kind='npkw', nan=True, cyclic=True)),
        Case('anywhere', h(LA, LO, S(1, -40, 70), S(1, -10, 350)), weight=3),
        Case('anywhere-gap', h(LA[:3], LO[:3], S(1, -40, 30), S(1, -10, 210), nan=True), weight=3),
        Case('anywhere-one-gap', h(LA, LO, S(1, -30, 60), S(1, 0, 340), gaps=(6,)), weight=3),
        Case('anywhere-2x2', h(LA[:2], LO[:3], S(2, -30, 5), S(2, 0, 200)), weight=3),
        Case('cyclic', h(LA[:2], [10.0, 100.0, 250.0], S(1, -30, 5), S(1, -110, 370), cyclic=True), weight=3),
        Case('cyclic-gap', h(LA[:2], [10.0, 100.0, 250.0], S(1, -30, 5), S(1, -110, 370), cyclic=True, nan=True), weight=3),
        Case('cyclic-180', h([0.0, 45.0], [-180.0, -90.0, 0.0, 90.0], S(1, 0, 45), S(1, -200, 180), cyclic=True), weight=3),
        Case('cyclic-descending', h([45.0, 0.0], [270.0, 180.0, 90.0, 0.0], [20.0], S(1, -90, 360), cyclic=True), weight=3),
        Case('descending', h(LA[::-1], LO[::-1], [-20.0, 41.0], [15.0, 250.0], nan=True)),
        Case('descending-anywhere', h(LA[2::-1], LO[:3], S(1, -31, 21), [80.0, 33.0])),
        Case('lead', h(LA[:2], LO[:3], [0.0], [50.0, 150.0], lead=(2,), nan=True)),
        Case('lead-cyclic', h(LA[:2], LO[:3], [0.0], [-50.0, 150.0, 300.0], lead=(2,), cyclic=True, nan=True)),
        Case('lead-cyclic-descending', h([5.0, -30.0], [270.0, 180.0, 80.0, 0.0], [0.0], [-50.0, 150.0, 300.0], lead=(2,), cyclic=True, nan=True)),
        Case('lead-descending', h(LA[2::-1], LO[2::-1], [0.0], [50.0, 150.0], lead=(3,), nan=True)),
        Case('lead-np', h(LA[:2], LO[:3], [0.0], [-50.0, 150.0], lead=(2,), kind='np', cyclic=True)),
        Case('global', h([-90.0 + 15 * i for i in range(13)], [15.0 * j for j in range(24)], [-90.0, -44.0, 0.0, 7.5, 89.0], [-7.0, 1.0, 100.0, 344.0, 352.5, 360.0], cyclic=True)),
        Case('global-np', h([90.0 - 15 * i for i in range(13)], [-180.0 + 15 * j for j in range(24)], [-90.0, -44.0, 8.0, 89.0], [-190.0, -7.0, 1.0, 100.0, 172.5], kind='np', gaps=(5, 40, 163, 288 - 24))),
        Case('many-targets', h(LA[:3], LO[:3], [-40.0 + 3 * i for i in range(21)], [-20.0 + 10 * i for i in range(23)], gaps=(4,))),
        Case('lead3', h(LA[:2], LO[:3], [0.0], [50.0, 150.0], lead=(2, 1, 3), nan=True)),
        Case('lead2', h(LA[:2], LO[:2], [0.0], [50.0], lead=(2, 2), nan=True)),
        Case('names', h(LA[:2], LO[:3], [0.0], [50.0, 150.0], latlon=('y', 'x'), cyclic=True)),
        Case('missing-val', h(LA[:2], LO[:3], [0.0, 5.0], [50.0, 150.0], mv=5000)),
        Case('missing-val-cyclic', h(LA[:2], LO[:3], [0.0], [50.0, 350.0], mv=-9999.0, cyclic=True)),
        Case('missing-val-0', h(LA[:2], LO[:3], [0.0, 5.0], [50.0, 150.0], mv=0, vlo=1)),
        Case('missing-val-0-np', h(LA[:2], LO[:3], [0.0], [50.0, 150.0], mv=0.0, vlo=1, kind='np', cyclic=True)),
        Case('missing-val-0-nearest', h(LA[:2], LO[:3], [0.0], [50.0, 350.0], mv=0, vlo=1, method='nearest', cyclic=True)),
        Case('missing-val-1', h(LA[:2], LO[:3], [0.0, 50.0], [50.0], mv=1.0, vlo=2, nan=True)),
        Case('missing-val-lead', h(LA[:2], LO[:2], [0.0], [50.0], mv=-1, vlo=0, lead=(2,))),
        Case('missing-val-nan', h(LA[:2], LO[:2], [0.0, 30.0], [50.0], mv=5000, nan=True)),
        Case('missing-val-np', h(LA[:2], LO[:2], [0.0], [50.0, 90.0], mv=5000, kind='np')),
        Case('nearest', h(LA, LO, S(1, -40, 70), S(1, -10, 350), method='nearest'), weight=3),
        Case('nearest-gap', h(LA[:3], LO[:3], S(1, -30, 20), S(1, 0, 200), method='nearest', nan=True)),
        Case('nearest-cyclic', h(LA[:2], LO[:3], S(1, -30, 5), S(1, -160, 360), method='nearest', cyclic=True)),
        Case('extrapolate', h(LA[:3], LO[:3], S(1, -90, 90), S(1, -30, 260), fill='extrapolate'), weight=2),
        Case('extrapolate-nearest', h(LA[:3], LO[:3], S(1, -90, 90), S(1, -30, 260), fill='extrapolate', method='nearest'), weight=2),
        Case('fill', h(LA[:3], LO[:3], S(1, -90, 90), S(1, -30, 260), fill=-1.5), weight=2),
        Case('exact-linear', h_exact('linear')),
        Case('exact-nearest', h_exact('nearest')),
        Case('reject', h_reject, novectors=True),
    ]
    if tier == 'thorough':
        cs += [
            Case('anywhere-gap-4x4', h(LA, LO[:4], S(1, -40, 70), S(1, -10, 300), nan=True), weight=9),
            Case('anywhere-cyclic-gap-3x4', h(LA[:3], LO[:4], S(1, -40, 30), S(1, -70, 360), nan=True, cyclic=True), weight=9),
            Case('anywhere-2x2-gap', h(LA[:2], LO[:3], S(2, -30, 5), S(2, 0, 200), nan=True), weight=9),
            Case('anywhere-mv', h(LA[:2], LO[:3], S(1, -30, 5), S(1, 0, 200), mv=5000), weight=9),
            Case('nearest-gap-cyclic', h(LA[:3], LO, S(1, -40, 30), S(1, -20, 360), method='nearest', nan=True, cyclic=True), weight=9),
            Case('lead-anywhere', h(LA[:3], LO[:3], S(1, -30, 20), S(1, 0, 200), lead=(2, 2), nan=True), weight=9),
            Case('cyclic-extrapolate', h(LA[:3], LO[:3], S(1, -90, 90), S(1, -300, 460), fill='extrapolate', cyclic=True), weight=9),
        ]
    return cs
