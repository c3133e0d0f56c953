"""Normalised mean squared error (nmse)."""
import math

import numpy as np
import xarray as xr

from geocat.comp.stats import nmse
from symx.harness import Case
from ._util import NAN

ID = 'C21'
PROP = dict(
    title='nmse is the area weighted squared error over the area weighted variance',
    statement=(
        'For all observed and modelled fields on a regular latitude-longitude grid, at every index that is not spatial, nmse is sum w (model - observed)^2 / sum w (observed - mean_w observed)^2, where w is the cosine of latitude and 0 wherever either field is missing; missing points never count, whatever their number, and the result is missing only where no point is left or the observed field is constant. '
        'This does not depend on the order of dimensions, on names or attributes by which latitude and longitude are recognised, on 1-D or 2-D coordinates or on the other variables of a Dataset. '
        'Unevenly spaced grids, mixed types, different coordinate names and different grids are refused.'
    ),
    quantifier=dict(over=['inputs'], text='all real observed and modelled fields up to 3 x 3 x 2 with any pattern of missing values; grids, dimension orders and coordinate names enumerated'),
    why_tests_cant='Tests compare random fields with a copy of the same formula; the weights of gaps, orders of dimensions and 2-D grids are seen for one pattern each.',
    anchors=dict(files=['geocat/comp/stats.py'], mechanism=[dict(name='nmse', where='geocat/comp/stats.py')]),
)
FUNCS = ['geocat.comp.stats.nmse']
BOUNDS = 'fields real in [-100,100] or missing, weighted variance of the observed field above 0.01; grids up to 3 x 3 with up to 2 further indices'
OUTSIDE = 'cf_xarray name guessing beyond the names in the cases; observed fields of (nearly) zero variance; Dataset results off the diagonal of the extra dimension "variable" (pinned by test_nmse); rounding'

# latitudes whose cosines (0.75, 0.875, 0.25) are dyadic floats, so that sums of weights do not round
LAT = {1: [20.0], 2: [-41.409622109270856, 75.52248781407008], 3: [-28.955024371859846, 0.0, 28.955024371859846], 4: [-75.0, -25.0, 25.0, 75.0]}
LON = {1: [10.0], 2: [0.0, 90.0], 3: [0.0, 120.0, 240.0], 4: [0.0, 90.0, 180.0, 270.0]}


def spec(env, o, m, la):
    """o, m: lists over (lat, lon); la: latitude of every point -> (value, defined)"""
    sw, so, num = 0.0, 0.0, 0.0
    pts = []
    for a, b, lat in zip(o, m, la):
        w = math.cos(math.radians(lat))
        bad = env.Or(env.isnan(a), env.isnan(b))
        w = env.ite(bad, 0.0, w)
        a = env.ite(bad, 0.0, a)
        b = env.ite(bad, 0.0, b)
        pts.append((w, a, b))
        sw = sw + w
        so = so + w * a
        num = num + w * (b - a) * (b - a)
    some = sw > 0
    mo = so / env.ite(some, sw, 1.0)
    den = 0.0
    for w, a, b in pts:
        den = den + w * (a - mo) * (a - mo)
    return num, den, some


def missing(env, o, m, first):
    """one path for each set of points where at least one field is missing in the
    first `first` elements (which of the two, or both: symbolic); the others have
    a fixed pattern"""
    os, ms = [], []
    for i, (a, b) in enumerate(zip(env.flat(o), env.flat(m))):
        if i < first:
            if env.boolean(f'gap{i}'):
                p, q = (env.isnan(env.real(n + str(i), 0, 1, nan=True)) for n in 'pq')
                a, b = env.ite(p, NAN, a), env.ite(env.Or(env.Not(p), q), NAN, b)
        elif i % 5 == 0:
            a = NAN
        elif i % 5 == 2:
            b = NAN
        os.append(a)
        ms.append(b)
    return env.mkarray(os, o.shape), env.mkarray(ms, m.shape)


def h(nlat, nlon, nt=0, order=('time', 'lat', 'lon'), names=('lat', 'lon'), attrs=False, mesh=False, nan=True, ds=False, horder=None, gaps=None, grid=None, free=None):
    """order: dimension order of observed, horder: of modelled; mesh: 2-D coordinates"""

    def f(env):
        la, lo = LAT.get(nlat), LON.get(nlon)
        if grid is not None:
            la, lo = [float(q) for q in grid], [360.0 / nlon * q for q in range(nlon)]
        lead = (nt,) if nt else ()
        shape = lead + (nlat, nlon)
        o = env.array('o', shape, -100, 100)
        m = env.array('m', shape, -100, 100)
        if free is not None:
            # fixed numbers but for the points listed
            fix = lambda v, a, b: env.mkarray([e if i in free else float((a * i * i + i) % b - 4) for i, e in enumerate(v.reshape(-1))], shape)
            o, m = fix(o, 5, 11), fix(m, 3, 13)
        if nan:
            o, m = missing(env, o, m, nlat * nlon)
        if gaps:
            n = nlat * nlon
            put = lambda v, g: env.mkarray([NAN if i % n in g else e for i, e in enumerate(v.reshape(-1))], shape)
            o, m = put(o, gaps[0]), put(m, gaps[1])
        dims = (('time',) if nt else ()) + (('y', 'x') if mesh else names)
        ren = dict(zip(('time', 'lat', 'lon'), ('time',) + dims[-2:]))

        def field(v, ordr):
            c = {}
            if mesh:
                A, B = np.meshgrid(la, lo, indexing='ij')
                c = {names[0]: (('y', 'x'), A), names[1]: (('y', 'x'), B)}
            else:
                c = {names[0]: la, names[1]: lo}
            if nt:
                c['time'] = [10.0 * q for q in range(nt)]
            d = xr.DataArray(v, dims=dims, coords=c, name='t', attrs={'units': 'K'})
            if attrs:
                d[names[0]].attrs['standard_name'] = 'latitude'
                d[names[1]].attrs['standard_name'] = 'longitude'
            want = [ren[k] for k in ordr if ren[k] in d.dims]
            d = d.transpose(*want)
            if mesh and ordr[-1] == 'lat':
                d = d.assign_coords({n: d[n].transpose('x', 'y') for n in names})
            return d

        O, M = field(o, order), field(m, horder or order)
        wants = []
        for L in np.ndindex(*lead):
            num, den, some = spec(env, env.flat(o[L]), env.flat(m[L]), [y for y in la for _ in lo])
            env.assume(env.Or(den > 0.01, env.Not(some)))
            wants.append(env.ite(some, num / env.ite(some, den, 1.0), NAN))
        if ds:
            # a second variable with its own gaps
            e = env.mkarray([NAN if i % 3 == 0 else v for i, v in enumerate(env.flat(env.array('e', shape, 1, 100)))], shape)
            g = env.array('g', shape, 1, 100)
            O = xr.Dataset({'q': field(e, order), 't': O})
            M = xr.Dataset({'q': field(g, order), 't': M})
        got = nmse(O, M)
        if ds:
            env.same('type', isinstance(got, xr.Dataset), True)
            got = got['t']
            if 'variable' in got.dims:
                got = got.sel(variable='t')
        env.same('type', isinstance(got, xr.DataArray), True)
        env.same('dims', got.dims, ('time',) if nt else ())
        if nt:
            env.same('time', got['time'].values.tolist(), [10.0 * q for q in range(nt)])
        env.close('nmse', got, wants, 1e-9, 1e-9)

    return f


def h_perfect(env):
    """a perfect model has no error, whatever is missing"""
    o = env.array('o', (2, 3), -100, 100, nan=True)
    m = env.mkarray([env.ite(env.boolean(f'b{i}'), NAN, e) for i, e in enumerate(env.flat(o))], (2, 3))
    X = lambda v: xr.DataArray(v, dims=('lat', 'lon'), coords={'lat': LAT[2], 'lon': LON[3]})
    num, den, some = spec(env, env.flat(o), env.flat(m), [y for y in LAT[2] for _ in LON[3]])
    env.assume(env.And(den > 0.01, some))
    env.close('perfect', nmse(X(o), X(m)), [0.0], 1e-9, 1e-9)


def h_scale(env):
    """unchanged when both fields are scaled and shifted alike"""
    o = env.array('o', (2, 2), -10, 10)
    m = env.array('m', (2, 2), -10, 10)
    k = env.real('k', 0.5, 10)
    s = env.real('s', -50, 50)
    X = lambda v: xr.DataArray(v, dims=('lat', 'lon'), coords={'lat': LAT[2], 'lon': LON[2]})
    num, den, some = spec(env, env.flat(o), env.flat(m), [y for y in LAT[2] for _ in LON[2]])
    env.assume(den > 0.01)
    env.close('scaled', nmse(X(o) * k + s, X(m) * k + s), nmse(X(o), X(m)), 1e-9, 1e-9)


def h_uneven(nlat, nlon, mesh, order):
    """one uneven step anywhere is refused; evenly spaced axes in either direction are not"""

    def f(env):
        k = env.integer('k', 0, nlat + nlon)
        v = env.mkarray([float(7 * i % 5) for i in range(nlat * nlon)], (nlat, nlon))
        la = np.linspace(-40, 50, nlat)
        lo = np.linspace(0, 90, nlon)
        if k < nlat:
            la[k:] += 3.0 if k else 0.0
            la[0] -= 0.0 if k else 3.0
        elif k < nlat + nlon:
            j = k - nlat
            lo[j:] += 3.0 if j else 0.0
            lo[0] -= 0.0 if j else 3.0
        if env.boolean('south'):
            la = la[::-1].copy()
        if mesh:
            A, B = np.meshgrid(la, lo, indexing='ij')
            d = xr.DataArray(v, dims=('y', 'x'), coords={'lat': (('y', 'x'), A), 'lon': (('y', 'x'), B)}).transpose(*order)
            d = d.assign_coords({n: d[n].transpose(*order) for n in ('lat', 'lon')})
        else:
            d = xr.DataArray(v, dims=('lat', 'lon'), coords={'lat': la, 'lon': lo})
        if k == nlat + nlon:
            num, den, some = spec(env, env.flat(v), env.flat(v + 1.0), [y for y in la for _ in lo])
            env.close('even', nmse(d, d + 1.0), [num / den], 1e-9, 1e-9)
        else:
            env.raises('uneven', ValueError, lambda: nmse(d, d + 1.0))

    return f


def h_reject(env):
    v = env.array('v', (3, 3), -1, 1)

    def X(la=LAT[3], lo=LON[3], names=('lat', 'lon'), mesh=None, w=v):
        if mesh:
            A, B = np.meshgrid(la, lo, indexing='ij')
            if mesh == 'T':
                return xr.DataArray(w.T, dims=('y', 'x'), coords={names[0]: (('y', 'x'), A.T), names[1]: (('y', 'x'), B.T)})
            return xr.DataArray(w, dims=('y', 'x'), coords={names[0]: (('y', 'x'), A), names[1]: (('y', 'x'), B)})
        return xr.DataArray(w, dims=names, coords={names[0]: la, names[1]: lo}, name='t')

    un, unlo = [-60.0, 0.0, 61.0], [0.0, 120.0, 230.0]
    env.raises('types', TypeError, lambda: nmse(v, X()))
    env.raises('types', TypeError, lambda: nmse(X(), X().to_dataset()))
    env.raises('names', KeyError, lambda: nmse(X(), X(names=('latitude', 'lon'))))
    bare = X(names=('p', 'q'))
    known = bare.copy()
    known['p'].attrs['units'], known['q'].attrs['units'] = 'degrees_north', 'degrees_east'
    env.raises('half-known', ValueError, lambda: nmse(known, bare))
    env.raises('half-known', ValueError, lambda: nmse(bare, known))
    env.raises('unknown', ValueError, lambda: nmse(X(names=('p', 'q')), X(names=('p', 'q'))))
    for mesh in (None, 'n', 'T'):
        env.raises(f'uneven-lat-{mesh}', ValueError, lambda: nmse(X(un, mesh=mesh), X(un, mesh=mesh)))
        env.raises(f'uneven-lon-{mesh}', ValueError, lambda: nmse(X(lo=unlo, mesh=mesh), X(lo=unlo, mesh=mesh)))
    # more than one latitude or longitude
    for d, nm in (('lat', 'latitude'), ('lon', 'longitude')):
        two = X().assign_coords({nm + '2': (d, X()[d].values, {'standard_name': nm, 'units': 'degrees_' + ('north' if d == 'lat' else 'east')})})
        two[d].attrs.update(two[nm + '2'].attrs)
        env.raises('two-' + nm, Exception, lambda: nmse(two, two))
    env.raises('grids', Exception, lambda: nmse(X().isel(lat=slice(1)), X()))
    env.raises('grids', Exception, lambda: nmse(X(lo=[1.0, 121.0, 241.0]), X()))


INTS = {'plain': ('o', 'm'), 'time-mid': ('o', 'm'), 'mesh': ('o', 'm'), 'dataset': ('o', 'm')}  # cases repeated with integer input


def cases(tier):
    T = ('time', 'lat', 'lon')
    cs = [
        Case('plain', h(2, 2, nan=False)),
        Case('gaps', h(2, 2)),
        Case('gaps-2x3', h(2, 3)),
        Case('gaps-3x2', h(3, 2, order=('time', 'lon', 'lat'))),
        Case('fixed-gaps', h(3, 3, nan=False, gaps=((1, 4), (4, 8)))),
        Case('time', h(2, 2, 2)),
        Case('time-last', h(2, 2, 2, order=('lat', 'lon', 'time'))),
        Case('time-mid', h(2, 2, 2, order=('lat', 'time', 'lon'), nan=False)),
        Case('orders', h(2, 3, order=T, horder=('time', 'lon', 'lat'), nan=False)),
        Case('orders-square', h(2, 2, 2, order=T, horder=('lon', 'lat', 'time'), nan=False)),
        Case('names', h(2, 2, names=('latitude', 'longitude'))),
        Case('attrs', h(2, 2, names=('p', 'q'), attrs=True)),
        Case('mesh', h(2, 2, mesh=True)),
        Case('mesh-t', h(2, 2, 2, order=('time', 'lon', 'lat'), mesh=True, nan=False)),
        Case('mesh-2x3', h(2, 3, mesh=True, nan=False)),
        Case('polar', h(5, 2, nan=False, grid=[85.5, 86.5, 87.5, 88.5, 89.5], free=(0,))),
        Case('polar-north', h(3, 2, nan=False, grid=[89.9, 89.7, 89.5], free=(3,), gaps=((0,), (2,)))),
        Case('polar-south', h(3, 2, nan=False, grid=[-89.99, -89.98, -89.97], free=(1,))),
        Case('global', h(19, 3, nan=False, grid=range(-90, 91, 10), free=(4,), gaps=((7, 20), (30, 7)))),
        Case('global-mesh', h(12, 2, 1, nan=False, grid=np.linspace(77, -77, 12), free=(5,), mesh=True)),
        Case('tropics', h(3, 3, nan=False, grid=[-1, 0, 1], free=(8,))),
        Case('one-lon', h(3, 1)),
        Case('one-lat', h(1, 3)),
        Case('dataset', h(2, 2, ds=True, nan=False)),
        Case('dataset-gaps', h(2, 2, ds=True)),
        Case('perfect', h_perfect),
        Case('scale', h_scale),
        Case('uneven', h_uneven(4, 5, False, None)),
        Case('uneven-mesh', h_uneven(4, 4, True, ('y', 'x'))),
        Case('uneven-mesh-t', h_uneven(3, 4, True, ('x', 'y'))),
        Case('reject', h_reject, novectors=True),
    ]
    if tier == 'thorough':
        cs += [Case('gaps-3x3', h(3, 3), weight=5), Case('time-3x3', h(3, 3, 2), weight=9), Case('plain-3x4', h(3, 4, nan=False), weight=5), Case('dataset-2x3', h(2, 3, 2, ds=True), weight=9), Case('mesh-3x3', h(3, 3, 2, mesh=True, order=('lon', 'lat', 'time')), weight=9)]
    return cs
