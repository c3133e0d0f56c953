"""Oracle pieces shared by several checks (independent of the code under test)."""
import datetime as dtm
import math

import cftime
import numpy as np
import pandas as pd
import xarray as xr

NAN = float('nan')


def lin(env, x, xs, ys, outside=NAN):
    """piecewise linear through (xs[k], ys[k]), xs strictly monotonic; `outside`
    beyond the end points."""
    n = len(xs)
    r = outside
    for k in range(n - 1):
        a, b = xs[k], xs[k + 1]
        v = ys[k] + (x - a) / (b - a) * (ys[k + 1] - ys[k])
        inside = env.Or(env.And(x >= a, x <= b), env.And(x <= a, x >= b))
        r = env.ite(inside, v, r)
    return r


def monotone(env, xs, desc=False, gap=0.0):
    for a, b in zip(xs[:-1], xs[1:]):
        env.assume((a - b if desc else b - a) > gap)


# ------------------------------------------------------------- time averaging
def taxis(start, n, step, cal):
    """concrete time axis: numpy datetimes (cal None) or cftime dates; step 'mid' is one date in each month, on varying days"""
    if step == 'mid':
        y, m = (int(q) for q in start.split('-'))
        d = [((m - 1 + i) // 12 + y, (m - 1 + i) % 12 + 1, (16, 15, 14, 28, 1, 9)[i % 6], (12, 0)[i % 2]) for i in range(n)]
        if cal is None:
            return pd.DatetimeIndex(['%04d-%02d-%02dT%02d' % q for q in d])
        mk = {'noleap': cftime.DatetimeNoLeap, 'julian': cftime.DatetimeJulian, '360_day': cftime.Datetime360Day, 'standard': cftime.DatetimeGregorian}[cal]
        return xr.CFTimeIndex([mk(*q) for q in d])
    t = xr.date_range(start, periods=n, freq=step, use_cftime=cal is not None, calendar=cal or 'proleptic_gregorian')
    return t


def _ymd(q):
    return q.year, q.month, q.day, q.hour


def period_key(q, freq):
    y, m, d, hh = _ymd(q)
    if freq == 'season':
        return (y + (m == 12), (m % 12) // 3)
    return {'hour': (y, m, d, hh), 'day': (y, m, d), 'month': (y, m), 'year': (y,)}[freq]


def groups(keys):
    """[(key, indices)] in order of first appearance"""
    out = {}
    for i, k in enumerate(keys):
        out.setdefault(k, []).append(i)
    return list(out.items())


def mean(env, xs):
    """mean of the non-missing elements, missing when there is none"""
    return wmean(env, xs, [1] * len(xs))


def wmean(env, xs, ws):
    s, n = 0.0, 0.0
    for x, w in zip(xs, ws):
        bad = env.isnan(x)
        s = s + env.ite(bad, 0.0, x * w)
        n = n + env.ite(bad, 0.0, float(w))
    return env.ite(n > 0, s / env.ite(n > 0, n, 1.0), NAN)


def days_in_month(q):
    a, b = bounds(q, 'month')
    return (b - a).days


def stamp(q):
    """cftime date of a time stamp"""
    if isinstance(q, cftime.datetime):
        return q
    s = np.datetime64(q, 's').astype(dtm.datetime)
    return cftime.datetime(s.year, s.month, s.day, s.hour, s.minute, s.second, calendar='proleptic_gregorian')


def bounds(q, freq):
    """start and end of the calendar period holding q"""
    q = stamp(q)
    cal = q.calendar
    mk = lambda y, m, d=1, hh=0: cftime.datetime(y, m, d, hh, calendar=cal)
    if freq == 'hour':
        a = mk(q.year, q.month, q.day, q.hour)
        return a, a + dtm.timedelta(hours=1)
    if freq == 'day':
        a = mk(q.year, q.month, q.day)
        return a, a + dtm.timedelta(days=1)
    if freq == 'month':
        y, m, k = q.year, q.month, 1
    elif freq == 'year':
        y, m, k = q.year, 1, 12
    else:
        m = (q.month // 3) * 3
        y, k = q.year, 3
        if m == 0:
            y, m = y - 1, 12
    a = mk(y, m)
    m += k
    return a, mk(y + (m - 1) // 12, (m - 1) % 12 + 1)


def as_tuple(q):
    q = stamp(q)
    return (q.year, q.month, q.day, q.hour, q.minute, q.second)


def center(q, freq):
    a, b = bounds(q, freq)
    return as_tuple(a + (b - a) / 2)


def series(env, n, npts, nan, free):
    """n samples of which those in `free` are symbolic, the others are 0.5*i"""
    if free is None:
        return env.array('x', (n, npts), -1000, 1000, nan=nan)
    el = []
    for i in range(n):
        for p in range(npts):
            el.append(env.real(f'x_{i}_{p}', -1000, 1000, nan=nan) if i in free else 0.5 * (i % 7))
    return env.mkarray(el, (n, npts))


# ------------------------------------------------------- larger elementwise calls
def sparse(env, name, shape, lo, hi, flo, fhi, free, step=7):
    """fixed numbers spread over [lo, hi], except symbolic ones in [flo, fhi] at the flat indices `free`"""
    n = int(np.prod(shape))
    v = [lo + (hi - lo) * ((step * i + 3) % 16) / 16.0 for i in range(n)]
    for i in free:
        v[i] = env.real(f'{name}{i}', flo, fhi)
    return env.mkarray(v, shape)


def h_many(fn, spec, ranges, shape, free, kind, tol=1e-7, near=1e-7):
    """fn on arrays of many elements, few of them symbolic; spec(env, *elements) -> value"""

    def h(env):
        ins = [sparse(env, r[0], shape, r[1], r[2], r[-2], r[-1], free, st) for r, st in zip(ranges, (7, 5, 3))]
        dims = ('time', 'lat', 'lon', 'lev')[: len(shape)]
        if kind == 'xarray':
            co = {d: [10 * q + 1 for q in range(n)] for d, n in zip(dims, shape)}
            got = fn(*[xr.DataArray(v, dims=dims, coords=co) for v in ins])
            env.same('dims', got.dims, dims)
            env.same('coords', {d: got[d].values.tolist() for d in got.coords}, co)
        elif kind == 'list':
            got = fn(*[list(v) for v in ins])
        else:
            got = fn(*ins)
        want = [spec(env, *e) for e in zip(*[env.flat(v) for v in ins])]
        env.same('shape', tuple(np.shape(got)), tuple(shape))
        env.close('value', got, want, tol, near)

    return h


def many(tag, fn, spec, ranges, **kw):
    from symx.harness import Case

    out = [Case(f'{tag}-many-np', h_many(fn, spec, ranges, (2, 3, 4), (23,), 'ndarray', **kw))]
    out.append(Case(f'{tag}-many-xr', h_many(fn, spec, ranges, (3, 2, 3), (9,), 'xarray', **kw)))
    out.append(Case(f'{tag}-many-4d', h_many(fn, spec, ranges, (2, 2, 2, 3), (0,), 'ndarray', **kw)))
    out.append(Case(f'{tag}-many-list', h_many(fn, spec, ranges, (40,), (39,), 'list', **kw)))
    out.append(Case(f'{tag}-many-line', h_many(fn, spec, ranges, (130,), (64,), 'ndarray', **kw)))
    out.append(Case(f'{tag}-many-empty', h_many(fn, spec, ranges, (0,), (), 'ndarray', **kw), novectors=True))
    return out


def h_mix(fn, start, n, step, cal, mask=True):
    """A Dataset is treated variable by variable: same values as each variable alone; variables without the time axis stay what they are."""

    def f(env):
        t = taxis(start, n, step, cal)
        x = series(env, n, 2, True, None)
        u = env.array('u', (n,), -1000.0, 1000.0, nan=True)
        m = env.array('m', (2,), -1000.0, 1000.0)
        ds = xr.Dataset(
            {'u': ('time', u), 'v': (('x', 'time'), x.T), 'm': ('x', m)},
            coords={'time': t, 'x': [5.0, 7.0]},
        )
        got = fn(ds)
        env.same('type', type(got), xr.Dataset)
        env.same('variables', sorted(got.data_vars), ['m', 'u', 'v'])
        for k in ('u', 'v'):
            one = fn(ds[k])
            ax = [d for d in one.dims if d != 'x']
            env.same('dims-' + k, set(got[k].dims), set(one.dims))
            env.same('labels-' + k, list(got[k][ax[0]].values), list(one[ax[0]].values))
            env.close('values-' + k, got[k].transpose(*one.dims), one, 1e-9, 1e-7)
        if not mask:
            return
        g = got['m']
        rest = [d for d in g.dims if d != 'x']
        g = g.transpose(*rest, 'x')
        env.close('mask', g, [v for _ in range(int(np.prod([g.sizes[d] for d in rest], dtype=int))) for v in env.flat(m)], 1e-9, 1e-7)

    return f
