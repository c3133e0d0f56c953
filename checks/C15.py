"""Three-month seasonal means of monthly data."""
import numpy as np
import xarray as xr

import geocat.comp as gc
from symx.harness import Case
from ._util import h_mix, mean, series, stamp, taxis
from .C13 import SEASONS

ID = 'C15'
PROP = dict(
    title='month_to_season averages exactly the three months around each season centre',
    statement=(
        'For every monthly series whose length is a multiple of 12, whatever month it starts in, and each of the twelve three-month seasons, the result has one step for each year in which the middle month of the season lies within the data, '
        'labelled with the first instant of that month in the calendar of the data, and its value at each grid point is the unweighted mean of the non-missing values of the middle month and of its neighbours, '
        'missing only when all of these are missing (a season cut off by the start or end of the data uses the months that are there). '
        'Other dimensions, coordinates and the container type are kept, and other lengths and times that are not dates are refused.'
    ),
    quantifier=dict(over=['inputs'], text='all real data, any subset missing; 12 to 36 months starting in each month of the year, 12 seasons, cftime and datetime axes'),
    why_tests_cant='Tests only use series that start in January, with values constant in time.',
    anchors=dict(files=['geocat/comp/climatologies.py'], mechanism=[dict(name='month_to_season', where='geocat/comp/climatologies.py')]),
)
FUNCS = ['geocat.comp.climatologies.month_to_season', 'xarray resample reductions (executed on symbolic arrays)']
BOUNDS = '12, 24 or 36 (one case 1200) consecutive months starting in any month; one or two points; values in [-1000,1000], each possibly missing; time stamps on the first, 15th or last day'
OUTSIDE = 'series that are not monthly or have gaps; dask inputs (C25); rounding'


def first(q):
    d = stamp(q)
    return (d.day, d.hour, d.minute, d.second) == (1, 0, 0, 0)


def calendar(q):
    return getattr(q, 'calendar', 'datetime64')


def h(start, n, step, cal, seasons, npts=1, kind='da', tpos=0, attrs=None, tname='time', nan=True, free=None):
    def f(env):
        season = seasons if isinstance(seasons, str) else env.choice('season', seasons)
        t = taxis(start, n, step, cal)
        x = series(env, n, npts, nan, free)
        dims = [tname, 'x']
        v = x
        if tpos == 1:
            v, dims = x.T, ['x', tname]
        da = xr.DataArray(v, dims=dims, coords={tname: t, 'x': [10.0 * i for i in range(npts)]}, name='v', attrs={'units': 'K'})
        src = xr.Dataset({'v': da, 'w': da * 2}, attrs={'title': 'T'}) if kind == 'ds' else da
        kw = {} if attrs is None else {'keep_attrs': attrs == 'keep'}
        if tname != 'time':
            kw['time_coord_name'] = tname
        got = gc.month_to_season(src, season, **kw)
        env.same('type', type(got), type(src))
        if attrs is not None:
            env.same('attrs', dict(got.attrs), {} if attrs == 'drop' else dict(src.attrs))
        mid = SEASONS[season][1]
        num = [stamp(q).year * 12 + stamp(q).month - 1 for q in t]
        centres = [m for m in num if m % 12 + 1 == mid]
        vs = [(got, 1)] if kind == 'da' else [(got['v'], 1), (got['w'], 2)]
        for g, k in vs:
            env.same('dims', set(g.dims), set(dims))
            g2 = g.transpose(tname, 'x')
            env.same('x-coord', list(g2['x'].values), list(da['x'].values))
            env.same('labels', [stamp(q).year * 12 + stamp(q).month - 1 for q in g2[tname].values], centres)
            env.same('first-day', [first(q) for q in g2[tname].values], [True] * len(centres))
            env.same('calendar', [calendar(q) for q in g2[tname].values], [calendar(t[0])] * len(centres))
            want = []
            for cm in centres:
                idx = [i for i in range(n) if abs(num[i] - cm) <= 1]
                want += [k * mean(env, [x[i, p] for i in idx]) for p in range(npts)]
            env.close('mean', g2, want, 1e-9, 1e-7)

    return f


def h_reject(env):
    mk = lambda t, dims='time': xr.DataArray(env.array('x', (len(t),), -1, 1), dims=dims, coords={dims: t})
    for n in (11, 13, 18):
        env.raises('length', ValueError, lambda: gc.month_to_season(mk(taxis('2001-01-01', n, 'MS', None)), 'DJF'))
    env.raises('not-time', ValueError, lambda: gc.month_to_season(mk(np.arange(12.0)), 'DJF', time_coord_name='time'))


INTS = {'one-year': ('x',), 'ds': ('x',)}  # cases repeated with integer input


def cases(tier):
    c = lambda nm, *a, **k: Case(nm, h(*a, **k))
    S = list(SEASONS)
    cs = []
    for m in range(1, 13):
        cs.append(c(f'start-{m}', f'2000-{m:02d}-01', 24, 'MS', None if m % 2 else 'standard', S))
    cs += [
        c('one-year', '2000-07-01', 12, 'MS', 'noleap', S, npts=2),
        c('one-year-jan', '2000-01-01', 12, 'MS', None, S, npts=2),
        c('mid-month', '2000-03-15', 24, '30D', '360_day', S),
        c('month-end', '2000-01-31', 12, 'ME', None, S),
        c('axis1', '2000-01-01', 12, 'MS', None, S[:6], npts=2, tpos=1),
        c('axis1-cf', '2000-12-01', 12, 'MS', 'julian', S[6:], npts=2, tpos=1),
        c('ds', '2000-12-01', 12, 'MS', None, ['DJF', 'NDJ', 'MAM'], kind='ds'),
        c('keep', '2000-01-01', 12, 'MS', None, ['DJF', 'NDJ', 'MAM'], attrs='keep'),
        c('drop', '2000-01-01', 12, 'MS', None, ['DJF', 'NDJ', 'MAM'], attrs='drop'),
        c('named', '2000-01-01', 12, 'MS', None, ['DJF', 'NDJ', 'MAM'], tname='t'),
        c('noleap-28', '1999-12-28', 24, 'MS', 'noleap', S),
        c('ME-36', '1999-02-28', 36, 'ME', 'standard', S),
        c('100-years', '1900-05-01', 1200, 'MS', 'standard', ['DJF', 'NDJ', 'JJA'], free=[0, 1, 7, 8, 9, 590, 600, 1198, 1199]),
        Case('reject', h_reject, novectors=True),
        c('mid', '2000-03', 24, 'mid', None, S),
        c('mid-cf', '1999-11', 12, 'mid', 'standard', S),
        Case('mix-djf', h_mix(lambda d: gc.month_to_season(d, 'DJF'), '2000-12-01', 12, 'MS', None)),
        Case('mix-jas', h_mix(lambda d: gc.month_to_season(d, 'JAS'), '2000-12-01', 12, 'MS', 'noleap')),
    ]
    if tier == 'thorough':
        for m in range(1, 13):
            cs.append(c(f'start-{m}-36', f'1999-{m:02d}-01', 36, 'MS', None if m % 2 == 0 else '360_day', S, npts=2))
    return cs
