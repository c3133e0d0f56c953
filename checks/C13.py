"""Climatologies: means over all years by hour, day, month or season."""
import cftime
import numpy as np
import xarray as xr

import geocat.comp as gc
from symx.harness import Case
from ._util import as_tuple, center, days_in_month, groups, h_mix, mean, period_key, series, stamp, taxis, wmean

SEASONS = {'DJF': (12, 1, 2), 'JFM': (1, 2, 3), 'FMA': (2, 3, 4), 'MAM': (3, 4, 5), 'AMJ': (4, 5, 6), 'MJJ': (5, 6, 7), 'JJA': (6, 7, 8), 'JAS': (7, 8, 9), 'ASO': (8, 9, 10), 'SON': (9, 10, 11), 'OND': (10, 11, 12), 'NDJ': (11, 12, 1)}

ID = 'C13'
PROP = dict(
    title='climatology_average: mean over all years of each hour, day, month or season',
    statement=(
        'For every time series, each step of an hourly, daily or monthly climatology is the mean of all non-missing samples, over all years, that share that hour of a calendar day, calendar day (Feb 29 included) or month, '
        'and each seasonal climatology is the mean of the monthly means of its three months weighted by the length of each month (months without data have no weight), independently at every grid point. '
        'There is exactly one step per group present in the data, in calendar order and labelled with the middle of its period in a year of the data, whatever years, calendar, start or sampling the series has, '
        'or one per requested season under its name; other dimensions, the container type and the requested attributes are kept, and unknown frequencies or seasons and uneven sampling are refused.'
    ),
    quantifier=dict(over=['inputs'], text='all real data, any subset missing; enumerated time axes (several years of selected months, leap days, partial years), calendars, seasons, containers'),
    why_tests_cant='Tests use whole years of complete data where every grid point holds the same values.',
    anchors=dict(
        files=['geocat/comp/climatologies.py'],
        mechanism=[dict(name='climatology_average', where='geocat/comp/climatologies.py'), dict(name='_calculate_center_of_time_bounds', where='geocat/comp/climatologies.py')],
    ),
)
FUNCS = [
    'geocat.comp.climatologies.climatology_average',
    'geocat.comp.climatologies._calculate_center_of_time_bounds',
    'geocat.comp.climatologies._average_of_periods',
    'xarray resample/groupby reductions (executed on symbolic arrays)',
]
BOUNDS = 'time axes listed in the cases (3 to 2928 steps, at most 60 of them symbolic); one or two points; values in [-1000,1000], each possibly missing'
OUTSIDE = 'other time axes; seasons without a single month in the data (refused); dask inputs (C25); the nominal year of the labels beyond lying within the data; rounding'


def label(q, freq):
    q = stamp(q)
    return {'hour': (q.month, q.day, q.hour), 'day': (q.month, q.day), 'month': (q.month,)}[freq]


def h(start, n, step, cal, freq, npts=2, nan=True, kind='da', tpos=0, attrs=None, custom=None, free=None, tname='time'):
    def f(env):
        t = taxis(start, n, step, cal)
        x = series(env, n, npts, nan, free)
        dims = [tname, 'x']
        v = x
        if tpos == 1:
            v, dims = x.T, ['x', tname]
        da = xr.DataArray(v, dims=dims, coords={tname: t, 'x': [10.0 * i for i in range(npts)]}, name='v', attrs={'units': 'K'})
        src = xr.Dataset({'v': da, 'w': da * 2}, attrs={'title': 'T'}) if kind == 'ds' else da
        kw = {} if attrs is None else {'keep_attrs': attrs == 'keep'}
        if custom is not None:
            kw['custom_seasons'] = custom
        if tname != 'time':
            kw['time_dim'] = tname
        got = gc.climatology_average(src, freq, **kw)
        env.same('type', type(got), type(src))
        env.same('attrs', dict(got.attrs), {} if attrs == 'drop' else dict(src.attrs))
        keys = [label(q, freq if freq != 'season' else 'month') for q in t]
        vs = [(got, 1)] if kind == 'da' else [(got['v'], 1), (got['w'], 2)]
        for g, k in vs:
            env.same('x-coord', list(g['x'].values), list(da['x'].values))
            if freq == 'season':
                names = ['DJF', 'JJA', 'MAM', 'SON'] if custom is None else ([custom] if isinstance(custom, str) else list(custom))
                env.same('seasons', [str(s) for s in g['season'].values], names)
                env.same('dims', set(g.dims), {'season', 'x'})
                want = []
                for s in names:
                    idx = [i for i in range(n) if keys[i][0] in SEASONS[s]]
                    months = groups([period_key(t[i], 'month') for i in idx])
                    for p in range(npts):
                        ms = [mean(env, [x[idx[j], p] for j in js]) for _, js in months]
                        want.append(k * wmean(env, ms, [days_in_month(t[idx[js[0]]]) for _, js in months]))
                env.close('average', g.transpose('season', 'x'), want, 1e-9, 1e-7)
                continue
            env.same('dims', set(g.dims), set(dims))
            per = sorted(groups(keys))
            want = [k * mean(env, [x[i, p] for i in idx]) for _, idx in per for p in range(npts)]
            g2 = g.transpose(tname, 'x')
            env.same('steps', g2.sizes[tname], len(per))
            env.close('average', g2, want, 1e-9, 1e-7)
            ts = g2[tname].values
            env.same('labels', [label(q, freq) for q in ts], [key for key, _ in per])
            env.same('centered', [as_tuple(q) for q in ts], [center(q, freq) for q in ts])
            if cal is not None:  # datetime64 input may be labelled with cftime dates
                env.same('calendar', {getattr(q, 'calendar', 'datetime64') for q in ts}, {cal})
            yrs = {stamp(q).year for q in t}
            env.same('year', all(min(yrs) <= stamp(q).year <= max(yrs) for q in ts), True)

    return f


def h_reject(env):
    t = taxis('2001-01-01', 5, 'D', None)
    mk = lambda t, dims='time': xr.DataArray(env.array('x', (len(t),), -1, 1), dims=dims, coords={dims: t})
    env.raises('freq', ValueError, lambda: gc.climatology_average(mk(t), 'year'))
    env.raises('uneven', ValueError, lambda: gc.climatology_average(mk(t[[0, 1, 2, 4]]), 'month'))
    env.raises('season', ValueError, lambda: gc.climatology_average(mk(t), 'season', custom_seasons=['DJF', 'DJJ']))
    env.raises('season', ValueError, lambda: gc.climatology_average(mk(t), 'season', custom_seasons='XYZ'))
    # uneven in other ways: months with one sample next to months with several or none, single steps missing
    import pandas as pd

    for d in (
        ['2001-01-01', '2001-01-20', '2001-02-05', '2001-03-05', '2001-04-05'],
        ['2001-01-05', '2001-02-05', '2001-04-05', '2001-05-05', '2001-06-06'],
        ['2001-01-05', '2001-02-05', '2001-03-05', '2001-04-01', '2001-04-28'],
        [*pd.date_range('2001-01-30', periods=40).strftime('%Y-%m-%d')][:33] + ['2001-03-05', '2001-03-06'],
    ):
        for tt in (np.array(d, 'M8[ns]'), xr.CFTimeIndex([cftime.DatetimeNoLeap(*map(int, q.split('-'))) for q in d])):
            for fr in ('hour', 'day', 'month', 'season'):
                env.raises('uneven-' + fr, ValueError, lambda: gc.climatology_average(mk(tt), fr))
    env.raises('not-time', ValueError, lambda: gc.climatology_average(mk(np.arange(4.0)), 'month', time_dim='time'))


INTS = {'month-partial': ('x',), 'season-14': ('x',), 'day-partial': ('x',), 'month-ds': ('x',)}  # cases repeated with integer input


def cases(tier):
    c = lambda nm, *a, **k: Case(nm, h(*a, **k))
    feb = [58, 59, 60, 58 + 365, 59 + 365, 60 + 365, 58 + 730, 59 + 730]
    cs = [
        c('month-24', '2000-01-01', 24, 'MS', None, 'month', npts=1),
        c('month-partial', '2000-11-01', 5, 'MS', None, 'month'),
        c('month-cf', '2000-11-15', 14, '30D', '360_day', 'month'),
        c('month-end', '2000-10-31', 14, 'ME', 'noleap', 'month', npts=1),
        c('month-10d', '2000-12-20', 8, '10D', None, 'month'),
        c('month-axis1', '2000-11-01', 14, 'MS', None, 'month', tpos=1),
        c('month-ds', '2000-11-01', 14, 'MS', None, 'month', kind='ds', npts=1),
        c('month-keep', '2000-11-01', 5, 'MS', None, 'month', attrs='keep'),
        c('month-drop', '2000-11-01', 5, 'MS', None, 'month', attrs='drop'),
        c('month-named', '2000-11-01', 5, 'MS', None, 'month', tname='t'),
        c('day-partial', '2000-12-29', 6, 'D', None, 'day'),
        c('day-12h', '2000-02-28', 6, '12h', None, 'day'),
        c('day-axis1', '2000-02-28', 6, '12h', 'standard', 'day', tpos=1),
        c('day-leap-first', '2000-01-01', 1096, 'D', None, 'day', npts=1, free=feb),
        c('day-leap-last', '1998-01-01', 1095, 'D', 'standard', 'day', npts=1, free=feb),
        c('day-noleap', '2000-01-01', 1095, 'D', 'noleap', 'day', npts=1, free=feb),
        c('day-leap-2y', '2000-01-01', 731, 'D', None, 'day', npts=1, free=feb[:6]),
        c('hour-6h', '2000-12-30', 10, '6h', None, 'hour'),
        c('hour-30min', '2000-02-28T22:00', 9, '30min', 'standard', 'hour'),
        c('hour-leap', '2000-02-28T18:00', 1473, '6h', None, 'hour', npts=1, free=[0, 1, 2, 5, 6, 1461, 1462, 1463]),
        c('season-24', '2000-01-01', 24, 'MS', None, 'season', npts=1),
        c('season-14', '2000-11-01', 14, 'MS', None, 'season'),
        c('season-360', '2000-01-15', 12, '30D', '360_day', 'season', npts=1),
        c('season-15d', '2000-01-01', 26, '15D', None, 'season', npts=1, nan=False),
        c('season-axis1', '2000-11-01', 14, 'MS', 'noleap', 'season', tpos=1),
        c('season-custom-str', '2000-01-01', 14, 'MS', None, 'season', npts=1, custom='NDJ'),
        c('season-ds', '2000-01-01', 12, 'MS', None, 'season', npts=1, kind='ds'),
        c('season-keep', '2000-01-01', 12, 'MS', None, 'season', npts=1, attrs='keep'),
        c('season-drop', '2000-01-01', 12, 'MS', None, 'season', npts=1, attrs='drop'),
        Case('reject', h_reject, novectors=True),
        c('mid-month', '2000-11', 14, 'mid', None, 'month', npts=1),
        c('mid-month-cf', '1999-12', 16, 'mid', 'julian', 'month', npts=1),
        c('mid-season', '2000-01', 14, 'mid', '360_day', 'season', npts=1),
        Case('mix-day', h_mix(lambda d: gc.climatology_average(d, 'day'), '2000-02-28', 6, '12h', None)),
        Case('mix-month', h_mix(lambda d: gc.climatology_average(d, 'month'), '2000-11-01', 14, 'MS', None)),
        Case('mix-season', h_mix(lambda d: gc.climatology_average(d, 'season'), '2000-01-01', 13, 'MS', 'noleap')),
    ]
    cust = list(SEASONS)
    for i in range(0, 12, 3):
        cs.append(c(f'season-custom-{i}', '2000-01-01', 16, 'MS', None, 'season', npts=1, custom=cust[i : i + 3][::-1]))
    cs += [
        c('month-60', '1999-03-01', 60, 'MS', None, 'month', npts=1),
        c('season-48', '1999-03-01', 48, 'MS', None, 'season', npts=1),
        c('season-daily', '2000-02-20', 30, 'D', None, 'season', npts=1, custom=['DJF', 'MAM']),
        c('day-4y', '2001-01-01', 1461, 'D', None, 'day', npts=1, free=feb + [1154, 1155, 1156]),
        c('day-allleap', '2001-01-01', 732, 'D', 'all_leap', 'day', npts=1, free=feb[:6]),
        c('day-julian', '1899-01-01', 731, 'D', 'julian', 'day', npts=1, free=[58, 59, 423, 424, 425]),
        c('day-1900', '1899-01-01', 730, 'D', 'standard', 'day', npts=1, free=[58, 59, 423, 424, 425]),
        c('month-all-days', '1999-12-30', 740, 'D', None, 'month', npts=1, free=[0, 1, 2, 32, 33, 60, 61, 62, 366, 367, 368, 739]),
        c('season-all-days', '1999-11-28', 400, 'D', 'standard', 'season', npts=1, free=[0, 3, 4, 33, 34, 92, 93, 94, 95, 399]),
        c('hour-leap-3h', '1999-12-31', 2928, '3h', 'julian', 'hour', npts=1, free=[0, 8, 9, 472, 480, 488, 2927]),
        c('season-me', '1999-11-30', 25, 'ME', None, 'season', npts=1),
        c('season-julian-1900', '1899-12-01', 25, 'MS', 'julian', 'season', npts=1, custom=['JFM', 'NDJ', 'DJF']),
        c('season-1900', '1899-12-01', 25, 'MS', 'standard', 'season', npts=1, custom=['JFM', 'NDJ', 'DJF']),
        c('month-even-years', '2000-01-01', 48, 'MS', None, 'month', npts=1),
        c('day-even-years', '1999-03-01', 732, 'D', None, 'day', npts=1, free=[0, 1, 306, 364, 365, 366, 731]),
        c('day-feb-end', '2000-02-27', 4, 'D', None, 'day'),
    ]
    if tier == 'thorough':
        k = 0
        for cal in (None, 'standard', 'noleap', 'all_leap', '360_day', 'julian'):
            for y in ('1999', '2000', '2100', '1900'):
                for m in range(1, 13):
                    for step, freq, n in (('MS', 'season', 14), ('MS', 'month', 15), ('10D', 'month', 9), ('6h', 'day', 11), ('20min', 'hour', 8)):
                        k += 1
                        cs.append(c(f'axis-{k}-{freq}', f'{y}-{m:02d}-{"01" if step == "MS" else "28"}', n, step, cal, freq, npts=1))
    return cs
