"""Calendar averages: hour, day, month, season and year means of the samples of each period."""
import cftime
import numpy as np
import xarray as xr

import geocat.comp as gc
from symx.harness import Case
from ._util import as_tuple, center, days_in_month, groups, h_mix, mean, period_key, series, taxis, wmean

ID = 'C12'
PROP = dict(
    title='calendar_average: mean of each period at every point, skipping missing data',
    statement=(
        'For every time series, each output time step of calendar_average is the mean of the non-missing samples of exactly one calendar hour, day or month, and for '
        'season and year the mean of the monthly means weighted by the days in each month (months without data have no weight), independently at every grid point: a value missing at one point never changes or '
        'removes the result at another, and a result is missing exactly when its period holds no data there. '
        'The output has one time step per period that has samples, in order, labelled with the middle of the period, for every calendar; other dimensions, their coordinates, the container type and the requested attributes are kept; '
        'unevenly spaced data and unknown frequencies are refused.'
    ),
    quantifier=dict(over=['inputs'], text='all real data, any subset missing; enumerated time axes (hourly to monthly, crossing year ends and Feb 29), calendars, containers'),
    why_tests_cant='Tests use complete data for a few whole years at one or more points with equal values; missing values, partial periods and axes positions are not covered.',
    anchors=dict(
        files=['geocat/comp/climatologies.py'],
        mechanism=[dict(name='calendar_average', where='geocat/comp/climatologies.py'), dict(name='_calculate_center_of_time_bounds', where='geocat/comp/climatologies.py')],
    ),
)
FUNCS = [
    'geocat.comp.climatologies.calendar_average',
    'geocat.comp.climatologies._calculate_center_of_time_bounds',
    'geocat.comp.climatologies._average_of_periods',
    'xarray resample/groupby reductions (executed on symbolic arrays)',
]
BOUNDS = 'time axes listed in the cases (3 to 740 steps, at most 72 of them symbolic); one or two points; values in [-1000,1000], each possibly missing'
OUTSIDE = 'other time axes; dask inputs (C25); sampling coarser than the averaging period (refused: periods without samples cannot be labelled); rounding'


def h(start, n, step, cal, freq, npts=2, nan=True, kind='da', tpos=0, attrs=None, tname='time', free=None):
    def f(env):
        t = taxis(start, n, step, cal)
        x = series(env, n, npts, nan, free)
        dims = [tname, 'x']
        v = x
        if tpos == 1:
            v, dims = x.T, ['x', tname]
        da = xr.DataArray(v, dims=dims, coords={tname: t, 'x': [10.0 * i for i in range(npts)]}, name='v', attrs={'units': 'K'})
        if tname != 'time':
            da[tname].attrs['standard_name'] = 'time'
        src = xr.Dataset({'v': da, 'w': da * 2}, attrs={'title': 'T'}) if kind == 'ds' else da
        kw = {} if attrs is None else {'keep_attrs': attrs == 'keep'}
        if tname != 'time':
            kw['time_dim'] = tname
        got = gc.calendar_average(src, freq, **kw)
        env.same('type', type(got), type(src))
        env.same('attrs', dict(got.attrs), {} if attrs == 'drop' else dict(src.attrs))
        per = groups([period_key(q, freq) for q in t])
        vs = [(got, 1)] if kind == 'da' else [(got['v'], 1), (got['w'], 2)]
        for g, k in vs:
            env.same('dims', list(g.dims), dims)
            env.same('x-coord', list(g['x'].values), list(da['x'].values))
            want = []
            for key, idx in per:
                for p in range(npts):
                    if freq in ('season', 'year'):
                        months = groups([period_key(t[i], 'month') for i in idx])
                        ms = [mean(env, [x[idx[j], p] for j in js]) for _, js in months]
                        r = wmean(env, ms, [days_in_month(t[idx[js[0]]]) for _, js in months])
                    else:
                        r = mean(env, [x[i, p] for i in idx])
                    want.append(k * r)
            g2 = g.transpose(tname, 'x')
            env.same('steps', g2.sizes[tname], len(per))
            env.close('average', g2, want, 1e-9, 1e-7)
            got_t = [as_tuple(q) for q in g2[tname].values]
            env.same('calendar', {getattr(q, 'calendar', 'datetime64') for q in g2[tname].values}, {getattr(q, 'calendar', 'datetime64') for q in da[tname].values})
            env.same('labels', got_t, [center(t[idx[0]], freq) for _, idx in per])

    return f


def h_reject(env):
    t = taxis('2001-01-01', 5, 'D', None)
    mk = lambda t, dims='time': xr.DataArray(env.array('x', (len(t),), -1, 1), dims=dims, coords={dims: t})
    env.raises('freq', ValueError, lambda: gc.calendar_average(mk(t), 'decade'))
    env.raises('uneven', ValueError, lambda: gc.calendar_average(mk(t[[0, 1, 2, 4]]), 'month'))
    env.raises('uneven', ValueError, lambda: gc.calendar_average(mk(t[[0, 1, 2, 4]]), 'day'))
    # uneven in other ways: months with one sample next to months with several or none, single steps missing
    import pandas as pd

    for d in (
        ['2001-01-01', '2001-01-20', '2001-02-05', '2001-03-05', '2001-04-05'],
        ['2001-01-05', '2001-02-05', '2001-04-05', '2001-05-05', '2001-06-06'],
        ['2001-01-05', '2001-02-05', '2001-03-05', '2001-04-01', '2001-04-28'],
        [*pd.date_range('2001-01-30', periods=40).strftime('%Y-%m-%d')][:33] + ['2001-03-05', '2001-03-06'],
    ):
        for tt in (np.array(d, 'M8[ns]'), xr.CFTimeIndex([cftime.DatetimeNoLeap(*map(int, q.split('-'))) for q in d])):
            for fr in ('hour', 'day', 'month', 'season', 'year'):
                env.raises('uneven-' + fr, ValueError, lambda: gc.calendar_average(mk(tt), fr))
    env.raises('not-time', ValueError, lambda: gc.calendar_average(mk(np.arange(4.0)), 'month', time_dim='time'))


INTS = {'month-10d': ('x',), 'season-ms': ('x',), 'year-ds': ('x',), 'day-6h': ('x',)}  # cases repeated with integer input


def cases(tier):
    c = lambda nm, *a, **k: Case(nm, h(*a, **k))
    cs = [
        c('hour-30min', '2001-12-31T22:00', 8, '30min', None, 'hour'),
        c('hour-cf', '2000-02-29T22:00', 6, '20min', 'standard', 'hour'),
        c('day-6h', '2000-02-28T00:00', 12, '6h', None, 'day'),
        c('day-partial', '1999-12-30T13:00', 5, '12h', 'noleap', 'day'),
        c('day-axis1', '2001-06-29T00:00', 6, '12h', None, 'day', tpos=1),
        c('month-10d', '2001-01-25', 5, '10D', '360_day', 'month'),
        c('month-month', '2001-11-01', 4, 'MS', None, 'month'),
        c('month-end', '2001-11-30', 4, 'ME', 'standard', 'month'),
        c('month-5d', '1999-12-20', 12, '5D', None, 'month', npts=1),
        c('season-ms', '1999-11-01', 8, 'MS', None, 'season'),
        c('season-ms-cf', '2000-01-01', 6, 'MS', 'noleap', 'season'),
        c('season-360', '2001-02-15', 5, '30D', '360_day', 'season', npts=1),
        c('season-15d', '2000-01-20', 8, '15D', None, 'season', npts=1),
        c('year-ms', '1999-10-01', 18, 'MS', None, 'year', npts=1),
        c('year-ms2', '2003-11-01', 5, 'MS', None, 'year'),
        c('year-cf', '2000-01-01', 14, 'MS', 'julian', 'year', npts=1),
        c('year-nonan', '1999-11-01', 16, 'MS', None, 'year', nan=False),
        c('year-ds', '2000-12-01', 4, 'MS', None, 'year', kind='ds'),
        c('month-ds', '2000-12-16', 6, '15D', None, 'month', kind='ds', npts=1),
        c('season-axis1', '2000-11-01', 4, 'MS', None, 'season', tpos=1),
        c('season-keep', '2000-11-01', 4, 'MS', None, 'season', attrs='keep'),
        c('season-drop', '2000-11-01', 4, 'MS', None, 'season', attrs='drop'),
        c('month-keep', '2000-11-01', 4, 'MS', None, 'month', attrs='keep'),
        c('month-drop', '2000-11-01', 4, 'MS', 'noleap', 'month', attrs='drop'),
        c('day-named', '2000-02-28T00:00', 6, '8h', None, 'day', tname='t'),
        Case('reject', h_reject, novectors=True),
        c('mid-month', '2000-11', 5, 'mid', None, 'month', npts=1),
        c('mid-season', '2000-11', 8, 'mid', 'noleap', 'season', npts=1),
        c('mid-season-64', '1999-12', 5, 'mid', None, 'season', npts=1),
        c('mid-year', '2000-10', 16, 'mid', None, 'year', npts=1),
        Case('mix-day', h_mix(lambda d: gc.calendar_average(d, 'day'), '2000-02-28', 6, '12h', None)),
        Case('mix-month', h_mix(lambda d: gc.calendar_average(d, 'month'), '2000-12-16', 6, '15D', None)),
        Case('mix-season', h_mix(lambda d: gc.calendar_average(d, 'season'), '2000-11-01', 5, 'MS', 'noleap')),
        Case('mix-year', h_mix(lambda d: gc.calendar_average(d, 'year'), '2000-11-01', 5, 'MS', 'noleap')),
        c('day-hourly', '2000-02-28T10:00', 72, 'h', None, 'day', npts=1),
        c('month-daily', '2000-02-20', 45, 'D', None, 'month', npts=1),
        c('season-daily', '2000-02-10', 45, 'D', 'noleap', 'season', npts=1),
        c('year-36', '1999-01-01', 36, 'MS', None, 'year', npts=1),
        c('season-36', '1999-01-01', 36, 'MS', 'all_leap', 'season', npts=1),
        c('year-daily', '1999-12-10', 45, 'D', None, 'year', npts=1),
        c('one-step-month', '2000-02-01', 3, 'MS', None, 'month', npts=1),
        c('day-julian-1900', '1900-02-27T12:00', 8, '12h', 'julian', 'day', npts=1),
        c('day-1900', '1900-02-27T12:00', 8, '12h', 'standard', 'day', npts=1),
        c('month-feb-1900', '1900-01-20', 6, '10D', 'julian', 'month', npts=1),
        c('season-feb-leap', '2000-01-01', 5, 'MS', 'julian', 'season', npts=1),
        c('season-feb-2100', '2100-01-01', 5, 'MS', None, 'season', npts=1),
        c('season-me', '1999-11-30', 8, 'ME', 'standard', 'season', npts=1),
        c('year-360', '1999-10-01', 16, 'MS', '360_day', 'year', npts=1),
        c('year-me', '1999-11-30', 15, 'ME', None, 'year', npts=1),
        c('month-mid', '2000-01-15', 14, '30D', '360_day', 'month', npts=1),
        c('year-all-days', '1999-12-30', 740, 'D', None, 'year', npts=1, free=[0, 1, 2, 32, 33, 60, 61, 62, 366, 367, 368, 739]),
        c('season-all-days', '1999-11-28', 400, 'D', 'standard', 'season', npts=1, free=[0, 3, 4, 33, 34, 92, 93, 94, 95, 399]),
        c('day-5min', '2000-02-29T23:00', 24, '5min', None, 'hour', npts=1),
        c('day-long', '1999-12-31', 500, '6h', None, 'day', npts=2, free=[0, 1, 2, 3, 4, 5, 240, 241, 242, 243, 244, 499]),
    ]
    if tier == 'thorough':
        k = 0
        for cal in (None, 'standard', 'noleap', 'all_leap', '360_day', 'julian'):
            for y in ('1999', '2000', '2100', '1900'):
                for m in range(1, 13):
                    for step, freq, n in (('MS', 'season', 9), ('MS', 'year', 15), ('10D', 'month', 9), ('6h', 'day', 11), ('20min', 'hour', 8)):
                        k += 1
                        cs.append(c(f'axis-{k}-{freq}', f'{y}-{m:02d}-{"01" if step == "MS" else "28"}', n, step, cal, freq, npts=1))
    return cs
