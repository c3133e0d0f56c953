"""Climate anomalies: every sample minus the mean of its own period."""
import cftime
import numpy as np
import xarray as xr

import geocat.comp as gc
from symx.harness import Case
from ._util import NAN, days_in_month, groups, h_mix, mean, period_key, series, stamp, taxis, wmean
from .C13 import SEASONS, label

ID = 'C14'
PROP = dict(
    title='climate_anomaly subtracts from each sample the mean of its own period only',
    statement=(
        'For every time series, each anomaly is the sample minus the climatological mean of its calendar day, month or season over all years, or for year minus the (month-length weighted) mean of its own four-digit calendar year, '
        'at the same grid point; it is missing exactly where the sample is missing. Hence a series equal to its climatology has zero anomalies, and daily and monthly anomalies add up to zero over each group of non-missing samples. '
        'The result has the time axis, dimensions, coordinates and container type of the input, in the same order, and unknown frequencies and uneven sampling are refused.'
    ),
    quantifier=dict(over=['inputs'], text='all real data, any subset missing; enumerated time axes including leap days and years a century apart, calendars, containers'),
    why_tests_cant='Tests use one short complete series; pairing of a sample with the wrong group or point only shows with other axes, gaps or missing values.',
    anchors=dict(
        files=['geocat/comp/climatologies.py'],
        mechanism=[dict(name='climate_anomaly', where='geocat/comp/climatologies.py'), dict(name='climatology_average', where='geocat/comp/climatologies.py')],
    ),
)
FUNCS = ['geocat.comp.climatologies.climate_anomaly', 'geocat.comp.climatologies.climatology_average', 'geocat.comp.climatologies.calendar_average', 'xarray groupby arithmetic (executed on symbolic arrays)']
BOUNDS = 'time axes listed in the cases (5 to 1213 steps, at most 36 of them symbolic); one or two points; values in [-1000,1000], each possibly missing'
OUTSIDE = 'other time axes; dask inputs (C25); rounding'
SEAS = {m: s for s in ('DJF', 'MAM', 'JJA', 'SON') for m in SEASONS[s]}


def h(start, n, step, cal, freq, npts=2, nan=True, kind='da', tpos=0, attrs=None, free=None, tname='time', t=None):
    def f(env):
        tt = taxis(start, n, step, cal)
        x = series(env, n, npts, nan, free)
        dims = [tname, 'x']
        v = x
        if tpos == 1:
            v, dims = x.T, ['x', tname]
        da = xr.DataArray(v, dims=dims, coords={tname: tt, 'x': [10.0 * i for i in range(npts)]}, name='v', attrs={'units': 'K'})
        src = xr.Dataset({'v': da, 'w': da * 2}, attrs={'title': 'T'}) if kind == 'ds' else da
        kw = {} if attrs is None else {'keep_attrs': attrs == 'keep'}
        if tname != 'time':
            kw['time_dim'] = tname
        got = gc.climate_anomaly(src, freq, **kw)
        env.same('type', type(got), type(src))
        env.same('attrs', dict(got.attrs), {} if attrs == 'drop' else dict(src.attrs))
        if freq == 'season':
            keys = [SEAS[stamp(q).month] for q in tt]
        elif freq == 'year':
            keys = [stamp(q).year for q in tt]
        else:
            keys = [label(q, freq) for q in tt]
        per = dict(groups(keys))
        clim = {}
        for key, idx in per.items():
            for p in range(npts):
                if freq in ('season', 'year'):
                    months = groups([period_key(tt[i], 'month') for i in idx])
                    ms = [mean(env, [x[idx[j], p] for j in js]) for _, js in months]
                    clim[key, p] = wmean(env, ms, [days_in_month(tt[idx[js[0]]]) for _, js in months])
                else:
                    clim[key, p] = mean(env, [x[i, p] for i in idx])
        vs = [(got, 1)] if kind == 'da' else [(got['v'], 1), (got['w'], 2)]
        for g, k in vs:
            env.same('dims', list(g.dims), dims)
            env.same('coords', set(map(str, g.coords)) - {'season'}, set(map(str, da.coords)))
            g2 = g.transpose(tname, 'x')
            env.same('x-coord', list(g2['x'].values), list(da['x'].values))
            env.same('time', list(g2[tname].values), list(da[tname].values))
            sel = range(n) if free is None else sorted(set(free) | {i for f_ in free for i in per[keys[f_]]})
            want = [env.ite(env.isnan(x[i, p]), NAN, k * (x[i, p] - clim[keys[i], p])) for i in sel for p in range(npts)]
            gf = np.asarray(g2.data, dtype=object).reshape(n, npts) if env.symbolic else g2.values
            env.close('anomaly', env.mkarray([gf[i, p] for i in sel for p in range(npts)]), want, 1e-9, 1e-7)
            if freq in ('day', 'month') and free is None and kind == 'da':
                for key, idx in per.items():
                    s = 0.0
                    for i in idx:
                        s = s + env.ite(env.isnan(gf[i, 0]), 0.0, gf[i, 0])
                    env.close('adds-to-zero', [s], [0.0], 0, 1e-6)

    return f


def h_reject(env):
    t = taxis('2001-01-01', 5, 'D', None)
    mk = lambda t, dims='time': xr.DataArray(env.array('x', (len(t),), -1, 1), dims=dims, coords={dims: t})
    env.raises('freq', ValueError, lambda: gc.climate_anomaly(mk(t), 'hour'))
    env.raises('uneven', ValueError, lambda: gc.climate_anomaly(mk(t[[0, 1, 2, 4]]), 'month'))
    env.raises('uneven', ValueError, lambda: gc.climate_anomaly(mk(t[[0, 1, 2, 4]]), 'year'))
    # uneven in other ways: months with one sample next to months with several or none, single steps missing
    import pandas as pd

    for d in (
        ['2001-01-01', '2001-01-20', '2001-02-05', '2001-03-05', '2001-04-05'],
        ['2001-01-05', '2001-02-05', '2001-04-05', '2001-05-05', '2001-06-06'],
        ['2001-01-05', '2001-02-05', '2001-03-05', '2001-04-01', '2001-04-28'],
        [*pd.date_range('2001-01-30', periods=40).strftime('%Y-%m-%d')][:33] + ['2001-03-05', '2001-03-06'],
    ):
        for tt in (np.array(d, 'M8[ns]'), xr.CFTimeIndex([cftime.DatetimeNoLeap(*map(int, q.split('-'))) for q in d])):
            for fr in ('day', 'month', 'season', 'year'):
                env.raises('uneven-' + fr, ValueError, lambda: gc.climate_anomaly(mk(tt), fr))
    env.raises('not-time', ValueError, lambda: gc.climate_anomaly(mk(np.arange(4.0)), 'month', time_dim='time'))


INTS = {'month-14': ('x',), 'season-14': ('x',), 'year-2': ('x',), 'day-partial': ('x',)}  # cases repeated with integer input


def cases(tier):
    c = lambda nm, *a, **k: Case(nm, h(*a, **k))
    feb = [58, 59, 60, 58 + 365, 59 + 365, 60 + 365, 58 + 730, 59 + 730]
    cs = [
        c('month-20', '2000-11-01', 20, 'MS', None, 'month', npts=1),
        c('month-14', '2000-11-01', 14, 'MS', None, 'month'),
        c('month-end', '2000-10-31', 14, 'ME', 'noleap', 'month', npts=1),
        c('month-10d', '2000-12-20', 8, '10D', None, 'month'),
        c('month-axis1', '2000-11-01', 14, 'MS', None, 'month', tpos=1),
        c('month-ds', '2000-11-01', 14, 'MS', None, 'month', kind='ds', npts=1),
        c('month-keep', '2000-11-01', 5, 'MS', None, 'month', attrs='keep'),
        c('month-drop', '2000-11-01', 5, 'MS', None, 'month', attrs='drop'),
        c('month-named', '2000-11-01', 5, 'MS', None, 'month', tname='t'),
        c('day-12h', '2000-02-28', 6, '12h', None, 'day'),
        c('day-partial', '2000-12-29', 6, 'D', 'standard', 'day'),
        c('day-leap', '2000-01-01', 1096, 'D', None, 'day', npts=1, free=feb),
        c('day-noleap', '2000-01-01', 800, 'D', 'noleap', 'day', npts=1, free=feb[:6]),
        c('season-14', '2000-11-01', 14, 'MS', None, 'season'),
        c('season-18', '2000-05-01', 18, 'MS', '360_day', 'season', npts=1),
        c('season-axis1', '2000-01-01', 12, 'MS', None, 'season', tpos=1),
        c('season-ds', '2000-01-01', 12, 'MS', None, 'season', kind='ds', npts=1),
        c('season-drop', '2000-01-01', 12, 'MS', None, 'season', npts=1, attrs='drop'),
        c('year-14', '2000-11-01', 14, 'MS', None, 'year', npts=1),
        c('year-2', '2000-11-01', 4, 'MS', 'noleap', 'year'),
        c('year-axis1', '2000-11-01', 4, 'MS', None, 'year', tpos=1),
        c('year-ds', '2000-11-01', 4, 'MS', None, 'year', kind='ds', npts=1),
        c('year-keep', '2000-11-01', 4, 'MS', None, 'year', npts=1, attrs='keep'),
        c('year-century', '1999-12-01', 1202, 'MS', 'noleap', 'year', npts=1, free=[0, 1, 2, 1200, 1201]),
        c('year-daily', '1999-12-20', 24, 'D', None, 'year', npts=1),
        c('season-daily', '2000-02-20', 380, 'D', None, 'season', npts=1, free=list(range(6, 14))),
        c('year-all-days', '1999-12-30', 740, 'D', None, 'year', npts=1, free=[0, 1, 2, 61, 62, 367, 368, 739]),
        c('day-julian-1900', '1899-01-01', 731, 'D', 'julian', 'day', npts=1, free=[58, 59, 423, 424, 425]),
        c('day-1900', '1899-01-01', 730, 'D', 'standard', 'day', npts=1, free=[58, 59, 423, 424, 425]),
        c('month-even-years', '2000-01-01', 24, 'MS', None, 'month', npts=1),
        c('season-me', '1999-11-30', 15, 'ME', None, 'season', npts=1),
        c('season-1900', '1899-12-01', 15, 'MS', 'standard', 'season', npts=1),
        c('season-julian-1900', '1899-12-01', 15, 'MS', 'julian', 'season', npts=1),
        c('year-me', '1999-11-30', 15, 'ME', 'standard', 'year', npts=1),
        Case('reject', h_reject, novectors=True),
        c('mid-month', '2000-11', 14, 'mid', None, 'month', npts=1),
        c('mid-season', '2000-01', 14, 'mid', 'noleap', 'season', npts=1),
        c('mid-year', '1999-10', 16, 'mid', None, 'year', npts=1),
        Case('mix-day', h_mix(lambda d: gc.climate_anomaly(d, 'day'), '2000-02-28', 6, '12h', None, mask=False)),
        Case('mix-month', h_mix(lambda d: gc.climate_anomaly(d, 'month'), '2000-11-01', 14, 'MS', None, mask=False)),
        Case('mix-season', h_mix(lambda d: gc.climate_anomaly(d, 'season'), '2000-01-01', 13, 'MS', 'noleap', mask=False)),
        Case('mix-year', h_mix(lambda d: gc.climate_anomaly(d, 'year'), '2000-11-01', 5, 'MS', 'noleap', mask=False)),
    ]
    if tier == 'thorough':
        cs += [
            c('month-36', '1999-03-01', 36, 'MS', None, 'month', npts=1),
            c('season-36', '1999-03-01', 36, 'MS', None, 'season', npts=1),
            c('year-36', '1999-03-01', 36, 'MS', None, 'year', npts=1),
            c('day-4y', '2001-01-01', 1461, 'D', None, 'day', npts=1, free=feb + [1154, 1155, 1156]),
        ]
    if tier == 'thorough':
        k = 0
        for cal in (None, 'standard', 'noleap', '360_day', 'julian'):
            for y in ('1999', '2000', '1900'):
                for m in range(1, 13):
                    for step, freq, n in (('MS', 'season', 13), ('MS', 'month', 14), ('MS', 'year', 14), ('10D', 'month', 9), ('6h', 'day', 11)):
                        k += 1
                        cs.append(c(f'axis-{k}-{freq}', f'{y}-{m:02d}-{"01" if step == "MS" else "28"}', n, step, cal, freq, npts=1))
    return cs
