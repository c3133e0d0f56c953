"""Discovery of variables by name and attributes (_find_var, _find_optional_var)."""
import numpy as np
import xarray as xr

import geocat.comp.gc_util as gu
from symx import strs
from symx.harness import Case

ID = 'C24'
PROP = dict(
    title='Variables are found in a fixed order of priority, whatever the hash seed',
    statement=(
        'For every dataset, _find_var returns the first variable (data variables in dataset order, then coordinates) whose name or standard_name attribute is the given standard_name; failing that, the first whose name or long_name attribute is the given long_name; '
        'failing that, the first of possible_names, in the order listed, that the dataset has. A name counts in its given, lower-case, upper-case, Capitalized and Word_Capitalized form, a long_name also with blanks and underscores exchanged, and nothing else counts. '
        'If there is none, _find_var raises KeyError and _find_optional_var returns None. The answer depends on the dataset and the arguments alone, not on the iteration order of sets (the hash seed), and the dataset is not changed.'
    ),
    quantifier=dict(over=['inputs', 'schedules'], text='all datasets of up to 3 data variables and a coordinate whose names and attributes come from tables of all forms of the queried names and near misses, the attributes present or absent; 8 iteration orders of every set'),
    why_tests_cant='A test fixes one dataset, so two variables that match at different priorities, or two possible names present at once, are hardly seen, and the iteration order of sets of strings changes from process to process.',
    anchors=dict(files=['geocat/comp/gc_util.py'], mechanism=[dict(name=n, where='geocat/comp/gc_util.py') for n in ('_find_var', '_find_optional_var')]),
)
FUNCS = ['geocat.comp.gc_util._find_var', 'geocat.comp.gc_util._find_optional_var']
BOUNDS = 'up to 3 data variables and 1 coordinate; names and attributes over tables of up to 40 strings'
OUTSIDE = 'strings outside the tables; attributes that are not strings'


S, L = 'standard_name', 'long_name'
both = (S, L)


def forms(s):
    return [s, s.lower(), s.upper(), s.capitalize(), '_'.join(w.capitalize() for w in s.split('_'))]


def long_forms(s):
    return forms(s) + [' '.join(w.capitalize() for w in s.split(' ')), s.replace(' ', '_'), s.replace('_', ' ')]


def uniq(*ls):
    return list(dict.fromkeys(s for q in ls for s in q))


def h(std, long, poss, present, coord=None, optional=False, explicit=True):
    """present: per variable, which attributes it has"""

    def f(env):
        near = []
        for s in ([std] if std else []) + ([long] if long else []) + (poss or []):
            near += [s + '_2', s[1:], s.swapcase(), s.title(), ' '.join(w.capitalize() for w in s.split('_'))]
        sf = forms(std) if std else []
        lf = long_forms(long) if long else []
        pf = uniq(*[forms(p) for p in poss or []])
        table = uniq(sf, lf, pf, [s for s in near if s])
        n = len(present)
        tag = lambda s: strs.const(env, s)
        names = [strs.string(env, f'n{i}', table + [f'q{i}']) for i in range(n)]
        allnames = list(names)
        if coord:
            allnames.append(strs.string(env, 'c', table + ['qc']))
        for i in range(len(allnames)):
            for j in range(i):
                env.assume(allnames[i] != allnames[j])
        atts, vs = [], {}
        for i, p in enumerate(present + [both] * bool(coord)):
            a = {}
            for k in p:
                a[k] = strs.string(env, f'{k[0]}{i}', table + ['', f'r{i}'])
            atts.append(a)
            if i == n:
                catts = {tag(k): v for k, v in a.items()}
                break
            vs[names[i]] = xr.DataArray(np.arange(2.0) + i, dims='x', attrs={tag(k): v for k, v in a.items()})
        ds = xr.Dataset(vs)
        if coord:
            ds = ds.assign_coords({allnames[-1]: ('x', np.arange(2.0), catts)})
        pick = lambda: env.integer('order', 0, 7)
        eq = lambda s, ts: env.Or(*[s == t for t in ts]) if ts else False
        # priority list of (condition, variable)
        pri = []
        if std:
            pri += [(env.Or(eq(allnames[i], sf), eq(atts[i]['standard_name'], sf) if 'standard_name' in atts[i] else False), i) for i in range(len(allnames))]
        if long:
            pri += [(env.Or(eq(allnames[i], lf), eq(atts[i]['long_name'], lf) if 'long_name' in atts[i] else False), i) for i in range(len(allnames))]
        for p in poss or []:
            for q in forms(p):
                pri += [(allnames[i] == q, i) for i in range(len(allnames))]
        # call
        fn = '_find_optional_var' if optional else '_find_var'
        if env.symbolic:
            ns = strs.transform(gu, True)
        else:
            ns = strs.transform(gu, False) if pick() else vars(gu)
        strs.NSet.order = pick
        kw = {}
        if std or explicit:
            kw['standard_name'] = tag(std) if std else std
        if long or explicit:
            kw['long_name'] = tag(long) if long else long
        if poss or explicit:
            kw['possible_names'] = [tag(p) for p in poss] if poss else poss
        given = kw.get('possible_names')
        try:
            r = ns[fn](ds, description='thing', **kw)
        except KeyError:
            r = KeyError
        none = env.And(True, *[env.Not(c) for c, _ in pri])
        if r is None or r is KeyError:
            env.same('kind', 'none' if r is None else 'error', 'none' if optional else 'error')
            env.check('none-matches', none)
        else:
            hit = [i for i, s in enumerate(allnames) if r is s or (not env.symbolic and r == s)]
            if not hit:  # an equal string from elsewhere
                hit = [i for i, s in enumerate(allnames) if bool(r == s)]
            env.same('known', len(hit), 1)
            want, earlier = [], []
            for c, i in pri:
                if i == hit[0]:
                    want.append(env.And(True, c, *earlier))
                earlier.append(env.Not(c))
            env.check('first-match', env.Or(False, *want))
        if given:
            env.check('arguments', len(given) == len(poss) and all(str.__str__(a) == b for a, b in zip(given, poss)))
        env.same('dataset', (len(ds.data_vars), len(ds.coords)), (n, 1 if coord else 0))

    return f


WIND = ('northward_wind', 'Meridional wind', ['V', 'vs', 'meridional_wind'])
PRES = ('surface_air_pressure', 'Surface pressure', ['ps', 'p_surface', 'surface_pressure', 'pressure_surface'])
PLEV = ('air_pressure', None, ['plev', 'pressure_lev', 'pressure_levels'])
HYAM = (None, 'hybrid A coefficient at layer midpoints', ['hyam', 'hya', 'hybrid_A_midpoints'])


def cases(tier):
    cs = [
        Case('std', h('air_pressure', None, None, [both, both])),
        Case('std-absent', h('air_pressure', None, None, [(L,), (S,), ()], explicit=False)),
        Case('long', h(None, 'layer_mean B', None, [both, both])),
        Case('long-absent', h(None, 'Surface pressure', None, [(S,), (), (L,)], explicit=False)),
        Case('names', h(None, None, ['V', 'vs', 'meridional_wind'], [(), ()], explicit=False)),
        Case('names-coord', h(None, None, ['plev', 'p_lev'], [(S,), (L,)], coord=True)),
        Case('names-order', h(None, None, ['b', 'a', 'c_d'], [(), (), ()])),
        Case('std-coord', h('air_pressure', None, None, [(), both], coord=True, optional=True)),
        Case('long-coord', h(None, 'Layer mean', None, [(L,)], coord=True)),
        Case('std-long', h('Air_pressure', 'air Pressure', None, [both, both])),
        Case('wind', h(*WIND, [both, both])),
        Case('wind-absent', h(*WIND, [(), (S,)], coord=True)),
        Case('pressure', h(*PRES, [(L,), both])),
        Case('plev', h(*PLEV, [both, ()], coord=True, optional=True)),
        Case('hyam', h(*HYAM, [(L,), both], optional=True)),
        Case('optional', h('a_b', 'c d', ['e'], [both, ()], optional=True)),
        Case('digits', h('wind_at_10m', 'wind 2m', ['v10m', 'v_2x'], [(S,), (L,)])),
        Case('digits-names', h(None, None, ['v10m', 'wind_2x'], [(), ()])),
        Case('nothing', h(None, None, None, [both])),
        Case('empty', h('', '', [], [both], optional=True)),
    ]
    if tier == 'thorough':
        for k, q in dict(wind=WIND, pressure=PRES, plev=PLEV, hyam=HYAM).items():
            cs += [Case(f'{k}-3', h(*q, [both, both, both]), weight=3), Case(f'{k}-3-coord', h(*q, [(S,), (L,), ()], coord=True, optional=True), weight=3)]
    return cs
