"""Empirical orthogonal functions (eofunc_eofs, eofunc_pcs, eofunc, eofunc_ts)."""
import warnings

import numpy as np
import xarray as xr

from geocat.comp.stats import eofunc, eofunc_eofs, eofunc_pcs, eofunc_ts
from symx.harness import Case
from ._util import NAN

ID = 'C23'
PROP = dict(
    title='eofunc_eofs and eofunc_pcs give the singular vectors of the field over time',
    statement=(
        'For every real field and every position of the time axis, with the field laid out as a matrix of times by points, multiplied by the weights and centred over time: '
        'eofunc_eofs returns its right singular vectors as maps with the other dimensions in their order, missing where the field is, scaled as asked, with eigenvalues s^2/(N - ddof), their fractions, sum and North errors as attributes; '
        'eofunc_pcs returns its left singular vectors times the singular values, scaled as asked, over time. '
        'With meta the dimensions, coordinates and attributes of the input are kept and the input is not changed; a number of modes below one or a time axis that does not exist is refused.'
    ),
    quantifier=dict(over=['inputs'], text='all real fields up to 4 times by 6 points with fixed missing points; time axes, weights, scalings, numbers of modes and container types enumerated'),
    why_tests_cant='Tests use a few sets of numbers and mostly the time axis in front; layouts where two axes have the same length, other weights and other attributes are not seen.',
    anchors=dict(
        files=['geocat/comp/stats.py'],
        mechanism=[dict(name=n, where='geocat/comp/stats.py') for n in ('_generate_eofs_solver', 'eofunc_eofs', 'eofunc_pcs', 'eofunc', 'eofunc_ts')],
    ),
)
FUNCS = ['geocat.comp.stats.' + n for n in ('_generate_eofs_solver', 'eofunc_eofs', 'eofunc_pcs', 'eofunc', 'eofunc_ts')] + ['eofs.xarray.Eof', 'eofs.standard.Eof']
BOUNDS = 'fields in [-100,100], up to 3 axes and 24 elements (three cases with 336 to 1008)'
OUTSIDE = 'the singular value decomposition itself (LAPACK; an uninterpreted function of the matrix here, so that the same matrix must be decomposed); missing values that change over time without centring; inputs of other types; rounding'


def h(shape, td=0, kind='np', n=2, scaling=0, wts=None, center=True, ddof=1, vfscaled=False, gaps=(), meta=False, coords=True, old=False, default=False, some=(), given=None):
    def f(env):
        v = env.array('v', shape, -100, 100)
        T = td % len(shape)
        nt = shape[T]
        space = tuple(int(q) for q in np.delete(shape, T))
        npts = int(np.prod(space))
        if gaps:
            g = np.zeros((nt, npts), bool)
            g[:, list(gaps)] = True
            g = np.moveaxis(g.reshape((nt,) + space), 0, T).reshape(-1)
            v = env.mkarray([NAN if b else e for b, e in zip(g, env.flat(v))], shape)
        if some:
            # missing at one time only: centring makes the point missing throughout
            e = [list(env.flat(r)) for r in env.mkarray(env.flat(np.moveaxis(v, T, 0)), (nt, npts))]
            for t, p in some:
                e[t][p] = NAN
            v = np.moveaxis(env.mkarray([q for r in e for q in r], (nt,) + space), 0, T)
        w = None
        if wts == 'last':
            w = env.array('w', space[-1:], 0.1, 3)
        elif wts == 'space':
            w = env.array('w', space, 0.1, 3)
        # reference
        X = [[e for e in env.flat(r)] for r in env.mkarray(env.flat(np.moveaxis(v, T, 0)), (nt, npts))]
        keep = [p for p in range(npts) if p not in gaps and p not in {q for _, q in some}]
        W = [1.0] * npts if w is None else env.flat(np.broadcast_to(w, space))
        M = [[r[p] * W[p] for p in keep] for r in X]
        if center:
            m = [sum(M[t][j] for t in range(nt)) / nt for j in range(len(keep))]
            M = [[M[t][j] - m[j] for j in range(len(keep))] for t in range(nt)]
        U, s, V = np.linalg.svd(env.mkarray([e for r in M for e in r], (nt, len(keep))), full_matrices=False)
        k = min(n, len(s))
        lam = [e * e / float(nt - ddof) for e in s]
        tot = sum(lam[1:], lam[0])
        sc = {0: lambda e, q: e, 1: lambda e, q: e / env.sqrt(lam[q]), 2: lambda e, q: e * env.sqrt(lam[q])}[scaling]
        eofs = []
        for q in range(k):
            row = [NAN] * npts
            for j, p in enumerate(keep):
                row[p] = sc(V[q, j], q)
            eofs += row
        pcs = [sc(U[t, q] * s[q], q) for q in range(k) for t in range(nt)]
        # input
        names = ['y', 'x', 'z'][: len(space)]
        if kind == 'list':
            data = [[env.flat(r) for r in p] for p in v] if len(shape) == 3 else [env.flat(p) for p in v]
        elif kind == 'da':
            c = {}
            if coords:
                c = {'time': [10.0 + t for t in range(nt)], names[0]: [5.0 * q for q in range(space[0])], 'run': 7, 'area': (tuple(names), np.arange(npts).reshape(space)), 'season': ('time', list('abcdefgh'[:nt]))}
            data = xr.DataArray(v, dims=['time'] + names, coords=c, name='field', attrs={'units': 'm', 'eigenvalues': 'x'})
            before = data.copy(deep=True)
        else:
            data = v
        if w is not None and kind == 'da':
            w = xr.DataArray(w, dims=names[-w.ndim :])
        kw = {} if default else dict(weights=w, center=center, ddof=ddof)
        if not (default and td == 0) and kind != 'da':
            kw['time_dim'] = td
        if given is not None:
            kw['time_dim'] = given
        if meta:
            kw['meta'] = True
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if old:
                kw = {} if T == len(shape) - 1 else {'time_dim': td}
                E = eofunc(data, n, **kw)
                P = eofunc_ts(data, E, **kw)
            else:
                E = eofunc_eofs(data, neofs=n, **kw) if default else eofunc_eofs(data, n, eofscaling=scaling, vfscaled=vfscaled, **kw)
                P = eofunc_pcs(data, npcs=n, **kw) if default else eofunc_pcs(data, n, pcscaling=scaling, **kw)
        env.same('shape', tuple(E.shape), (k,) + space)
        env.same('pc-shape', tuple(P.shape), (k, nt))
        env.same('pc-dims', P.dims, ('pc', 'time'))
        env.close('eofs', E, eofs, 1e-9, 1e-7)
        env.close('pcs', P, pcs, 1e-9, 1e-7)
        A = E.attrs
        env.close('eigenvalues', A['eigenvalues'], lam[:k], 1e-9, 1e-7)
        env.close('total', A['totalAnomalyVariance'], [tot], 1e-9, 1e-7)
        env.assume(tot > 0.01)
        env.close('fraction', A['varianceFraction'], [e / tot for e in lam[:k]], 1e-9, 1e-7)
        north = [env.sqrt(2.0 / nt) * e for e in lam[:k]]
        env.close('north', A['northTest'], [e / tot for e in north] if vfscaled else north, 1e-9, 1e-7)
        if not meta or kind != 'da':
            env.same('dims', E.dims, ('eof',) + tuple(f'dim_{i}' for i in range(len(shape)) if i != T))
            env.same('coords', (dict(E.coords), dict(P.coords), P.attrs), ({}, {}, {}))
            env.same('attrs', sorted(A), ['eigenvalues', 'northTest', 'totalAnomalyVariance', 'varianceFraction'])
        else:
            env.same('dims', E.dims, ('eof',) + tuple(names))
            env.same('attrs', (A['units'], P.attrs), ('m', before.attrs))
            want = {q for q in before.coords if 'time' not in before[q].dims}
            env.same('coords', set(E.coords), want)
            env.same('coord-values', all(E[q].identical(before[q].reset_coords(drop=True)) or bool((E[q].values == before[q].values).all()) for q in want), True)
            env.same('pc-time', P['time'].values.tolist(), before['time'].values.tolist())
        if kind == 'da':
            env.same('input', (data.attrs, set(data.coords), data.dims, data.name), (before.attrs, set(before.coords), before.dims, before.name))
            env.close('input', data, before, 0, 0)

    return f


def h_reject(env):
    v = env.array('v', (3, 2), -1, 1)
    for q in (0, -1, -3):
        env.raises('eofs', ValueError, lambda: eofunc_eofs(v, q))
        env.raises('pcs', ValueError, lambda: eofunc_pcs(v, q))
    for q in (2, 3, -3):
        env.raises('eofs-axis', ValueError, lambda: eofunc_eofs(v, 1, time_dim=q))
        env.raises('pcs-axis', ValueError, lambda: eofunc_pcs(v, 1, time_dim=q))


INTS = {'np-2d-0': ('v',), 'da-gaps': ('v',), 'np-3d-1': ('v',)}  # cases repeated with integer input


def cases(tier):
    cs = []
    for td in (0, 1, -1, -2):
        cs += [Case(f'np-2d-{td}', h((3, 3), td)), Case(f'list-2d-{td}', h((2, 3), td, kind='list', n=1))]
    for td in (0, 1, 2, -1, -2, -3):
        cs += [Case(f'np-3d-{td}', h((3, 3, 3), td)), Case(f'uneven-{td}', h((3, 2, 4), td, n=1)), Case(f'gaps-{td}', h((3, 2, 2), td, gaps=(1,), n=1))]
    cs += [
        Case('list-3d', h((2, 3, 2), 1, kind='list')),
        Case('default', h((3, 2, 2), default=True)),
        Case('default-1', h((3, 4), default=True, n=1)),
        Case('many', h((3, 2, 2), n=9, center=False)),
        Case('large', h((20, 5, 6), n=3, wts='space')),
        Case('large-mid', h((6, 24, 7), 1, n=3, gaps=(3, 17, 41))),
        Case('large-da', h((8, 7, 6), kind='da', meta=True, n=4, scaling=1)),
        Case('ddof', h((3, 2, 2), ddof=0)),
        Case('ddof2', h((4, 2), 0, ddof=2)),
        Case('no-center', h((3, 2, 2), 1, center=False)),
        Case('no-center-gaps', h((3, 2, 2), 0, center=False, gaps=(0, 3))),
        Case('scale1', h((3, 3), 1, scaling=1)),
        Case('scale2', h((3, 3), 0, scaling=2)),
        Case('north', h((2, 2, 3), 2, vfscaled=True)),
        Case('w-last', h((3, 2, 3), 0, wts='last')),
        Case('w-space', h((3, 2, 2), 0, wts='space')),
        Case('w-space-mid', h((2, 3, 4), 1, wts='space')),
        Case('w-last-end', h((2, 3, 3), -1, wts='last')),
        Case('da', h((3, 2, 2), kind='da')),
        Case('da-bare', h((3, 2), kind='da', coords=False)),
        Case('da-gaps', h((3, 2, 2), kind='da', gaps=(2,))),
        Case('some-missing', h((3, 2, 2), some=((1, 2),), n=1)),
        Case('some-missing-mid', h((2, 3, 2), 1, some=((0, 3), (2, 3)), n=1)),
        Case('some-missing-w', h((3, 2, 2), some=((2, 0),), n=1, wts='space')),
        Case('da-some-missing', h((3, 2, 2), kind='da', some=((0, 1),), meta=True, n=1)),
        Case('da-given', h((3, 2, 2), kind='da', given=1, meta=True)),
        Case('da-given-last', h((3, 3, 3), kind='da', given=-1)),
        Case('da-meta', h((3, 2, 3), kind='da', meta=True)),
        Case('da-meta-square', h((3, 3, 3), kind='da', meta=True)),
        Case('da-meta-gaps', h((3, 2, 2), kind='da', meta=True, gaps=(0,), scaling=2)),
        Case('da-w', h((3, 2, 3), kind='da', wts='space', meta=True)),
        Case('da-w-last', h((3, 2, 3), kind='da', wts='last')),
        Case('np-meta', h((2, 3, 2), 1, meta=True)),
        Case('old', h((2, 3, 4), -1, old=True)),
        Case('old-2d', h((3, 3), 1, old=True)),
        Case('old-list', h((3, 2, 3), -1, old=True, kind='list', n=1)),
        Case('old-first', h((3, 2, 3), 0, old=True)),
        Case('reject', h_reject, novectors=True),
    ]
    for sc in (0, 1, 2):
        for ce in (True, False):
            for dd in (0, 1, 2):
                for kind in ('np', 'da'):
                    wt = ('space', None, 'last')[(sc + dd + ce + (kind == 'da')) % 3]
                    cs.append(Case(f'mix-{sc}-{ce}-{dd}-{kind}', h((4, 2, 2) if kind == 'da' or dd == 1 else (2, 4, 2), 0 if kind == 'da' or dd == 1 else 1, n=1 + (sc + dd) % 2, scaling=sc, wts=wt, center=ce, ddof=dd, kind=kind, meta=kind == 'da' and ce, vfscaled=dd == 0)))
    if tier == 'thorough':
        for td in range(4):
            cs += [Case(f'np-4d-{td}', h((2, 3, 2, 3), td, n=1), weight=3)]
        for td in range(3):
            for sc in (0, 1, 2):
                for wt in (None, 'last', 'space'):
                    for ce in (True, False):
                        cs.append(Case(f'grid-{td}-{sc}-{wt}-{ce}', h((3, 3, 3), td, scaling=sc, wts=wt, center=ce, n=2 if ce else 3, ddof=0, gaps=(4,))))
    return cs
