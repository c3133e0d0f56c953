"""Fourier filters."""
import math

import numpy as np
import xarray as xr

import geocat.comp as gc
from symx.core import SymC
from symx.harness import Case

ID = 'C16'
PROP = dict(
    title='Fourier filters keep exactly the pass band of every series and nothing else',
    statement=(
        'For every real signal, sampling frequency and cutoffs up to the Nyquist frequency, each filter returns, along the chosen time axis and separately for every other index, the real series whose discrete spectrum equals that of the signal '
        'in the pass band and is zero elsewhere, positive and negative frequencies alike. With f the frequency step, L the low cutoff rounded down and H the high cutoff rounded up to a multiple of f, the low pass keeps |freq| < L, '
        'the high pass |freq| >= H, the band pass L <= |freq| < H and the band block the complement of the band pass, so that low pass + band pass + high pass, and band pass + band block, give back the signal. '
        'Shape, axis order and for DataArrays the container with its coordinates are those of the input, whatever the position of the time axis.'
    ),
    quantifier=dict(over=['inputs'], text='all real signals of 4 to 12 (24) samples, all pass bands, 1 to 3 dimensions, every time axis, numpy and DataArray'),
    why_tests_cant='Tests filter a few sine waves on cubes whose axes have equal lengths; wrong bins, one-sided removal or a wrong axis are invisible for them.',
    anchors=dict(
        files=['geocat/comp/fourier_filters.py'],
        mechanism=[dict(name=n, where='geocat/comp/fourier_filters.py') for n in ('fourier_filter', 'fourier_low_pass', 'fourier_high_pass', 'fourier_band_pass', 'fourier_band_block')],
    ),
)
FUNCS = ['geocat.comp.fourier_filters.' + n for n in ('fourier_filter', 'fourier_low_pass', 'fourier_high_pass', 'fourier_band_pass', 'fourier_band_block')]
BOUNDS = 'samples real in [-1000,1000]; 4..12 samples (thorough: 16, 20, 24), and 21 and 30 with one symbolic sample a series and fixed other ones; every multiple of f as cutoff and every value strictly between (symbolic offset in [0.05,0.95] f); one case with symbolic sampling frequency'
OUTSIDE = 'the FFT kernel itself (modelled by the definition of the discrete Fourier transform, roots of unity rounded to double); missing values; cutoffs above Nyquist; rounding (including a cutoff/f quotient that rounding moves across an integer)'

NAMES = ('low', 'high', 'pass', 'block')


def keep(name, L, H, k, n):
    q = min(k, n - k)
    return {'low': q < L, 'high': q >= H, 'pass': L <= q < H, 'block': not L <= q < H}[name]


def apply(name, sig, freq, lo, hi, flags, **kw):
    if flags:
        f = {'low': 'low_pass', 'high': 'high_pass', 'pass': 'band_pass', 'block': 'band_block'}[name]
        return gc.fourier_filter(sig, freq, cutoff_frequency_low=lo, cutoff_frequency_high=hi, **{f: True}, **kw)
    if name == 'low':
        return gc.fourier_low_pass(sig, freq, lo, **kw)
    if name == 'high':
        return gc.fourier_high_pass(sig, freq, hi, **kw)
    return {'pass': gc.fourier_band_pass, 'block': gc.fourier_band_block}[name](sig, freq, lo, hi, **kw)


def expected(x, n, kept):
    """x: list of n values -> real series with only the kept bins (impulse response)"""
    hr = [sum(math.cos(2 * math.pi * ((k * d) % n) / n) for k in range(n) if kept[k]) / n for d in range(n)]
    out = []
    for t in range(n):
        s = 0.0
        for q in range(n):
            s = s + x[q] * hr[(t - q) % n]
        out.append(s)
    return out


def cutoff(env, tag, n, res, lo_j=0):
    """-> value, index rounded down, index rounded up; every cutoff up to Nyquist"""
    top = n // 2
    j = env.integer(tag + 'j', lo_j, top)
    if j == top:
        return j * res, j, j
    if env.boolean(tag + 'between'):
        e = env.real(tag + 'e', 0.05, 0.95)
        return (j + e) * res, j, j + 1
    return j * res, j, j


def h(n, freq, shape=None, axis=0, kind='np', names=NAMES, flags=False, kwaxis=True, free=None):
    def f(env):
        shp = shape or (n,)
        x = env.array('x', shp, -1000, 1000)
        if free is not None:  # fixed numbers but for the samples listed
            x = env.mkarray([e if i in free else float((5 * i * i + i) % 17 - 4) for i, e in enumerate(env.flat(x))], shp)
        res = freq / n
        name = env.choice('filter', names)
        lo, L, _ = cutoff(env, 'lo', n, res) if name != 'high' else (0, 0, 0)
        hi, _, H = cutoff(env, 'hi', n, res, L if name != 'high' else 0) if name != 'low' else (0, 0, 0)
        if name in ('pass', 'block'):
            env.assume(hi >= lo)
        kw = {'time_axis': axis} if kwaxis else {}
        sig = x
        if kind == 'xr':
            dims = ('a', 'b', 'c')[: len(shp)]
            sig = xr.DataArray(x, dims=dims, coords={d: [float(3 * i) for i in range(m)] for d, m in zip(dims, shp)}, name='sig')
        got = apply(name, sig, freq, lo, hi, flags, **kw)
        env.same('type', isinstance(got, xr.DataArray), kind == 'xr')
        env.same('shape', tuple(got.shape), tuple(shp))
        env.same('real-valued', np.iscomplexobj(got) or any(isinstance(v, (SymC, complex)) for v in env.flat(got)), False)
        if kind == 'xr':
            env.same('dims', got.dims, sig.dims)
            env.same('coords', {d: list(got[d].values) for d in sig.dims}, {d: list(sig[d].values) for d in sig.dims})
        kept = [keep(name, L, H, k, n) for k in range(n)]
        ax = axis % len(shp)
        want = np.empty(shp, dtype=object)
        for i in np.ndindex(*(shp[:ax] + shp[ax + 1 :])):
            idx = lambda t: i[:ax] + (t,) + i[ax:]
            for t, v in enumerate(expected([x[idx(t)] for t in range(n)], n, kept)):
                want[idx(t)] = v
        env.close('filtered', got, list(want.reshape(-1)), 0, 1e-6)

    return f


def h_partition(n, freq):
    def f(env):
        x = env.array('x', (n,), -1000, 1000)
        res = freq / n
        lo, L, _ = cutoff(env, 'lo', n, res)
        hi, _, H = cutoff(env, 'hi', n, res, L)
        env.assume(hi >= lo)
        a = gc.fourier_low_pass(x, freq, lo)
        b = gc.fourier_band_pass(x, freq, lo, hi)
        c = gc.fourier_high_pass(x, freq, hi)
        d = gc.fourier_band_block(x, freq, lo, hi)
        env.close('low+band+high', a + b + c, x, 0, 1e-6)
        env.close('pass+block', b + d, x, 0, 1e-6)

    return f


def h_freq(n):
    def f(env):
        x = env.array('x', (n,), -1000, 1000)
        fr = env.real('freq', 0.5, 2000)
        j = env.integer('j', 0, n // 2 - 1)
        e = env.real('e', 0.1, 0.9)
        c = (j + e) * fr / n
        env.close('low', gc.fourier_low_pass(x, fr, c), expected(list(x), n, [keep('low', j, 0, k, n) for k in range(n)]), 0, 1e-6)
        env.close('high', gc.fourier_high_pass(x, fr, c), expected(list(x), n, [keep('high', 0, j + 1, k, n) for k in range(n)]), 0, 1e-6)

    return f


def h_const(env):
    """a constant series passes a low pass unchanged and is removed by a high pass"""
    v = env.real('v', -1000, 1000)
    x = env.mkarray([v] * 8)
    env.close('low', gc.fourier_low_pass(x, 8, 2), [v] * 8, 0, 1e-6)
    env.close('high', gc.fourier_high_pass(x, 8, 2), [0.0] * 8, 0, 1e-6)


INTS = {'n6': ('x',), 'xr-axis0': ('x',)}  # cases repeated with integer input


def cases(tier):
    cs = [
        Case('n4', h(4, 2.0)),
        Case('n5', h(5, 5.0)),
        Case('n6', h(6, 3.0, flags=True)),
        Case('n8', h(8, 8.0), weight=3),
        Case('n9', h(9, 4.5, kwaxis=False), weight=3),
        Case('axis1', h(6, 6.0, (2, 6), 1), weight=2),
        Case('axis0', h(4, 4.0, (4, 3), 0, kwaxis=False)),
        Case('axis-1', h(6, 6.0, (2, 6), -1, flags=True), weight=2),
        Case('axis2', h(4, 4.0, (2, 1, 4), 2)),
        Case('axis1of3', h(4, 2.0, (2, 4, 3), 1)),
        Case('xr', h(6, 6.0, (6,), 0, 'xr', kwaxis=False)),
        Case('xr-axis0', h(6, 6.0, (6, 2), 0, 'xr', flags=True), weight=2),
        Case('xr-axis1', h(6, 6.0, (2, 6), 1, 'xr'), weight=2),
        Case('xr-axis-1', h(4, 2.0, (3, 2, 4), -1, 'xr', flags=True)),
        Case('partition-6', h_partition(6, 12.0)),
        Case('partition-8', h_partition(8, 8.0), weight=2),
        Case('frequency', h_freq(6)),
        Case('constant', h_const),
    ]
    cs += [Case(f'n12-{nm}', h(12, 6.0, names=(nm,)), weight=5) for nm in NAMES]
    cs += [Case(f'n30-{nm}', h(30, 15.0, names=(nm,), free=(7,)), weight=4) for nm in ('low', 'high')]
    cs += [Case('n21-xr', h(21, 10.5, (2, 21), 1, 'xr', names=('low',), free=(3, 40)), weight=4)]
    if tier == 'thorough':
        cs += [Case(f'n{n}-{nm}', h(n, n / 2, names=(nm,)), weight=9) for n in (16, 20) for nm in NAMES]
        cs += [Case('partition-12', h_partition(12, 12.0), weight=9), Case('frequency-9', h_freq(9)), Case('n24-low', h(24, 12.0, names=('low', 'high')), weight=9)]
    return cs
