"""Spherical harmonics."""
import contextlib
import math

import numpy as np
import xarray as xr

import geocat.comp as gc
import geocat.comp.spherical as sph
from symx.harness import Case
from symx.core import SymC

ID = 'C20'
PROP = dict(
    title='Spherical harmonic coefficients, their order and the way back are exact',
    statement=(
        'For every field, weights and point set, decomposition gives for n = 0..max_harm and m = 0..n, in this order, (2 if m > 0 else 1) * sum(field * weight * Y_nm) / (sum(weight) * Y_00^2), linear in the field and unchanged when all weights are scaled, '
        'and recomposition gives at every point the sum over the same order of Re c Re Y_nm + Im c Im Y_nm; so a field made of harmonics up to max_harm comes back from its own decomposition whenever the weights integrate products of them exactly. '
        'Y_nm are the orthonormal harmonics of colatitude phi and longitude theta. scale_voronoi gives each point the area of its own Voronoi cell on the unit sphere. Container type, dimensions and shape follow the input.'
    ),
    quantifier=dict(over=['inputs'], text='all real fields and weights up to 3 x 4 points, max_harm 0..3 (5), all angles (symbolic) up to max_harm 2, numpy and DataArray'),
    why_tests_cant='Tests compare one random spectrum at two decimals; a swapped angle, a wrong factor for one (n, m) or a mixed up order hides in that tolerance.',
    anchors=dict(
        files=['geocat/comp/spherical.py'],
        mechanism=[dict(name=n, where='geocat/comp/spherical.py') for n in ('decomposition', 'recomposition', 'scale_voronoi')],
    ),
)
FUNCS = ['geocat.comp.spherical.' + n for n in ('decomposition', 'recomposition', 'scale_voronoi')]
BOUNDS = 'field values real in [-100,100], weights real in [0.01,10], coefficients real and imaginary parts in [-10,10]; concrete angles of the cases, or symbolic theta in [0,2 pi], phi in [0.01,3.13]'
OUTSIDE = 'scipy.special.sph_harm_y (called as is for concrete angles; for symbolic angles modelled by its definition); the Voronoi tessellation of scipy (replaced by arbitrary areas, the points given to it are checked); max_harm above 5; missing values; rounding'


def Y(env, n, m, th, ph):
    """closed forms -> (re, im); th longitude, ph colatitude"""
    c, s = env.cos(ph), env.sin(ph)
    pi = math.pi
    if (n, m) in CLOSED:
        leg = CLOSED[n, m](c, s)
    else:
        leg = legendre(n, m, c, s)
    leg = leg * math.sqrt((2 * n + 1) / (4 * pi) * math.factorial(n - m) / math.factorial(n + m))
    if m == 0:
        return leg, 0.0
    return leg * env.cos(th * m), leg * env.sin(th * m)


CLOSED = {
    (0, 0): lambda c, s: 1.0 + 0 * c,
    (1, 0): lambda c, s: c,
    (1, 1): lambda c, s: -s,
    (2, 0): lambda c, s: (3 * c * c - 1) / 2,
    (2, 1): lambda c, s: -3 * c * s,
    (2, 2): lambda c, s: 3 * s * s,
    (3, 0): lambda c, s: (5 * c * c * c - 3 * c) / 2,
    (3, 1): lambda c, s: (5 * c * c - 1) * s * -1.5,
    (3, 2): lambda c, s: 15 * c * s * s,
    (3, 3): lambda c, s: -15 * s * s * s,
}


def legendre(n, m, c, s):
    """explicit sum of P_n^m with Condon-Shortley phase"""
    r = 0.0
    for k in range(m, n + 1):
        b = 1.0
        for q in range(k):
            b *= (n + k - 1) / 2 - q
        # binom(n,k) binom((n+k-1)/2, n)
        top = 1.0
        for q in range(n):
            top *= ((n + k - 1) / 2 - q) / (q + 1)
        r = r + math.comb(n, k) * top * math.factorial(k) / math.factorial(k - m) * c ** (k - m)
    return (-1) ** m * 2**n * s**m * r


def order(L):
    return [(n, m) for n in range(L + 1) for m in range(n + 1)]


def ri(z):
    if isinstance(z, SymC):
        return z.re, z.im
    if isinstance(z, (complex, np.complexfloating)):
        return z.real, z.imag
    return z, 0.0


def cclose(env, label, got, want, rtol=1e-9, atol=1e-9):
    g = [ri(e) for e in env.flat(got)]
    env.same(label + '-length', len(g), len(want))
    env.close(label, [e[0] for e in g] + [e[1] for e in g], [e[0] for e in want] + [e[1] for e in want], rtol, atol)


def points(nlat, nlon, symbolic=None, env=None):
    if symbolic:
        th = env.array('th', (nlat, nlon), 0, 6.2831)
        ph = env.array('ph', (nlat, nlon), 0.01, 3.13)
        return th, ph
    lon = [0.1 + 1.7 * j + 0.05 * j * j for j in range(nlon)]
    col = [0.3 + 2.5 * (i + 0.2) / nlat for i in range(nlat)]
    tilt = [0.02 * j * j for j in range(nlon)]
    if nlon > 4:  # keep colatitudes below pi and longitudes below 2 pi
        lon = [0.1 + 5.8 * j / nlon for j in range(nlon)]
        tilt = [0.5 * (j / nlon) ** 2 for j in range(nlon)]
    th = np.array([[lon[j] + 0.03 * i for j in range(nlon)] for i in range(nlat)])
    ph = np.array([[col[i] + tilt[j] for j in range(nlon)] for i in range(nlat)])
    return th, ph


def to_xr(a, dims=('lat', 'lon')):
    return xr.DataArray(a, dims=dims)


def h_dec(nlat, nlon, L, kind='np', symbolic=False, weights='sym', default=False):
    def f(env):
        x = env.array('x', (nlat, nlon), -100, 100)
        if weights == 'sym':
            w = env.array('w', (nlat, nlon), 0.01, 10)
        else:
            w = np.array([[0.5 + 0.3 * i + 0.1 * j * j for j in range(nlon)] for i in range(nlat)])
        th, ph = points(nlat, nlon, symbolic, env)
        a = [x, w, th, ph]
        if kind == 'xr':
            a = [to_xr(q, ('y', 'x')) for q in a]
        got = gc.decomposition(*a) if default else gc.decomposition(*a, max_harm=L)
        env.same('type', isinstance(got, xr.DataArray), kind == 'xr')
        if kind == 'xr':
            env.same('dims', len(got.dims), 1)
            got = got.data
        tot = 0.0
        for e in env.flat(w):
            tot = tot + e
        y00 = 1 / (4 * math.pi)
        want = []
        for n, m in order(L):
            re, im = 0.0, 0.0
            for i in range(nlat):
                for j in range(nlon):
                    a, b = Y(env, n, m, th[i, j], ph[i, j])
                    re = re + x[i, j] * w[i, j] * a
                    im = im + x[i, j] * w[i, j] * b
            k = (2 if m else 1) / y00
            want.append((re * k / tot, im * k / tot))
        cclose(env, 'coefficient', got, want, 1e-9, 1e-7)

    return f


def coeffs(env, L):
    c = []
    for k, (n, m) in enumerate(order(L)):
        re = env.real(f'c{k}', -10, 10)
        im = env.real(f'd{k}', -10, 10) if m else 0.0
        c.append((re, im))
    return c


def mkc(env, c):
    if env.symbolic:
        o = np.empty(len(c), dtype=object)
        for k, (a, b) in enumerate(c):
            o[k] = SymC(a, b)
        return env.mkarray(list(o))
    return np.array([complex(a, b) for a, b in c])


def field(env, c, L, t, p):
    s = 0.0
    for (re, im), (n, m) in zip(c, order(L)):
        a, b = Y(env, n, m, t, p)
        s = s + re * a + im * b
    return s


def h_rec(nlat, nlon, L, kind='np', symbolic=False, dim='harmonic', default=False):
    def f(env):
        c = coeffs(env, L)
        th, ph = points(nlat, nlon, symbolic, env)
        z = mkc(env, c)
        if kind == 'xr':
            got = gc.recomposition(xr.DataArray(z, dims=[dim]), to_xr(th), to_xr(ph), *([] if default else [L]))
            env.same('type', isinstance(got, xr.DataArray), True)
            env.same('dims', got.dims, ('lat', 'lon'))
        else:
            got = gc.recomposition(z, th, ph) if default else gc.recomposition(z, th, ph, max_harm=L)
            env.same('type', isinstance(got, xr.DataArray), False)
        env.same('shape', tuple(got.shape), (nlat, nlon))
        want = [field(env, c, L, th[i, j], ph[i, j]) for i in range(nlat) for j in range(nlon)]
        env.close('field', [ri(e)[0] for e in env.flat(got)], want, 1e-9, 1e-8)

    return f


def h_round(L, kind='np'):
    """Gauss-Legendre latitudes: every field up to degree L comes back"""

    def f(env):
        nlat, nlon = L + 1, 2 * L + 1
        mu, gw = np.polynomial.legendre.leggauss(nlat)
        ph, th = np.meshgrid(np.arccos(mu), 2 * np.pi * np.arange(nlon) / nlon, indexing='ij')
        k = env.real('k', 0.01, 100)
        w = env.mkarray([float(gw[i]) * k for i in range(nlat) for j in range(nlon)], (nlat, nlon))
        c = coeffs(env, L)
        x = [field(env, c, L, th[i, j], ph[i, j]) for i in range(nlat) for j in range(nlon)]
        x = env.mkarray(x, (nlat, nlon))
        a = [x, w, th, ph]
        if kind == 'xr':
            a = [to_xr(q) for q in a]
        z = gc.decomposition(*a, max_harm=L)
        cclose(env, 'spectrum', z.data if kind == 'xr' else z, c, 1e-9, 1e-7)
        back = gc.recomposition(z, a[2], a[3], max_harm=L)
        env.close('back', [ri(e)[0] for e in env.flat(back)], env.flat(x), 1e-9, 1e-6)

    return f


@contextlib.contextmanager
def voronoi(env, areas, seen):
    old = sph.SphericalVoronoi

    class V:
        def __init__(self, points, radius=1, center=None, threshold=1e-06):
            seen.append((points, radius, center))

        def calculate_areas(self):
            return areas

    sph.SphericalVoronoi = V
    try:
        yield
    finally:
        sph.SphericalVoronoi = old


def h_vor(nlat, nlon, kind):
    def f(env):
        th, ph = points(nlat, nlon, True, env)
        areas = env.array('a', (nlat * nlon,), 0, 12)
        seen = []
        if kind == 'fortran':
            th, ph = th.T.copy().T, ph.T.copy().T
        with voronoi(env, areas, seen):
            got = gc.scale_voronoi(*([to_xr(th), to_xr(ph)] if kind == 'xr' else [th, ph]))
        env.same('type', isinstance(got, xr.DataArray), kind == 'xr')
        if kind == 'xr':
            env.same('dims', got.dims, ('lat', 'lon'))
        env.same('shape', tuple(got.shape), (nlat, nlon))
        env.close('area', got, list(areas), 0, 0)
        env.same('one-call', len(seen), 1)
        pts, radius, center = seen[0]
        env.same('shape', tuple(pts.shape), (nlat * nlon, 3))
        env.same('sphere', (float(radius), [float(q) for q in center] if center is not None else [0.0] * 3), (1.0, [0.0] * 3))
        # same angles between points as on the sphere, whatever the axes:
        # every pair of points, and every point with the pole
        t, p = env.flat(th), env.flat(ph)
        v = [[(env.sin(q) * env.sin(r)), (env.sin(q) * env.cos(r)), env.cos(q)] for r, q in zip(t, p)]
        dot = lambda a, b: a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
        g = [list(pts[k]) for k in range(nlat * nlon)]
        k = range(nlat * nlon)
        env.close('points', [dot(g[a], g[b]) for a in k for b in k if a <= b], [dot(v[a], v[b]) for a in k for b in k if a <= b], 1e-9, 1e-9)

    return f


INTS = {'dec-1': ('x', 'w'), 'dec-xr': ('x',)}  # cases repeated with integer input


def cases(tier):
    cs = []
    for L in (0, 1, 2, 3):
        cs.append(Case(f'dec-{L}', h_dec(2, 2, L)))
        cs.append(Case(f'rec-{L}', h_rec(2, 3, L)))
        cs.append(Case(f'round-{L}', h_round(L)))
    cs += [
        Case('dec-3x4', h_dec(3, 4, 3, weights='fixed')),
        Case('dec-xr', h_dec(2, 3, 3, 'xr')),
        Case('dec-xr-3x2', h_dec(3, 2, 2, 'xr', weights='fixed')),
        Case('dec-1x3', h_dec(1, 3, 2)),
        Case('dec-9x16', h_dec(9, 16, 3, weights='fixed')),
        Case('dec-xr-7x11', h_dec(7, 11, 2, 'xr', weights='fixed')),
        Case('rec-9x16', h_rec(9, 16, 3)),
        Case('rec-xr-7x11', h_rec(7, 11, 2, 'xr')),
        Case('dec-angles', h_dec(1, 2, 2, symbolic=True, weights='fixed')),
        Case('dec-angles-xr', h_dec(2, 1, 1, 'xr', symbolic=True, weights='fixed')),
        Case('rec-xr', h_rec(3, 2, 3, 'xr')),
        Case('rec-xr-dim', h_rec(2, 3, 2, 'xr', dim='h')),
        Case('rec-angles', h_rec(1, 2, 2, symbolic=True)),
        Case('rec-angles-xr', h_rec(1, 2, 2, 'xr', symbolic=True)),
        Case('round-xr', h_round(2, 'xr')),
        Case('voronoi', h_vor(2, 2, 'np')),
        Case('voronoi-1x4', h_vor(1, 4, 'np')),
        Case('voronoi-fortran', h_vor(2, 3, 'fortran')),
        Case('voronoi-xr', h_vor(2, 3, 'xr')),
        Case('dec-default', h_dec(1, 2, 23, weights='fixed', default=True), weight=3),
        Case('rec-default', h_rec(1, 1, 23, default=True), weight=3),
    ]
    if tier == 'thorough':
        cs += [Case(f'dec-{L}', h_dec(2, 3, L)) for L in (4, 5)]
        cs += [Case(f'rec-{L}', h_rec(2, 3, L, 'xr')) for L in (4, 5)]
        cs += [Case(f'round-{L}', h_round(L), weight=5) for L in (4, 5)]
        cs += [Case('dec-angles-3', h_dec(2, 2, 3, symbolic=True, weights='fixed'), weight=3), Case('rec-angles-3', h_rec(2, 2, 3, symbolic=True), weight=3), Case('round-xr-4', h_round(4, 'xr'), weight=5), Case('dec-3x4-sym', h_dec(3, 4, 3), weight=5)]
    return cs
