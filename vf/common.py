"""Inputs and comparisons shared by the bounded run-time contract checks."""
import os
import sys
import warnings
import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
if SRC not in sys.path:
    sys.path.insert(0, SRC)
sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
warnings.simplefilter('ignore')

CONFIGS = [('psa', 'numpy'), ('psa', 'numexpr'), ('soltrack', 'numpy'), ('soltrack', 'numexpr'),
           ('iqbal', 'numpy'), ('iqbal', 'numexpr'), ('nrel', 'numexpr')]
USECASES = ('sites', 'regular_grid', 'transect')
LOC = ('zenith', 'azimuth')
TIME = ('declination', 'eot', 'ecf')
DAY = 86400


def sw():
    import sunwhere
    return sunwhere


def epoch(s):
    return int(np.datetime64(s, 's').astype('i8'))


SPECIAL_T = np.array([epoch(s) for s in (
    '1900-01-01', '1900-02-28T23:59:59', '1900-03-01', '1904-02-29T12', '1950-06-21T12', '1969-12-31T23:59:59',
    '1970-01-01', '1970-01-01T00:00:01', '1999-12-31T23:59:59', '2000-01-01', '2000-01-01T12', '2000-02-29',
    '2000-02-29T23:59:59', '2000-03-01', '2000-12-31T23:59:59', '2001-01-01', '2015-06-30T23:59:59', '2019-02-28T18',
    '2019-03-01', '2020-02-29T06', '2020-03-01', '2020-03-20T03:50', '2020-06-20T21:44', '2020-09-22T13:31',
    '2020-12-21T10:02', '2020-12-31T12', '2023-01-01', '2024-02-29T23:59:59', '2024-12-30T06:30', '2024-12-31T23:59:59',
    '2025-01-01', '2026-01-03T17', '2026-07-04T05', '2036-02-07T06:28:16', '2038-01-19T03:14:07', '2038-01-19T03:14:08',
    '2040-02-29T11', '2048-12-31T23:59:59', '2049-12-31T23:59:59', '2050-01-01', '2096-02-29T12', '2099-12-31T23:59:59',
    '2100-01-01')])
SPECIAL_T2 = np.array([epoch('1969-07-20T20:17:40'), epoch('2100-02-28T23:59:59'), epoch('2100-03-01'),
                       epoch('2100-12-31T23:59:59')])
SPECIAL_LAT = np.array([-90., -89.9999, -89., -66.5622, -66.56, -45.0, -23.4393, -23.44, -1e-4, -0.0, 0., 1e-7, 0.5,
                        23.4393, 23.43, 36.949, 45., 60., 66.5622, 66.57, 80., 89., 89.99, 89.99999, 90.])
SPECIAL_LON = np.array([-180., -179.9999, -179., -135., -90., -15., -3.822, -1e-4, -0.0, 0., 1e-7, 15., 90., 100.,
                        135., 179., 179.9999, 179.999999])


def rand_t(rng, n, lo='1900-01-01', hi='2101-01-01'):
    return rng.integers(epoch(lo), epoch(hi), n)


def points(rng, n, lo='1900-01-01', hi='2101-01-01', special=True, wide=0.):
    """n scattered (t, lat, lon), specials included; a part of them (wide) in 1700-2260"""
    t = rand_t(rng, n, lo, hi)
    lat = np.degrees(np.arcsin(rng.uniform(-1, 1, n)))
    lon = rng.uniform(-180, 180, n)
    q = n // 8
    lat[:q] = rng.uniform(-90, 90, q)
    t[q:2 * q] = t[q:2 * q] // DAY * DAY + rng.integers(0, 24, q) * 3600
    if special:
        sp = SPECIAL_T[(SPECIAL_T >= epoch(lo)) & (SPECIAL_T < epoch(hi))]
        k = n // 6
        i = slice(2 * q, 2 * q + k)
        if len(sp):
            t[i] = rng.choice(sp, k) + rng.choice([0, 0, 1, 59, 3600, 40000], k)
            t[i] = np.minimum(t[i], epoch(hi) - 1)
        i = slice(n - k, n)
        lat[i] = rng.choice(SPECIAL_LAT, k)
        lon[i][::2] = rng.choice(SPECIAL_LON, len(lon[i][::2]))
        i = slice(n - 2 * k, n - k)
        lon[i] = rng.choice(SPECIAL_LON, k)
    lon = np.where(lon >= 180, -180., lon)
    if wide:
        k = rng.random(n) < wide
        t = np.where(k, rand_t(rng, n, '1700-01-01', '2260-01-01'), t)
    return t, lat, lon


def T(t):
    return np.asarray(t).astype('M8[s]')


def run(uc, t, lat, lon, algo='psa', eng='numexpr', ref=True):
    """t: epoch seconds or anything the use cases take"""
    if isinstance(t, np.ndarray) and t.dtype.kind == 'i':
        t = T(t)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return getattr(sw(), uc)(t, lat, lon, algorithm=algo, refraction=ref, engine=eng)


def vals(r):
    return {v: np.array(getattr(r, v).values, dtype=float) for v in LOC + TIME}


def vec(z, a):
    z, a = np.radians(z), np.radians(a)
    return np.stack([np.sin(z) * np.cos(a), np.sin(z) * np.sin(a), np.cos(z)])


def angdist(z1, a1, z2, a2):
    """angle between two directions, degrees; NaN wherever any is"""
    d = np.sqrt(((vec(z1, a1) - vec(z2, a2))**2).sum(0))
    return np.degrees(2 * np.arcsin(np.clip(d / 2, 0, 1)))


def circ(a, b, turn=360.):
    return np.abs((a - b + turn / 2) % turn - turn / 2)


def lit(x):
    """source text of an argument"""
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'M':
            return 'np.array(%r, dtype=%r)' % ([str(v) for v in x.ravel()], str(x.dtype)) + (
                '.reshape(%r)' % (x.shape,) if x.ndim != 1 else '')
        return 'np.array(%s, dtype=%r)' % (repr(x.tolist()).replace('nan', 'np.nan').replace('inf', 'np.inf'),
                                           str(x.dtype))
    if isinstance(x, (np.floating, float)):
        return 'np.nan' if x != x else repr(float(x))
    return repr(x) if not isinstance(x, (list, tuple)) else repr(x).replace('nan', 'np.nan')


def program(uc, t, lat, lon, algo, eng, ref, tail=''):
    if isinstance(t, (int, np.integer)):
        t = np.array([t])
    if isinstance(t, np.ndarray) and t.dtype.kind == 'i':
        t = T(t)
    return ('import numpy as np, pandas as pd, sunwhere\n'
            'r = sunwhere.%s(%s,\n    %s, %s,\n    algorithm=%r, engine=%r, refraction=%r)\n'
            "print('zenith', r.zenith.values, 'azimuth', r.azimuth.values)\n"
            "print('declination', r.declination.values, 'eot', r.eot.values, 'ecf', r.ecf.values)\n%s" % (
                uc, lit(t), lit(lat), lit(lon), algo, eng, ref, tail))


def worst(d):
    """index of the largest entry, NaN counting as infinitely bad"""
    d = np.where(np.isnan(d), np.inf, d)
    return int(np.argmax(d))


def bad(d, tol):
    return ~(d <= tol)


def orders(n):
    """every order, with ties, in which n values may come: ranks"""
    import itertools
    return [np.array(p) for p in itertools.product(range(n), repeat=n) if set(p) == set(range(max(p) + 1))]


def in_orders(rng, uc, n=4):
    """times, latitudes and longitudes, each in every order with ties of n values, and of fewer"""
    for k in range(2, n + 1):
        ps = orders(k)
        for a, b, c in zip(*[rng.permutation(len(ps)) for _ in range(3)]):
            t = epoch('2019-12-30') + int(rng.integers(0, 900)) * 86400 + np.sort(rng.choice(86400 * 3, k, replace=False))
            la = np.sort(rng.uniform(-89, 89, k).round(int(rng.integers(0, 4))))
            lo = np.sort(rng.uniform(-179, 179, k).round(int(rng.integers(0, 4))))
            yield t[ps[a]], la[ps[b]], lo[ps[c]]
