"""CPython cross-check: the extracted terms, evaluated, against the real code run
by CPython on the same inputs.  A mismatch means that the engine misread the
code: every verdict that relies on that extraction becomes 'undecided'."""
import importlib
import sys
import numpy as np
from . import terms as tm
from . import evalnum, extract, loader

TOL = {'zenith': 2e-5, 'azimuth': 2e-5, 'declination': 1e-7, 'eot': 5e-6, 'ecf': 1e-8}


def sample(n=400, seed=1, lo=1900, hi=2100):
    rng = np.random.default_rng(seed)
    a, b = [np.datetime64('%d-01-01' % y, 's').astype('int64') for y in (lo, hi)]
    t = rng.integers(a, b, n)
    t[:n // 8] = t[:n // 8] // 86400 * 86400
    edges = np.array(['2000-02-29T12', '1999-12-31T23:59:59', '2000-01-01T12', '2020-02-29', '2019-03-01', '1970-01-01',
                      '1969-12-31T23:59:59', '2024-12-31T23', '1900-03-01', '2096-02-29T23:59:59'], 'M8[s]').astype('i8')
    t[n // 8:n // 8 + len(edges)] = edges
    lat = np.round(rng.uniform(-90, 90, n), 3)
    lon = np.round(rng.uniform(-180, 179.99, n), 3)
    lat[:4] = [90, -90, 0, 45]
    lon[:6] = [-180, 0, 179.99, 90, -90, 179]
    lat[4:8] = np.float32(lat[4:8])
    return t, lat, lon


def real_module(module, src=None):
    src = src or loader.SRC
    if src not in sys.path:
        sys.path.insert(0, src)
    return importlib.import_module('sunwhere.libspa.' + module)


def check(module, ndim, refraction, x=None, n=400, seed=1):
    """list of mismatches (empty: agrees)"""
    x = x or extract.extract(module, ndim, refraction)
    if x.error:
        return [x.error]
    mod = real_module(module)
    t, lat, lon = sample(n, seed)
    T = t.astype('M8[s]')
    if ndim == 0:
        with np.errstate(all='ignore'):
            r = mod.sunpos(T.copy(), lon.copy(), lat.copy(), 0, refraction)
        env = {extract.t_: t.astype(float), extract.lat_: lat, extract.lon_: lon}
    else:
        k = max(8, n // 20)
        T, t = T[:2 * k], t[:2 * k]
        la, lo = lat[:k], lon[:k]
        with np.errstate(all='ignore'):
            r = mod.sunpos(T.copy(), lo.copy(), la.copy(), ndim, refraction)
        if ndim == 1:
            env = {extract.t_: t[:, None].astype(float), extract.lat_: la[None], extract.lon_: lo[None]}
        else:
            env = {extract.t_: t[:, None, None].astype(float), extract.lat_: la[None, :, None],
                   extract.lon_: lo[None, None, :]}
    bad = []
    for v in extract.OUT:
        for term, pc in x.terms[v]:
            got = evalnum.evaluate(term, env, r32=True)
            want = np.asarray(r[v])
            if v in ('ecf', 'eot', 'declination'):
                got = np.reshape(np.broadcast_to(got, t.shape + (1,) * ndim), t.shape)
            got = np.broadcast_to(got, want.shape)
            d = np.abs(got - want)
            tol = TOL[v]
            if v == 'azimuth':
                d = np.abs((d + np.pi) % (2 * np.pi) - np.pi)
                zz = np.asarray(r['zenith'])
                d = d * np.sin(np.clip(zz, 0, np.pi))
            if v == 'zenith':     # acos is ill-conditioned at the zenith and the nadir
                d = np.where(np.minimum(got, np.pi - got) < 3e-3, d * 0.01, d)
            nan = np.isnan(got) != np.isnan(want)
            if nan.any() or np.nanmax(d) > tol:
                i = np.argmax(np.where(np.isnan(d), 0, d) + 1e9 * nan)
                bad.append('%s: extracted %r, CPython %r' % (v, float(got.flat[i]), float(want.flat[i])))
    return bad
