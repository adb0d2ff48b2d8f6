"""Bounded run-time contract checks, C01-C08: the solar position itself."""
import numpy as np
from .common import *
from . import spa_spec

EXACT = {'declination': 1e-7, 'eot': 1e-6, 'ecf': 1e-9}


def diffs(a, b, tol_dir, tols):
    """name -> array of excess (nan where not comparable) and tolerance"""
    out = {'direction': (angdist(a['zenith'], a['azimuth'], b['zenith'], b['azimuth']), tol_dir)}
    for k in TIME:
        d = circ(a[k], b[k], 1440.) if k == 'eot' and tols.get('eot_circ') else np.abs(a[k] - b[k])
        out[k] = (d, tols[k])
    return out


def point_ref(algo, eng, ref, t, lat, lon, chunk=97):
    """the same points through transect, in small chunks and in another order"""
    n = len(t)
    o = np.argsort((np.arange(n) * 7919) % max(n, 1), kind='stable')
    out = {k: np.empty(n) for k in LOC + TIME}
    for i in range(0, n, chunk):
        j = o[i:i + chunk]
        v = vals(run('transect', t[j], lat[j], lon[j], algo, eng, ref))
        for k in out:
            out[k][j] = v[k]
    return out


def expand(uc, v, K, J, I):
    """full per-element arrays (K, J, I) / (K, J) / (K,)"""
    shp = {'sites': (K, J), 'regular_grid': (K, J, I), 'transect': (K,)}[uc]
    r = {k: v[k] for k in LOC}
    for k in TIME:
        r[k] = np.broadcast_to(v[k].reshape((K,) + (1,) * (len(shp) - 1)), shp)
    return r


def flat_points(uc, t, lat, lon):
    if uc == 'transect':
        return t, lat, lon
    if uc == 'sites':
        shp = (len(t), len(lat))
        return [np.ascontiguousarray(np.broadcast_to(x, shp)).ravel() for x in (t[:, None], lat[None], lon[None])]
    shp = (len(t), len(lat), len(lon))
    return [np.ascontiguousarray(np.broadcast_to(x, shp)).ravel()
            for x in (t[:, None, None], lat[None, :, None], lon[None, None, :])]


def at_switch(algo, b, pts):
    """within 2e-4 degrees of the elevation at which refraction sets in (there the
    result is discontinuous, and rounding decides)"""
    i = np.nonzero(np.asarray(b).ravel())[0]
    r = np.zeros(np.asarray(b).size, bool)
    if len(i) <= 5000:
        t, lat, lon = [np.asarray(x).ravel()[i] for x in pts]
        z = vals(run('transect', t, lat, lon, algo, 'numexpr', False))['zenith']
        r[i] = np.abs(90. - z + 0.8333) < 2e-4
    return r.reshape(np.shape(b))


def compare(rep, name, uc, algo, eng, ref, args, got, want, tol_dir=1e-3, tols=EXACT, pts=None, what=''):
    """got/want: dicts of arrays of the same shape"""
    for k, (d, tol) in diffs(got, want, tol_dir, tols).items():
        b = bad(d, tol)
        if ref and k == 'direction' and b.any() and pts is not None:
            b = b & ~at_switch(algo, b, pts)
        if b.any():
            i = worst(np.where(b, d, -1))
            p = [x[i] for x in pts] if pts is not None else None
            w = '%s/%s refraction=%s %s %s: %s differs by %.3g (tolerance %g)%s; got zenith=%.9g azimuth=%.9g ' \
                'decl=%.9g eot=%.9g ecf=%.9g, expected zenith=%.9g azimuth=%.9g decl=%.9g eot=%.9g ecf=%.9g' % (
                    (algo, eng, ref, uc, what, k, float(d.ravel()[i]), tol,
                     ' at t=%s lat=%r lon=%r' % (np.datetime64(int(p[0]), 's'), float(p[1]), float(p[2])) if p else '')
                    + tuple(got[v].ravel()[i] for v in LOC + TIME) + tuple(want[v].ravel()[i] for v in LOC + TIME))
            prog = None
            if args is not None and np.size(args[0]) * 1 <= 2000:
                prog = program(uc, *args, algo, eng, ref, "# flat index %d: %s\n" % (i, w))
                if p:
                    prog += '# the same instant and place alone:\n' + program(
                        'transect', np.array([p[0]]), np.array([p[1]]), np.array([p[2]]), algo, eng, ref)
            rep.violation('%s.%s' % (name, k), w, prog)
            return False
    return True


def sized(rep, rng, algo, eng):
    """array sizes on which the paths of sunpos split"""
    try:
        from . import hints
        todo = hints.sizes([(algo, eng)])
    except Exception:
        return
    seen = set()
    for _, nd, ref, (K, J, I) in todo:
        if (nd, ref, K, J, I) in seen or len(seen) > 40:
            continue
        seen.add((nd, ref, K, J, I))
        uc = ('transect', 'sites', 'regular_grid')[nd]
        n = {'transect': (K, K), 'sites': (J, J), 'regular_grid': (J, I)}[uc]
        if K * (1 if nd == 0 else n[0]) * (n[1] if nd == 2 else 1) > 2000000:
            continue
        t, lat, lon = points(rng, max(K, 50), wide=.1), None, None
        t = t[0][:K] if K <= 50 else rng.permutation(t[0])[:K]
        lat, lon = np.resize(points(rng, 64)[1], n[0]), np.resize(points(rng, 64)[2], n[1])
        v = vals(run(uc, t, lat, lon, algo, eng, ref))
        got = expand(uc, v, K, n[0], n[1])
        m = got['zenith'].size
        idx = np.arange(m) if m <= 3000 else np.unique(np.r_[rng.integers(0, m, 1500), 0, m - 1])
        pts = [x[idx] for x in flat_points(uc, t, lat, lon)]
        got = {k: np.ascontiguousarray(x).ravel()[idx] for k, x in got.items()}
        rep.count('C01.path-sizes', len(idx))
        compare(rep, 'C01.path-sizes', uc, algo, eng, ref, (t, lat, lon) if K <= 200 else None, got,
                point_ref(algo, eng, ref, *pts), pts=pts, what='(K=%d J=%d I=%d)' % (K, n[0], n[1]))


def m_C01(rep, rng, scale=1):
    sizes = [(1, 1, 1), (2, 2, 2), (7, 7, 7), (5, 3, 8), (1, 6, 4), (6, 1, 1), (13, 13, 2), (3, 1, 5)]
    for algo, eng in CONFIGS:
        for ref in (False, True):
            for (K, J, I) in sizes + [(24, 12, 12)] * scale:
                t, lat, lon = points(rng, max(K, J, I, 16), wide=.1)
                o = rng.permutation(len(t))
                t, lat, lon = t[o][:K], lat[rng.permutation(len(t))][:max(J, K)], lon[o][:max(I, J, K)]
                if K > 3:
                    t[1] = t[0]                       # repetition
                for uc in USECASES:
                    n = {'sites': (J, J), 'regular_grid': (J, I), 'transect': (K, K)}[uc]
                    la, lo = np.resize(lat, n[0]), np.resize(lon, n[1])
                    v = vals(run(uc, t, la, lo, algo, eng, ref))
                    pts = flat_points(uc, t, la, lo)
                    got = {k: x.ravel() for k, x in expand(uc, v, K, len(la), len(lo)).items()}
                    want = point_ref(algo, eng, ref, *pts)
                    rep.count('C01.pointwise', len(pts[0]))
                    compare(rep, 'C01.pointwise', uc, algo, eng, ref, (t, la, lo), got, want, pts=pts,
                            what='(K=%d J=%d I=%d)' % (K, len(la), len(lo)))
        p = probe_pts(rep, rng, [(algo, eng)], 720)
        if p is not None:
            # and at the same places at other hours of the day and latitudes of the other hemisphere
            for ref in (False, True):
                want = point_ref(algo, eng, ref, *p)
                for uc in ('sites', 'regular_grid'):
                    rep.count('C01.branches', len(p[0]))
                    compare(rep, 'C01.branches', uc, algo, eng, ref, None, diag(uc, p, algo, eng, ref), want, pts=p,
                            what='(diagonal of a 24 x 24 call)')
        sized(rep, rng, algo, eng)
        ordered(rep, rng, algo, eng)
        regular_series(rep, rng, algo, eng)
        # sizes: internal chunking, buffering, vectorisation
        for uc, K, J, I in (('transect', 70001, 0, 0), ('transect', 1024, 0, 0), ('transect', 4096, 0, 0),
                            ('transect', 8192, 0, 0), ('transect', 65536, 0, 0), ('transect', 10000, 0, 0),
                            ('sites', 1000, 10, 10), ('sites', 8760, 3, 3), ('regular_grid', 100, 10, 100),
                            ('regular_grid', 8784, 1, 2), ('sites', 9001, 2, 2), ('sites', 2, 9001, 9001),
                            ('sites', 128, 128, 128), ('regular_grid', 3, 181, 90), ('regular_grid', 40, 40, 40)):
            if algo == 'nrel' and K > 10000:
                K = 20001
            ref = bool(rng.integers(2))
            t, lat, lon = points(rng, max(K, J, I, 50), wide=.1)
            o = rng.permutation(len(t))
            t, lat, lon = t[o][:K], lat[rng.permutation(len(t))], lon[o]
            if uc == 'transect':
                lat, lon = lat[:K], lon[:K]
            else:
                lat, lon = lat[:J], lon[:I]
            v = vals(run(uc, t, lat, lon, algo, eng, ref))
            got = expand(uc, v, K, len(lat), len(lon))
            m = got['zenith'].size
            idx = np.unique(np.concatenate([rng.integers(0, m, 1500), [0, m - 1], np.arange(0, m, max(1, m // 700)),
                                            [i for i in (1023, 1024, 4095, 4096, 8191, 8192, 32768, 65536) if i < m]]))
            pts = [x[idx] for x in flat_points(uc, t, lat, lon)]
            got = {k: np.ascontiguousarray(x).ravel()[idx] for k, x in got.items()}
            want = point_ref(algo, eng, ref, *pts)
            rep.count('C01.sizes', len(idx))
            compare(rep, 'C01.sizes', uc, algo, eng, ref, None, got, want, pts=pts, what='(K=%d J=%d I=%d)' % (K, J, I))
        # structured arrays: sorted, reversed, constant, same-ends, equal lat and lon objects
        t0 = epoch('2024-02-28') + np.arange(60) * 3600
        lat0, lon0 = np.linspace(-90, 90, 60), np.linspace(-180, 179.5, 60)
        for name, t, la, lo in (
                ('ascending', t0, lat0, lon0), ('descending', t0[::-1], lat0[::-1], lon0[::-1]),
                ('constant instant', np.full(60, t0[7]), lat0, lon0),
                ('constant place', t0, np.full(60, 36.9), np.full(60, -3.8)),
                ('same ends', np.r_[t0[0], rng.permutation(t0[1:-1]), t0[-1]], lat0, lon0),
                ('duplicates', np.repeat(t0[:20], 3), np.tile(lat0[::6], 6), np.repeat(lon0[:6], 10)),
                ('same array', t0, lat0, lat0), ('one day of minutes', t0[0] + np.arange(60) * 60, lat0[::-1], lon0),
                ('years', t0[0] - 86400 * 365 * np.arange(60), lat0, lon0[::-1]),
                ('negative strides', np.repeat(t0, 2)[::-2], np.repeat(lat0, 3)[::-3], np.repeat(lon0, 2)[::2])):
            for uc in USECASES:
                ref = bool(rng.integers(2))
                v = vals(run(uc, t, la, lo, algo, eng, ref))
                got = expand(uc, v, len(t), len(la), len(lo))
                m = got['zenith'].size
                idx = np.arange(m) if m <= 4000 else np.unique(rng.integers(0, m, 1500))
                pts = [x[idx] for x in flat_points(uc, np.ascontiguousarray(t), np.ascontiguousarray(la),
                                                   np.ascontiguousarray(lo))]
                got = {k: np.ascontiguousarray(x).ravel()[idx] for k, x in got.items()}
                want = point_ref(algo, eng, ref, *pts, chunk=501)
                rep.count('C01.structured', len(idx))
                compare(rep, 'C01.structured', uc, algo, eng, ref, None, got, want, pts=pts, what=name)


SERIES = ((86400, 800), (86400, 366), (3600, 9000), (3600, 1000), (600, 1500), (60, 1600), (1, 4000), (86400 * 7, 600),
          (3600 * 6, 1500), (-86400, 500), (-3600, 1200), (86400 * 30, 300), (900, 3000))


def ordered(rep, rng, algo, eng):
    """few instants and places, in every order and with every pattern of repetitions"""
    for uc in USECASES:
        ref = bool(rng.integers(2))
        all_ = []
        for t, la, lo in in_orders(rng, uc):
            K = len(t)
            got = expand(uc, vals(run(uc, t, la, lo, algo, eng, ref)), K, K, K)
            all_.append(((t, la, lo), {k: x.ravel() for k, x in got.items()}, flat_points(uc, t, la, lo)))
        pts = [np.concatenate([a[2][i] for a in all_]) for i in range(3)]
        want = point_ref(algo, eng, ref, *pts, chunk=499)
        i = 0
        for args, got, p in all_:
            n = len(p[0])
            rep.count('C01.orders', n)
            compare(rep, 'C01.orders', uc, algo, eng, ref, args, got, {k: x[i:i + n] for k, x in want.items()}, pts=p,
                    what='(order and repetitions)')
            i += n


def regular_series(rep, rng, algo, eng):
    """long regular series, through every use case"""
    for step, K in SERIES:
        t = epoch('2019-12-31') + int(rng.integers(0, 3)) * DAY + int(rng.integers(0, 2)) * 43200 + step * np.arange(K)
        ref = bool(rng.integers(2))
        for uc in USECASES:
            n, m = {'transect': (K, K), 'sites': (3, 3), 'regular_grid': (2, 3)}[uc]
            la, lo = np.resize(points(rng, 64)[1], n), np.resize(points(rng, 64)[2], m)
            if uc == 'transect' and rng.integers(2):
                la, lo = np.full(K, la[0]), np.full(K, lo[0])
            got = expand(uc, vals(run(uc, t, la, lo, algo, eng, ref)), K, n, m)
            size = got['zenith'].size
            idx = np.unique(np.r_[rng.integers(0, size, 300), np.arange(min(8, size)), size - 1 - np.arange(min(8, size))])
            pts = [x[idx] for x in flat_points(uc, t, la, lo)]
            got = {k: np.ascontiguousarray(x).ravel()[idx] for k, x in got.items()}
            rep.count('C01.series', len(idx))
            compare(rep, 'C01.series', uc, algo, eng, ref, (t, la, lo), got,
                    point_ref(algo, eng, ref, *pts, chunk=31), pts=pts, what='(%d instants every %d s)' % (K, step))


def extra_points(rep, rng, cfgs, n=4000):
    """points next to the branch boundaries of the extracted terms (see hints.py)"""
    try:
        from . import hints
        return hints.points(cfgs, rng, n)
    except Exception:
        return None


def diag(uc, pts, algo, eng, ref, chunk=24):
    """values at scattered points through any use case"""
    t, lat, lon = pts
    if uc == 'transect':
        return vals(run(uc, t, lat, lon, algo, eng, ref))
    out = {k: np.empty(len(t)) for k in LOC + TIME}
    for i in range(0, len(t), chunk):
        s = slice(i, i + chunk)
        v = vals(run(uc, t[s], lat[s], lon[s], algo, eng, ref))
        d = np.arange(len(t[s]))
        for k in TIME:
            out[k][s] = v[k]
        for k in LOC:
            out[k][s] = v[k][d, d] if uc == 'sites' else v[k][d, d, d]
    return out


def probe_pts(rep, rng, cfgs, n=480, lo=None, hi=None):
    """hints for the sites and regular_grid use cases, candidates of failed obligations first"""
    x = extra_points(rep, rng, cfgs, n)
    if x is None:
        return None
    if lo is not None:
        k = (x[0] >= epoch(lo)) & (x[0] < epoch(hi))
        x = [c[k] for c in x]
    return [c[:2 * n] for c in x] if len(x[0]) else None


def special_places(rng, n, algo='psa', eng='numexpr', lo='1900-01-01', hi='2101-01-01'):
    """sun at the zenith, the nadir, the horizon, the meridians, the poles, -0.8333 degrees..."""
    t = rand_t(rng, n, lo, hi)
    v = vals(run('transect', t, np.zeros(n), np.zeros(n), algo, eng, False))
    dec, eot = v['declination'], v['eot']
    ssl = -(((t % DAY) / 240. - 180.) + eot / 4.)            # sub-solar longitude
    T_, A, O = [], [], []

    def add(la, lo):
        lo = (lo + 180.) % 360. - 180.
        lo = np.where(lo >= 180., -180., lo)
        T_.append(t)
        A.append(np.clip(la, -90, 90))
        O.append(lo)
    for e in (0., 1e-7, -1e-6, 3e-5, 1e-3, -2e-2, 0.1, 1., 5.):
        add(dec + e, ssl)
        add(-dec + e, ssl + 180.)
        add(dec, ssl + e)
        add(dec + e, ssl - e)
        add(-dec, ssl + 180. + e)
    add(np.float32(dec), np.float32(ssl))
    # prescribed elevation at random latitudes
    for el in (0., -0.5, -0.8333, -0.83337, -0.8334, -0.84, -0.85, -1., 0.2, 1., 5., -5.1, -5.11, -4.5, -6., 15., 45.,
               75., 80., 89., -20., -60.):
        la = rng.uniform(-89, 89, n)
        s = ((np.sin(np.radians(el)) - np.sin(np.radians(la)) * np.sin(np.radians(dec)))
             / (np.cos(np.radians(la)) * np.cos(np.radians(dec))))
        h = np.degrees(np.arccos(np.clip(s, -1, 1))) * rng.choice([-1, 1], n)
        add(la, ssl + h + rng.choice([0, 1e-5, -1e-5, 1e-3, -1e-3], n))
    for la in (90., -90., 89.9999, -89.99999, 0., -0.):
        add(np.full(n, la), rng.uniform(-180, 180, n))
    for d in (0., 90., -90., 180.):
        add(rng.uniform(-90, 90, n), ssl + d)
    add(rng.uniform(-90, 90, n), np.full(n, -180.))
    add(rng.uniform(-90, 90, n), np.full(n, 179.999999))
    return np.concatenate(T_), np.concatenate(A), np.concatenate(O)


def near_sun(rng, algo, eng, lo, hi, n=12, m=40):
    """blocks of places within some 1e-8 rad of the sub-solar point and of its antipode"""
    t = rand_t(rng, n, lo, hi)
    v = vals(run('transect', t, np.zeros(n), np.zeros(n), algo, eng, False))
    for i in range(n):
        la, lo_ = v['declination'][i], 180. - (t[i] % DAY) / 240. - v['eot'][i] / 4.
        if i % 2:
            la, lo_ = -la, lo_ + 180.
        lo_ = (lo_ + 180.) % 360. - 180.
        for w in (.03, .006, 1e-3, 2e-4, 4e-5, 8e-6):
            g = np.clip(la + w * np.linspace(-1, 1, 9), -90, 90), np.clip(lo_ + w * np.linspace(-1, 1, 9), -180, 179.9999999)
            z = vals(run('regular_grid', t[i:i + 1], *g, algo, eng, False))['zenith'][0]
            z = np.nan_to_num(-z if i % 2 else z, nan=-1000.)
            j = np.nonzero(z == z.min())
            la, lo_ = g[0][j[0]].mean(), g[1][j[1]].mean()
        w = rng.choice([1e-7, 3e-7, 1e-6])
        yield (t[i:i + 1], np.clip(la + w * rng.uniform(-1, 1, m), -90, 90),
               np.clip(lo_ + w * rng.uniform(-1, 1, m), -180, 179.9999999))


def elevations(rng, algo, eng, lo, hi):
    """places from which the sun is seen at prescribed elevations"""
    el = np.r_[np.zeros(12), [1e-5, -1e-5, 1e-4, -1e-4], np.linspace(-1.2, 1.2, 49), np.linspace(-8, 90, 50),
               -.8333 + np.array([1e-3, -1e-3, 3e-3, -3e-3, 6e-3, -6e-3, -8e-3, 4e-4]), rng.uniform(-90, 90, 20)]
    t = rand_t(rng, len(el), lo, hi)
    v = vals(run('transect', t, np.zeros(len(el)), np.zeros(len(el)), algo, eng, False))
    d, e = np.radians(v['declination']), np.radians(el)
    la = np.radians(np.clip(v['declination'] + (90 - np.abs(el)) * rng.uniform(-.95, .95, len(el)), -80, 80))
    la = np.where(el < 0, np.radians(np.clip(np.degrees(-la), -80, 80)), la)
    side = rng.choice([-1, 1], len(el))
    for _ in range(3):                       # the parallax of the algorithm: aim again
        s = (np.sin(e) - np.sin(la) * np.sin(d)) / (np.cos(la) * np.cos(d))
        h = np.degrees(np.arccos(np.clip(s, -1, 1))) * side
        lg = (180. - (t % DAY) / 240. - v['eot'] / 4. + h + 180.) % 360. - 180.
        lg = np.where(lg >= 180, -180., lg)
        z = vals(run('transect', t, np.degrees(la), lg, algo, eng, False))['zenith']
        e = e + np.clip(np.radians(el - (90. - z)), -1e-3, 1e-3)
    return t, np.degrees(la), lg


def shapes(rng, cfgs, lo='1900-01-01', hi='2101-01-01', n=360):
    """(use case, points, values(algo, eng, ref), sizes): the sites and regular_grid use cases at the
    remarkable places, at those next to the branches of the terms, and the array sizes that paths split on"""
    a0, e0 = cfgs[0]
    x = special_places(rng, 6, a0, e0, lo, hi)
    o = rng.permutation(len(x[0]))[:n]
    x = [np.r_[c[o], d] for c, d in zip(x, elevations(rng, a0, e0, lo, hi))]
    for uc in ('sites', 'regular_grid'):
        yield uc, x, (lambda a, e, r, uc=uc, x=x: diag(uc, x, a, e, r)), 'special places'
    p = probe_pts(None, rng, cfgs, 480, lo, hi)
    for uc in ('sites', 'regular_grid') if p is not None else ():
        yield uc, p, (lambda a, e, r, uc=uc: diag(uc, p, a, e, r)), 'branches'
    for t, la, lg in near_sun(rng, a0, e0, lo, hi):
        for uc in ('sites', 'regular_grid'):
            def ev(a, e, r, uc=uc, t=t, la=la, lg=lg):
                v = expand(uc, vals(run(uc, t, la, lg, a, e, r)), 1, len(la), len(lg))
                return {k: np.ascontiguousarray(c).ravel() for k, c in v.items()}
            yield uc, flat_points(uc, t, la, lg), ev, 'below the sun'
    try:
        from . import hints
        todo = hints.sizes(cfgs)
    except Exception:
        todo = []
    seen = set()
    for _, nd, ref, (K, J, I) in todo:
        if (nd, ref, K, J, I) in seen or len(seen) > 40:
            continue
        seen.add((nd, ref, K, J, I))
        uc = ('transect', 'sites', 'regular_grid')[nd]
        n = {'transect': (K, K), 'sites': (J, J), 'regular_grid': (J, I)}[uc]
        if K * (1 if nd == 0 else n[0]) * (n[1] if nd == 2 else 1) > 2000000 or min(K, n[0], n[1]) < 1:
            continue
        t = special_places(rng, 4, a0, e0, lo, hi)
        q = points(rng, max(K, 64), lo, hi)
        o = rng.permutation(len(t[0]))
        t, la, lg = [np.r_[h, c[o], d][:max(k, 1)] for h, c, d, k in zip(
            elevations(rng, a0, e0, lo, hi), t, q, (K, n[0], n[1]))]
        la, lg = np.resize(la, n[0]), np.resize(lg, n[1])
        pts = flat_points(uc, t, la, lg)
        m = len(pts[0])
        i = np.arange(min(K, n[0], n[1]))          # instants and places that belong together
        i = i[:400] * {'transect': 1, 'sites': n[0] + 1, 'regular_grid': n[0] * n[1] + n[1] + 1}[uc]
        idx = np.arange(m) if m <= 4000 else np.unique(np.r_[rng.integers(0, m, 2500), np.arange(400), i, m - 1])

        def ev(a, e, r, uc=uc, t=t, la=la, lg=lg, idx=idx, s=(K, n[0], n[1])):
            v = expand(uc, vals(run(uc, t, la, lg, a, e, r)), *s)
            return {k: np.ascontiguousarray(c).ravel()[idx] for k, c in v.items()}
        yield uc, [c[idx] for c in pts], ev, 'path sizes K=%d J=%d I=%d' % (K, n[0], n[1])
    # large calls
    N = 100003 + int(rng.integers(50))
    for uc, (K, J, I) in (('sites', (N, 1, 1)), ('sites', (2, N // 2, N // 2)), ('regular_grid', (3, 181, 189)),
                          ('regular_grid', (10007, 3, 4))):
        if any(c[0] == 'nrel' for c in cfgs) and K > 1000:
            K = K // 4
        q = special_places(rng, 4, a0, e0, lo, hi)
        p = points(rng, max(K, J, I), lo, hi)
        o = rng.permutation(len(q[0]))
        t, la, lg = [np.r_[h, c[o], d][:k] for h, c, d, k in zip(elevations(rng, a0, e0, lo, hi), q, p, (K, J, I))]
        pts = flat_points(uc, t, la, lg)
        m = len(pts[0])
        idx = np.unique(np.r_[rng.integers(0, m, 3000), np.arange(300), m - 1])

        def ev(a, e, r, uc=uc, t=t, la=la, lg=lg, idx=idx, s=(K, J, I)):
            v = expand(uc, vals(run(uc, t, la, lg, a, e, r)), *s)
            return {k: np.ascontiguousarray(c).ravel()[idx] for k, c in v.items()}
        yield uc, [c[idx] for c in pts], ev, 'large call K=%d J=%d I=%d' % (K, J, I)


def m_C02(rep, rng, scale=1):
    tols = {'declination': 1e-4, 'eot': 1e-3, 'ecf': 1.03e-6}
    for algo in ('psa', 'soltrack', 'iqbal'):
        pts = [points(rng, 60000 * scale, wide=.1), special_places(rng, 150 * scale, algo)]
        x = extra_points(rep, rng, [(algo, 'numpy'), (algo, 'numexpr')])
        if x is not None:
            pts.append(x)
        t, lat, lon = [np.concatenate(c) for c in zip(*pts)]
        # float32 boundary values, tiny values
        for ref in (False, True):
            v = [vals(run('transect', t, lat, lon, algo, e, ref)) for e in ('numpy', 'numexpr')]
            rep.count('C02.engines', len(t), (algo, ref, str(T(t[0])), lat[0], lon[0]))
            compare(rep, 'C02.engines', 'transect', algo, 'numpy vs numexpr', ref, None, v[0], v[1], 2e-3, tols,
                    pts=(t, lat, lon))
            for uc, K, J, I in (('sites', 60, 40, 40), ('regular_grid', 20, 24, 24), ('regular_grid', 9, 5, 31),
                                ('sites', 1, 1, 1), ('regular_grid', 1, 1, 1), ('sites', 30, 1, 1)):
                o = rng.integers(0, len(t), 60)
                tt, la, lo = t[o][:K], lat[o][:J], lon[rng.permutation(o)][:I]
                w = [expand(uc, vals(run(uc, tt, la, lo, algo, e, ref)), K, J, I) for e in ('numpy', 'numexpr')]
                w = [{k: np.ascontiguousarray(x).ravel() for k, x in d.items()} for d in w]
                rep.count('C02.engines', w[0]['zenith'].size)
                compare(rep, 'C02.engines', uc, algo, 'numpy vs numexpr', ref, None, w[0], w[1], 2e-3, tols,
                        pts=flat_points(uc, tt, la, lo))
            for uc, p, ev, what in shapes(rng, [(algo, 'numpy'), (algo, 'numexpr')]):
                w = [ev(algo, e, ref) for e in ('numpy', 'numexpr')]
                rep.count('C02.engines', len(p[0]))
                compare(rep, 'C02.engines', uc, algo, 'numpy vs numexpr', ref, None, w[0], w[1], 2e-3, tols, pts=p,
                        what=what)


ACC = {'psa': (0.02, {'declination': 0.01, 'eot': 0.1, 'ecf': 3e-4}),
       'soltrack': (0.02, {'declination': 0.01, 'eot': 0.1, 'ecf': 3e-4}),
       'iqbal': (0.5, {'declination': 0.5, 'eot': 0.6, 'ecf': 1e-3})}


def m_C03(rep, rng, scale=1):
    lo, hi = '2020-01-01', '2051-01-01'
    pts = [points(rng, 100000 * scale, lo, hi), special_places(rng, 250 * scale, 'nrel', 'numexpr', lo, hi)]
    x = extra_points(rep, rng, [c for c in CONFIGS])
    if x is not None:
        k = (x[0] >= epoch(lo)) & (x[0] < epoch(hi))
        pts.append([c[k] for c in x])
    # every day of the period, at several hours
    d = np.arange(epoch(lo), epoch(hi), DAY)
    d = np.concatenate([d, d + 86399, d + rng.integers(0, DAY, len(d))])
    pts.append((d, np.degrees(np.arcsin(rng.uniform(-1, 1, len(d)))), rng.uniform(-180, 179.99, len(d))))
    t, lat, lon = [np.concatenate(c) for c in zip(*pts)]
    want = {False: vals(run('transect', t, lat, lon, 'nrel', 'numexpr', False))}
    for algo, eng in CONFIGS[:-1]:
        v = vals(run('transect', t, lat, lon, algo, eng, False))
        td, tols = ACC[algo]
        rep.count('C03.accuracy', len(t), (algo, eng, str(T(t[5])), lat[5], lon[5]))
        compare(rep, 'C03.accuracy', 'transect', algo, eng, False, None, v, want[False], td, tols, pts=(t, lat, lon))
        for uc, K, J, I in (('sites', 80, 40, 40), ('regular_grid', 20, 21, 21), ('regular_grid', 10, 7, 15)):
            o = rng.integers(0, len(t), 80)
            tt, la, lg = t[o][:K], lat[rng.permutation(o)][:J], lon[o][:I]
            a = expand(uc, vals(run(uc, tt, la, lg, algo, eng, False)), K, J, I)
            b = expand(uc, vals(run(uc, tt, la, lg, 'nrel', 'numexpr', False)), K, J, I)
            a, b = [{k: np.ascontiguousarray(x).ravel() for k, x in d.items()} for d in (a, b)]
            rep.count('C03.accuracy', a['zenith'].size)
            compare(rep, 'C03.accuracy', uc, algo, eng, False, None, a, b, td, tols, pts=flat_points(uc, tt, la, lg))
        for uc, p, ev, what in shapes(rng, [(algo, eng), ('nrel', 'numexpr')], lo, hi):
            a, b = ev(algo, eng, False), ev('nrel', 'numexpr', False)
            rep.count('C03.accuracy', len(p[0]))
            compare(rep, 'C03.accuracy', uc, algo, eng, False, None, a, b, td, tols, pts=p, what=what)


def m_C04(rep, rng, scale=1):
    tols = {'declination': 3e-4, 'eot': 2e-3, 'ecf': 1e-5}
    lo, hi = '1900-01-01', '2101-01-01'
    pts = [points(rng, 60000 * scale, lo, hi), special_places(rng, 100 * scale, 'nrel')]
    pts.append(points(rng, 4000 * scale, '1700-01-01', '2260-01-01', False))
    x = extra_points(rep, rng, [('nrel', 'numexpr')])
    if x is not None:
        pts.append(x)
    t, lat, lon = [np.concatenate(c) for c in zip(*pts)]
    for ref in (False, True):
        want = spa_spec.spa(t, lat, lon, ref)
        v = vals(run('transect', t, lat, lon, 'nrel', 'numexpr', ref))
        e = want['e0']
        ok = np.ones(len(t), bool)
        if ref:   # the correction switches on at -0.8333 degrees (the report: -0.83337)
            ok = (np.abs(e + 0.8333) > 5e-4)
        rep.count('C04.spa', int(ok.sum()), (ref, str(T(t[5])), lat[5], lon[5]))
        g, w = [{k: x[k][ok] for k in LOC + TIME} for x in (v, want)]
        compare(rep, 'C04.spa', 'transect', 'nrel', 'numexpr', ref, None, g, w, 3e-4, tols,
                pts=(t[ok], lat[ok], lon[ok]))
        for uc, K, J, I in (('sites', 80, 40, 40), ('regular_grid', 20, 21, 21), ('regular_grid', 10, 7, 15)):
            o = rng.integers(0, len(t), 80)
            tt, la, lg = t[o][:K], lat[rng.permutation(o)][:J], lon[o][:I]
            a = expand(uc, vals(run(uc, tt, la, lg, 'nrel', 'numexpr', ref)), K, J, I)
            p = flat_points(uc, tt, la, lg)
            b = spa_spec.spa(*p, ref)
            a = {k: np.ascontiguousarray(x).ravel() for k, x in a.items()}
            k = np.abs(b['e0'] + 0.8333) > 5e-4
            rep.count('C04.spa', int(k.sum()))
            compare(rep, 'C04.spa', uc, 'nrel', 'numexpr', ref, None, {q: a[q][k] for q in a},
                    {q: b[q][k] for q in a}, 3e-4, tols, pts=[c[k] for c in p])
        for uc, x, ev, what in shapes(rng, [('nrel', 'numexpr')], lo, hi):
            a, b = ev('nrel', 'numexpr', ref), spa_spec.spa(*x, ref)
            k = np.abs(b['e0'] + 0.8333) > 5e-4 if ref else np.ones(len(x[0]), bool)
            rep.count('C04.spa', int(k.sum()))
            compare(rep, 'C04.spa', uc, 'nrel', 'numexpr', ref, None, {q: a[q][k] for q in a},
                    {q: b[q][k] for q in a}, 3e-4, tols, pts=[c[k] for c in x], what=what)


def geometry(dec, eot, t, lat, lon):
    """direction of spherical astronomy (zenith, azimuth from south, west positive), degrees"""
    H = np.radians((t % DAY) / 240. - 180. + lon + eot / 4.)
    d, p = np.radians(dec), np.radians(lat)
    up = np.sin(p) * np.sin(d) + np.cos(p) * np.cos(d) * np.cos(H)
    south = np.sin(p) * np.cos(d) * np.cos(H) - np.cos(p) * np.sin(d)
    west = np.cos(d) * np.sin(H)
    return np.degrees(np.arctan2(np.hypot(south, west), up)), np.degrees(np.arctan2(west, south))


def m_C05(rep, rng, scale=1):
    for algo, eng in CONFIGS:
        n = 40000 if algo == 'nrel' else 60000
        pts = [points(rng, n * scale, '2020-01-01', '2051-01-01'), points(rng, 20000 * scale),
               special_places(rng, 100 * scale, algo, eng)]
        x = extra_points(rep, rng, [(algo, eng)])
        if x is not None:
            pts.append(x)
        t, lat, lon = [np.concatenate(c) for c in zip(*pts)]
        v = vals(run('transect', t, lat, lon, algo, eng, False))
        z, a = geometry(v['declination'], v['eot'], t, lat, lon)
        want = dict(v, zenith=z, azimuth=a)
        rep.count('C05.geometry', len(t), (algo, eng, str(T(t[5])), lat[5], lon[5]))
        compare(rep, 'C05.geometry', 'transect', algo, eng, False, None, v, want, 0.03, EXACT, pts=(t, lat, lon))
        for uc, K, J, I in (('sites', 80, 40, 40), ('regular_grid', 20, 21, 21), ('regular_grid', 10, 7, 15)):
            o = rng.integers(0, len(t), 80)
            tt, la, lg = t[o][:K], lat[rng.permutation(o)][:J], lon[o][:I]
            w = expand(uc, vals(run(uc, tt, la, lg, algo, eng, False)), K, J, I)
            w = {k: np.ascontiguousarray(x).ravel() for k, x in w.items()}
            p = flat_points(uc, tt, la, lg)
            z, a = geometry(w['declination'], w['eot'], *p)
            rep.count('C05.geometry', len(z))
            compare(rep, 'C05.geometry', uc, algo, eng, False, None, w, dict(w, zenith=z, azimuth=a), 0.03, EXACT,
                    pts=p)
        for uc, p, ev, what in shapes(rng, [(algo, eng)]):
            w = ev(algo, eng, False)
            z, a = geometry(w['declination'], w['eot'], *p)
            rep.count('C05.geometry', len(z))
            compare(rep, 'C05.geometry', uc, algo, eng, False, None, w, dict(w, zenith=z, azimuth=a), 0.03, EXACT,
                    pts=p, what=what)


RANGE = {'zenith': (0., 180.), 'azimuth': (-180., 180.), 'declination': (-23.6, 23.6), 'eot': (-18., 18.),
         'ecf': (.96, 1.04)}


def check_range(rep, name, uc, algo, eng, ref, v, pts):
    for k, (lo, hi) in RANGE.items():
        eps = 1e-9 if k in LOC else 0.
        b = ~((v[k] >= lo - eps) & (v[k] <= hi + eps))
        if b.any():
            i = int(np.argmax(b))
            p = [x[i] for x in pts]
            w = '%s/%s refraction=%s %s: %s=%r outside [%g, %g] at t=%s lat=%r lon=%r' % (
                algo, eng, ref, uc, k, float(v[k][i]), lo, hi, np.datetime64(int(p[0]), 's'), float(p[1]), float(p[2]))
            rep.violation(name + '.' + k, w, program('transect', np.array([p[0]]), np.array([p[1]]),
                                                     np.array([p[2]]), algo, eng, ref))


def m_C06(rep, rng, scale=1):
    for algo, eng in CONFIGS:
        pts = [points(rng, (20000 if algo == 'nrel' else 40000) * scale), special_places(rng, 400 * scale, algo, eng),
               (SPECIAL_T2, np.array([0., 45., -90., 90.]), np.array([0., -180., 179.9, 10.]))]
        x = extra_points(rep, rng, [(algo, eng)])
        if x is not None:
            pts.append(x)
        # every day of two centuries (time-dependent quantities)
        d = np.arange(epoch('1900-01-01'), epoch('2101-01-01'), DAY)
        d = d + rng.choice([0, 0, 43200, 86399, 1], len(d))
        pts.append((d, rng.uniform(-90, 90, len(d)), rng.uniform(-180, 179.9, len(d))))
        t, lat, lon = [np.concatenate(c) for c in zip(*pts)]
        for ref in (False, True):
            v = vals(run('transect', t, lat, lon, algo, eng, ref))
            rep.count('C06.range', len(t), (algo, eng, ref))
            check_range(rep, 'C06.range', 'transect', algo, eng, ref, v, (t, lat, lon))
            for uc, K, J, I in (('sites', 100, 100, 100), ('regular_grid', 30, len(SPECIAL_LAT), len(SPECIAL_LON)),
                                ('sites', 1, 1, 1), ('regular_grid', 1, 1, 1)):
                o = rng.integers(0, len(t), 100)
                tt, la, lg = t[o][:K], lat[o][:J], lon[o][:I]
                if uc == 'regular_grid' and K == 30:
                    la, lg = SPECIAL_LAT, SPECIAL_LON
                w = expand(uc, vals(run(uc, tt, la, lg, algo, eng, ref)), K, len(la), len(lg))
                w = {k: np.ascontiguousarray(x).ravel() for k, x in w.items()}
                rep.count('C06.range', w['zenith'].size)
                check_range(rep, 'C06.range', uc, algo, eng, ref, w, flat_points(uc, tt, la, lg))
            for uc, p, ev, what in shapes(rng, [(algo, eng)]):
                rep.count('C06.range', len(p[0]))
                check_range(rep, 'C06.range', uc, algo, eng, ref, ev(algo, eng, ref), p)


TRUTHY = [True, 1, np.True_, np.int64(1), 'yes', [0], 2.5, np.array([True])[0], -1, {'a': 1}]
FALSY = [False, 0, np.False_, None, '', [], 0.0, np.int64(0), {}]


def m_C07(rep, rng, scale=1):
    for algo, eng in CONFIGS:
        pts = [points(rng, (15000 if algo == 'nrel' else 30000) * scale, wide=.1), special_places(rng, 500 * scale, algo, eng)]
        pts += [elevations(rng, algo, eng, '1900-01-01', '2101-01-01') for _ in range(4 * scale)]
        x = extra_points(rep, rng, [(algo, eng)])
        if x is not None:
            pts.append(x)
        # elevations around the horizon, every 0.002 degrees, and up to the zenith
        n = 6000 * scale
        t0 = epoch('2024-03-20T06:00') + rng.integers(-400, 400) * DAY
        pts.append((np.full(n, t0), np.zeros(n), np.linspace(-180, 179.99, n)))
        pts.append((t0 + np.arange(n) * 7, np.full(n, 10.), np.full(n, 0.)))
        t, lat, lon = [np.concatenate(c) for c in zip(*pts)]

        def cmp(uc, a, b, p):
            for k in ('azimuth',) + TIME:
                d = np.abs(a[k] - b[k])
                if (bad(d, 1e-9)).any():
                    i = worst(d)
                    rep.violation('C07.only-zenith', '%s/%s %s: refraction changes %s from %r to %r at t=%s lat=%r lon=%r' % (
                        algo, eng, uc, k, float(a[k][i]), float(b[k][i]), np.datetime64(int(p[0][i]), 's'),
                        float(p[1][i]), float(p[2][i])),
                        program('transect', np.array([p[0][i]]), np.array([p[1][i]]), np.array([p[2][i]]), algo, eng,
                                True))
            el, lift = 90. - a['zenith'], a['zenith'] - b['zenith']
            rules = [('lowers', lift < -1e-4), ('raises too much', lift > 0.8),
                     ('high sun', (el > 75.) & (lift >= 0.02)), ('below -0.84', (el < -0.84) & (np.abs(lift) > 1e-9)),
                     ('at the horizon', (np.abs(el) < 2e-4) & ((lift < 0.4) | (lift > 0.7))),
                     ('undefined', np.isnan(lift))]
            for nm, b_ in rules:
                if b_.any():
                    i = int(np.argmax(b_))
                    rep.violation('C07.lift.' + nm.replace(' ', '-'),
                                  '%s/%s %s: refraction %s: true elevation %r lifted by %r degrees at t=%s lat=%r lon=%r'
                                  % (algo, eng, uc, nm, float(el[i]), float(lift[i]), np.datetime64(int(p[0][i]), 's'),
                                     float(p[1][i]), float(p[2][i])),
                                  program('transect', np.array([p[0][i]]), np.array([p[1][i]]), np.array([p[2][i]]),
                                          algo, eng, True))
        a, b = [vals(run('transect', t, lat, lon, algo, eng, r)) for r in (False, True)]
        rep.count('C07.lift', len(t), (algo, eng))
        cmp('transect', a, b, (t, lat, lon))
        for uc, K, J, I in (('sites', 150, 60, 60), ('regular_grid', 30, 21, 21), ('regular_grid', 10, 7, 15),
                            ('sites', 1, 1, 1)):
            o = rng.integers(0, len(t), 150)
            tt, la, lg = t[o][:K], lat[rng.permutation(o)][:J], lon[o][:I]
            w = [expand(uc, vals(run(uc, tt, la, lg, algo, eng, r)), K, J, I) for r in (False, True)]
            w = [{k: np.ascontiguousarray(x).ravel() for k, x in d.items()} for d in w]
            rep.count('C07.lift', w[0]['zenith'].size)
            cmp(uc, *w, flat_points(uc, tt, la, lg))
        for uc, p, ev, what in shapes(rng, [(algo, eng)]):
            rep.count('C07.lift', len(p[0]))
            cmp(uc, *[ev(algo, eng, r) for r in (False, True)], p)
        # the argument
        o = np.arange(0, 24) * 3600 + t0
        la, lg = np.array([10., -40., 60.]), np.array([0., 20., -90.])
        for uc in USECASES:
            tt = o[:3] if uc == 'transect' else o
            off, on = [vals(run(uc, tt, la, lg, algo, eng, r))['zenith'] for r in (False, True)]
            for val in TRUTHY + FALSY:
                r = run(uc, tt, la, lg, algo, eng, val)
                z = r.zenith.values
                want = on if bool(val) else off
                rep.count('C07.argument', 1)
                if not np.nanmax(np.abs(z - want)) < 1e-9 or bool(r.has_refraction) != bool(val):
                    rep.violation('C07.argument', '%s/%s %s: refraction=%r: zenith differs by %r degrees from that of '
                                  'refraction=%r, has_refraction=%r' % (
                                      algo, eng, uc, val, float(np.nanmax(np.abs(z - want))), bool(val),
                                      r.has_refraction),
                                  program(uc, tt, la, lg, algo, eng, val, 'print(r.has_refraction)\n'))


def derived(r, full=True):
    out = vals(r)
    if not full:
        return out
    for k in ('elevation', 'cosz'):
        out[k] = getattr(r, k).values
    out['eth'] = r.eth().values
    out['airmass'] = r.airmass().values
    out['incidence'] = r.incidence(30., 20.).values
    out['sunrise'] = r.sunrise('deg').values
    out['sunset'] = r.sunset('deg').values
    out['daylight'] = r.daylight_length().values
    out['tst'] = r.true_solar_time.values
    for u in ('tst', 'utc', 'local'):
        out['sunrise_' + u] = r.sunrise(u).transpose(*r.zenith.dims, missing_dims='ignore').values
        out['sunset_' + u] = r.sunset(u).transpose(*r.zenith.dims, missing_dims='ignore').values
    out['ds'] = [tuple(d for d in r.sunrise('deg').dims), tuple(r.true_solar_time.dims)]
    return out


def dims_of(r, k):
    if k in TIME:
        return ('time',)
    m = {'elevation': r.elevation, 'cosz': r.cosz, 'eth': r.eth(), 'airmass': r.airmass(),
         'incidence': r.incidence(30., 20.), 'sunrise': r.sunrise('deg'), 'sunset': r.sunset('deg'),
         'daylight': r.daylight_length(), 'tst': r.true_solar_time}
    if k in LOC:
        return r.zenith.dims
    if k in m:
        return m[k].dims
    return tuple(d for d in r.zenith.dims if d in r.sunrise(k.split('_')[1]).dims)


def isnull(x):
    return np.isnat(x) if x.dtype.kind in 'mM' else np.isnan(x)


def same(a, b):
    if a.dtype.kind in 'mM':
        d = np.abs((a - b).astype('m8[ns]').astype('i8')) <= 1000
        return d | (np.isnat(a) & np.isnat(b))
    return (np.abs(a - b) <= 1e-9) | (np.isnan(a) & np.isnan(b))


def patterns(n, most):
    """every subset of n positions, or `most` of them"""
    m = (np.arange(2**n)[:, None] >> np.arange(n)) % 2 == 1
    return m if len(m) <= most else m[np.linspace(0, len(m) - 1, most).astype(int)]


def every_pattern(rep, rng):
    """the primary quantities for every way in which up to six instants, and up to six places, are missing"""
    c = 0
    for uc in USECASES:
        for n in range(1, 7):
            for what in 'TLO' if uc != 'transect' else 'A':
                K, J, I = {'sites': (2, n, n), 'transect': (n, n, n), 'regular_grid': (2, n, max(1, n - 1))}[uc]
                if what == 'T':
                    K, J, I = {'sites': (n, 2, 2), 'regular_grid': (n, 2, 1)}[uc]
                    if uc == 'sites' and n == 4:
                        J = I = 1
                elif uc != 'transect':
                    K = 1 + n % 3
                t, la, lo = points(rng, max(K, J, I, 24))
                t, la, lo = t[:K], la[-J:], lo[:I]
                (algo, eng), ref = CONFIGS[c % 7], bool(c % 2)
                c += 1
                b = vals(run(uc, T(t), la, lo, algo, eng, ref))
                for m in patterns({'T': K, 'L': J, 'O': I, 'A': n}[what], 64):
                    z = [np.zeros(k, bool) for k in (K, J, I)]
                    if what == 'A':
                        who = rng.integers(0, 3, n)
                        for k in range(3):
                            z[k] = m & (who == k)
                    else:
                        z['TLO'.index(what)] = m
                        if uc == 'sites' and what != 'T' and rng.random() < .5:     # both of a pair
                            z[1 if what == 'O' else 2] = m & (rng.random(len(m)) < .5)
                    tt = T(t).astype('M8[ns]')
                    tt[z[0]] = 'NaT'
                    la2, lo2 = np.where(z[1], np.nan, la), np.where(z[2], np.nan, lo)
                    prog = program(uc, tt, la2, lo2, algo, eng, ref)
                    try:
                        a = vals(run(uc, tt, la2, lo2, algo, eng, ref))
                    except Exception as e:
                        rep.violation('C08.accepts', '%s/%s %s with missing values: %s: %s' % (algo, eng, uc, type(e).__name__, e), prog)
                        continue
                    rep.count('C08.patterns', 1)
                    mT, mA, mO = z
                    miss = {'sites': lambda: mT[:, None] | (mA | mO), 'transect': lambda: mT | mA | mO,
                            'regular_grid': lambda: mT[:, None, None] | mA[:, None] | mO}[uc]()
                    for k in a:
                        d = miss if k in LOC else mT
                        if a[k].shape != d.shape:
                            rep.violation('C08.shape', '%s/%s %s: %s has shape %s, expected %s' % (algo, eng, uc, k, a[k].shape, d.shape), prog)
                            continue
                        bad = ~same(a[k], np.where(d, np.nan, b[k]))
                        if bad.any():
                            i = tuple(int(x) for x in np.argwhere(bad)[0])
                            rep.violation('C08.patterns', '%s/%s %s: %s[%s] is %s, expected %s' % (
                                algo, eng, uc, k, i, a[k][i], np.nan if d[i] else b[k][i]), prog)


def m_C08(rep, rng, scale=1):
    import pandas as pd
    every_pattern(rep, rng)
    n_rand = 2 * scale
    N = 100003 + int(rng.integers(50))
    large = dict(zip([(CONFIGS[int(rng.integers(7))], uc) for uc in (USECASES[0], USECASES[0], USECASES[1], USECASES[2])],
                     [(N, 1, 1), (5, N // 2, N // 2), (1009, 9, 10), (N, N, N)]))
    for (algo, eng), uc, big in [(c, uc, False) for c in CONFIGS for uc in USECASES] + [(c, uc, True) for c, uc in large]:
        if True:
            K = 9
            J, I = (9, 9) if uc in ('transect', 'sites') else (5, 4)
            if uc == 'sites':
                J = I = 6
            if big:
                K, J, I = large[(algo, eng), uc]
            n = max(40, K, J, I)
            t, la, lo = points(rng, n)
            o = rng.permutation(n)
            t, la, lo = t[o][:K], la[rng.permutation(n)][:J], lo[o][:I]
            masks = []
            for i in (0, K // 2, K - 1):
                m = np.zeros(K, bool)
                m[i] = True
                masks.append(m)
            masks += [np.arange(K) % 2 == 0, np.arange(K) < 5, np.arange(K) != 3, np.ones(K, bool), np.zeros(K, bool)]
            masks += [rng.random(K) < .4 for _ in range(n_rand)]
            if big:
                masks = masks[3:6]
            for q, m in enumerate(masks):
                tt = T(t).astype('M8[ns]')
                tt[m] = 'NaT'
                lm, om = np.zeros(J, bool), np.zeros(I, bool)
                if q % 3 == 1:
                    lm = rng.random(J) < .4
                    om = rng.random(I) < .3
                if q == 2:
                    lm[0] = True
                if q == 5:
                    om[-1] = True
                if q == 7:
                    lm[:] = True
                la2, lo2 = np.where(lm, np.nan, la), np.where(om, np.nan, lo)
                form = q % 4
                arg = [tt, pd.DatetimeIndex(tt), pd.DatetimeIndex(tt).tz_localize('UTC').tz_convert('Asia/Tokyo'),
                       tt.astype('M8[s]')][form]
                ref = bool(q % 2)
                full = (algo, eng) == ('psa', 'numexpr') or q in (1, 5)
                prog = program(uc, tt, la2, lo2, algo, eng, ref)
                try:
                    a = run(uc, arg, la2, lo2, algo, eng, ref)
                    da = derived(a, full)
                except Exception as e:
                    rep.violation('C08.accepts', '%s/%s %s with missing values: %s: %s' % (
                        algo, eng, uc, type(e).__name__, e), prog)
                    continue
                b = run(uc, T(t), la, lo, algo, eng, ref)
                if form == 2:
                    b = run(uc, pd.DatetimeIndex(T(t)).tz_localize('UTC').tz_convert('Asia/Tokyo'), la, lo, algo, eng,
                            ref)
                db = derived(b, full)
                rep.count('C08.missing', 1, (algo, eng, uc, form))
                for k in da:
                    if k == 'ds':
                        continue
                    dims = dims_of(a, k)
                    miss = np.zeros(da[k].shape, bool)
                    shp = lambda mm, d: mm.reshape([-1 if x == d else 1 for x in dims])
                    if 'time' in dims:
                        miss = miss | shp(m, 'time')
                    if k not in TIME and uc == 'transect':
                        ml, mo = lm, om
                        if k in ('sunrise', 'sunset', 'daylight'):
                            mo = np.zeros(I, bool)
                        elif k == 'tst':
                            ml = np.zeros(J, bool)
                        miss = miss | ml | mo
                    elif k not in TIME and uc == 'sites':
                        ml, mo = lm, om
                        if k in ('sunrise', 'sunset', 'daylight'):
                            mo = np.zeros(I, bool)
                        elif k == 'tst':
                            ml = np.zeros(J, bool)
                        miss = miss | shp(ml | mo, 'location')
                    elif k not in TIME:
                        if 'latitude' in dims:
                            miss = miss | shp(lm, 'latitude')
                        if 'longitude' in dims:
                            miss = miss | shp(om, 'longitude')
                    if da[k].shape != db[k].shape:
                        rep.violation('C08.shape', '%s/%s %s: %s has shape %s, expected %s' % (
                            algo, eng, uc, k, da[k].shape, db[k].shape), prog)
                        continue
                    null = isnull(da[k])
                    if (miss & ~null).any():
                        i = tuple(np.argwhere(miss & ~null)[0])
                        rep.violation('C08.nan-there', '%s/%s %s: %s[%s] is %s although it depends on a missing value'
                                      % (algo, eng, uc, k, i, da[k][i]), prog)
                    d = ~miss & ~same(da[k], db[k])
                    if d.any():
                        i = tuple(np.argwhere(d)[0])
                        rep.violation('C08.others', '%s/%s %s: %s[%s] is %s with missing values elsewhere and %s without'
                                      % (algo, eng, uc, k, i, da[k][i], db[k][i]), prog)
            # no instants at all
            for empty in (np.array([], 'M8[ns]'), np.array([], 'M8[s]'), pd.DatetimeIndex([])):
                la2, lo2 = (la[:0], lo[:0]) if uc == 'transect' else (la, lo)
                prog = program(uc, np.array([], 'M8[ns]'), la2, lo2, algo, eng, True)
                try:
                    v = vals(run(uc, empty, la2, lo2, algo, eng, True))
                except Exception as e:
                    rep.violation('C08.empty', '%s/%s %s without instants: %s: %s' % (
                        algo, eng, uc, type(e).__name__, e), prog)
                    continue
                want = {'transect': (0,), 'sites': (0, J), 'regular_grid': (0, J, I)}[uc]
                rep.count('C08.empty', 1)
                if v['zenith'].shape != want or v['azimuth'].shape != want or v['eot'].shape != (0,):
                    rep.violation('C08.empty', '%s/%s %s without instants: zenith has shape %s, expected %s' % (
                        algo, eng, uc, v['zenith'].shape, want), prog)
