"""Bounded run-time contract checks, C09-C20: inputs, labels, derived quantities, CLI."""
import datetime as dt
import itertools
import os
import subprocess
import sys
import tempfile
import numpy as np
from .common import *
from . import spa_spec
from .mon_core import flat_points, expand, same, isnull


def raises(f):
    try:
        with np.errstate(all='ignore'):
            f()
    except Exception as e:
        return e
    return None


def base_args(uc, K=4):
    t = T(epoch('2024-05-01') + 3600 * np.arange(K))
    if uc == 'regular_grid':
        return t, np.linspace(-60, 60, 3), np.linspace(-100, 100, 5)
    n = K if uc == 'transect' else 6
    return t, np.linspace(-60, 60, n), np.linspace(-100, 100, n)


def m_C09(rep, rng, scale=1):
    import pandas as pd
    up, dn = np.nextafter(90., 91), np.nextafter(-90., -91)
    bad_lat = [up, dn, 90.0001, -90.0001, 91., -91., 180., 1e9, -1e9, np.inf, -np.inf, 100.5]
    ok_lat = [90., -90., 0., -0., np.nan, np.nextafter(90., 0), 89.99999999, -89.99999999, 5e-324]
    bad_lon = [180., np.nextafter(180., 181), np.nextafter(-180., -181), 180.0001, -180.0001, 181., 360., 359., 270.,
               -181., 1e9, np.inf, -np.inf]
    ok_lon = [-180., np.nextafter(180., 0), 179.9999999, 0., np.nan, -179.99999999]

    def expect(uc, args, kw, ok, what, prog=None):
        rep.count('C09.accept' if ok else 'C09.reject', 1)
        e = raises(lambda: getattr(sw(), uc)(*args, **kw))
        if (e is None) != ok:
            p = prog or ('import numpy as np, pandas as pd, sunwhere\nsunwhere.%s(%s, **%r)\n' % (
                uc, ', '.join(lit(a) for a in args), kw))
            rep.violation('C09.' + ('accepts' if ok else 'rejects'), '%s: %s: %s' % (
                uc, what, 'valid input rejected: %s: %s' % (type(e).__name__, e) if e is not None
                else 'invalid input accepted'), p)
    kws = [dict(algorithm=a, engine=e) for a, e in CONFIGS]
    for uc in USECASES:
        t, la, lo = base_args(uc)
        for kw in kws:
            expect(uc, (t, la, lo), kw, True, 'valid input')
            expect(uc, (t, la, lo), dict(kw, refraction=False), True, 'valid input')
        n = len(la)
        for i in {0, n // 2, n - 1}:
            for x in bad_lat + ok_lat:
                for nan in (False, True):
                    y = la.copy()
                    if nan:
                        y[:] = np.nan
                        y[(i + 1) % n] = 10.
                    y[i] = x
                    kw = kws[int(rng.integers(7))]
                    expect(uc, (t, y, lo), kw, any(x is o for o in ok_lat), 'latitude %r' % x)
                    expect(uc, (t, list(y), list(lo)), kw, any(x is o for o in ok_lat), 'latitude %r' % x)
        n = len(lo)
        for i in {0, n // 2, n - 1}:
            for x in bad_lon + ok_lon:
                for nan in (False, True):
                    y = lo.copy()
                    if nan:
                        y[:] = np.nan
                        y[(i + 1) % n] = 10.
                    y[i] = x
                    kw = kws[int(rng.integers(7))]
                    expect(uc, (t, la, y), kw, any(x is o for o in ok_lon), 'longitude %r' % x)
                    expect(uc, (t, list(la), list(y)), kw, any(x is o for o in ok_lon), 'longitude %r' % x)
        # nothing but missing values
        for kw in kws:
            na, no = np.full(len(la), np.nan), np.full(len(lo), np.nan)
            for y, z in ((na, lo), (la, no), (na, no)):
                expect(uc, (t, y, z), kw, True, 'all missing')
                expect(uc, (np.array(['NaT'] * len(t), 'M8[ns]'), y, z), kw, True, 'all missing')
        for y, z in ((np.nan, 10.), (10., np.nan), (np.nan, np.nan)):
            expect(uc, (t[:1], y, z), {}, True, 'missing scalar')
        # out of range together with missing instants, all missing, none
        for tt in (np.array(['NaT'] * len(t), 'M8[ns]'),):
            y = la.copy()
            y[0] = 95.
            expect(uc, (tt, y, lo), {}, False, 'latitude 95 with missing instants')
            y = lo.copy()
            y[-1] = 180.
            expect(uc, (tt, la, y), {}, False, 'longitude 180 with missing instants')
        # algorithms and engines
        for a in ('', 'PSA', 'Nrel', 'spa', 'psa ', 'solartrack', None, 0, 'nre', 'michalsky', 'none'):
            expect(uc, (t, la, lo), dict(algorithm=a), False, 'algorithm %r' % (a,))
        for a in ('psa', 'soltrack', 'iqbal', 'nrel'):
            for e in ('', 'numba', 'Numpy', None, 'numexp', 'python', 0) + (('numpy',) if a == 'nrel' else ()):
                expect(uc, (t, la, lo), dict(algorithm=a, engine=e), False, 'algorithm %r engine %r' % (a, e))
        # shapes
        def reshaped(x, k):
            return x[None, :] if k == 0 else x[:, None] if k == 1 else x[None, None]
        for k in range(3):
            for kw in (kws[int(rng.integers(7))], {}):
                expect(uc, (t, reshaped(la, k), lo), kw, False, '%d-dim latitude' % reshaped(la, k).ndim)
                expect(uc, (t, la, reshaped(lo, k)), kw, False, '%d-dim longitude' % reshaped(lo, k).ndim)
                expect(uc, (t, reshaped(la, k), reshaped(lo, k)), kw, False, '2-dim latitude and longitude')
                expect(uc, (reshaped(t, k), la, lo), kw, False, '%d-dim times' % reshaped(t, k).ndim)
            ll, oo = reshaped(la, k).tolist(), reshaped(lo, k).tolist()
            for y, z in ((ll, lo), (la, oo), (ll, oo), (tuple(map(tuple, ll)), lo), (ll, list(lo)), (list(la), oo)):
                expect(uc, (t, y, z), {}, False, 'nested lists')
        # other types of locations
        for f in (lambda x: x.astype('f4'), lambda x: x.astype('f4').tolist(), lambda x: np.round(x).astype(int),
                  lambda x: np.round(x).astype(int).tolist(), lambda x: tuple(x.tolist()), lambda x: np.round(x).astype('i2'),
                  lambda x: pd.Series(x, index=range(7, 7 + len(x))), lambda x: np.round(x).astype(object).tolist()):
            for bad in (0, 90.0001, 91, -91, 1000):
                y = la.copy()
                y[-1] = bad or y[-1]
                y = f(y)
                ok = bool((np.abs(np.asarray(y, float)) <= 90).all())
                rep_ = 'import numpy as np, pandas as pd, sunwhere\ny = np.array(%r, %r)\ny = %s\nsunwhere.%s(%s, y, %s)\n' % (
                    np.asarray(y).tolist(), str(np.asarray(y).dtype), 'pd.Series(y)' if isinstance(y, pd.Series) else
                    'y' if isinstance(y, np.ndarray) else 'y.tolist()', uc, lit(t), lit(lo))
                expect(uc, (t, y, lo), {}, ok, 'latitude %r in %s' % (bad, type(y).__name__), rep_)
            for bad in (0, 180, 181, -181, 32000):
                y = lo.copy()
                y[0] = bad or y[0]
                y = f(y)
                z = np.asarray(y, float)
                rep_ = 'import numpy as np, pandas as pd, sunwhere\ny = np.array(%r, %r)\ny = %s\nsunwhere.%s(%s, %s, y)\n' % (
                    np.asarray(y).tolist(), str(np.asarray(y).dtype), 'pd.Series(y)' if isinstance(y, pd.Series) else
                    'y' if isinstance(y, np.ndarray) else 'y.tolist()', uc, lit(t), lit(la))
                expect(uc, (t, la, y), {}, bool(((z >= -180) & (z < 180)).all()), 'longitude %r in %s' % (
                    bad, type(y).__name__), rep_)
        for K, J, I in itertools.product((1, 2, 3, 5), repeat=3):
            ok = {'sites': J == I, 'transect': K == J == I, 'regular_grid': True}[uc]
            kw = kws[int(rng.integers(7))]
            tt = T(epoch('2024-05-01') + 3600 * np.arange(K))
            expect(uc, (tt, np.linspace(-60, 60, J), np.linspace(-100, 100, I)), kw, ok,
                   'sizes (%d, %d, %d)' % (K, J, I))
        # scalars
        s = np.datetime64('2024-05-01T10')
        for x in (s, pd.Timestamp(s), dt.datetime(2024, 5, 1, 10), '2024-05-01T10', pd.Timestamp(s, tz='UTC')):
            expect(uc, (x, 10., 20.), {}, True, 'scalars', 'import numpy as np, pandas as pd, sunwhere, datetime\n'
                   'sunwhere.%s(%r, 10., 20.)\n' % (uc, x))
        for y in (10, np.float32(10), np.int64(10), [10], (10.,), np.array([10]), np.array(10.)):
            expect(uc, (np.array([s]), y, 20), {}, True, 'latitude %r' % (y,))
            expect(uc, (np.array([s]), 20, y), {}, True, 'longitude %r' % (y,))
        expect(uc, (s, 90.5, 20.), {}, False, 'scalar latitude 90.5')
        expect(uc, (s, 10., 180.), {}, False, 'scalar longitude 180')
        expect(uc, (s, 10, 180), {}, False, 'integer longitude 180')
        expect(uc, (s, -91, 20), {}, False, 'integer latitude -91')
        # large arrays with one bad value
        big = np.linspace(-180, 179, 20000)
        for i in (0, 12345, 19999):
            y = big.copy()
            y[i] = 180.
            if uc == 'sites':
                expect(uc, (t[:1], np.zeros(20000), y), {}, False, 'one of 20000 longitudes 180',
                       'see obligation text')
                expect(uc, (t[:1], np.where(np.arange(20000) == i, -90.5, 0), big), {}, False,
                       'one of 20000 latitudes -90.5', 'see obligation text')


ZONES = ['UTC', 'Europe/Madrid', 'America/New_York', 'Asia/Kolkata', 'Australia/Lord_Howe', 'Pacific/Apia',
         'America/St_Johns', 'Asia/Tehran', 'Africa/Casablanca', 'Etc/GMT+7', 'Pacific/Chatham']


def time_cases(rng, n_rand=2):
    """(name, argument, true UTC instants ns, local wall times ns, tz name or None)"""
    import pandas as pd
    import pytz
    import zoneinfo
    out = []
    base = np.concatenate([epoch('2024-03-30T22') + 1800 * np.arange(12), epoch('2024-10-26T22') + 1800 * np.arange(14),
                           epoch('2023-11-05T03') + 1800 * np.arange(12), [epoch('2020-02-29T23:59:59'), 0, 1, -1,
                           epoch('2024-12-31T23:59:59'), epoch('2011-12-30T10:00:01'), epoch('2000-06-01T12:34:56')]])

    def add(name, arg, utc_ns, tz=None, key=None):
        """utc_ns: M8[ns] naive"""
        utc = pd.DatetimeIndex(utc_ns).tz_localize('UTC')
        loc = utc if tz is None else utc.tz_convert(tz)
        out.append((name, arg, np.asarray(utc_ns, 'M8[ns]'), np.asarray(loc.tz_localize(None), 'M8[ns]'),
                    'UTC' if tz is None else key))
    for z in ZONES:
        for lib, tz in (('pytz', pytz.timezone(z)), ('zoneinfo', zoneinfo.ZoneInfo(z))):
            b = np.concatenate([base, rand_t(rng, 6)])
            rng.shuffle(b)
            ns = T(b).astype('M8[ns]')
            idx = pd.DatetimeIndex(ns).tz_localize('UTC').tz_convert(tz)
            add('%s %s index' % (lib, z), idx, ns, tz, z)
            add('%s %s reversed' % (lib, z), idx[::-1], ns[::-1], tz, z)
            k = 7
            add('%s %s timestamps' % (lib, z), list(idx[:k]), ns[:k], tz, z)
            add('%s %s datetimes' % (lib, z), [x.to_pydatetime() for x in idx[:k]], ns[:k], tz, z)
            add('%s %s one datetime' % (lib, z), idx[0].to_pydatetime(), ns[:1], tz, z)
            add('%s %s one timestamp' % (lib, z), idx[1], ns[1:2], tz, z)
            add('%s %s scalar datetimes' % (lib, z), idx[2:3], ns[2:3], tz, z)
    for off in (0, 60, -210, 345, 840, -720):
        tz = dt.timezone(dt.timedelta(minutes=off))
        ns = T(rand_t(rng, 8)).astype('M8[ns]')
        idx = pd.DatetimeIndex(ns).tz_localize('UTC').tz_convert(tz)
        add('offset %+d index' % off, idx, ns, tz, str(tz))
        add('offset %+d datetimes' % off, [x.to_pydatetime() for x in idx], ns, tz, str(tz))
        add('pytz offset %+d' % off, pd.DatetimeIndex(ns).tz_localize('UTC').tz_convert(pytz.FixedOffset(off)), ns,
            pytz.FixedOffset(off), None if off == 0 else str(pytz.FixedOffset(off)))
    # naive forms
    b = np.concatenate([base, rand_t(rng, 10)])
    rng.shuffle(b)
    ns = T(b).astype('M8[ns]')
    add('naive M8[ns]', ns, ns)
    add('naive M8[s]', T(b), ns)
    add('naive M8[ms]', ns.astype('M8[ms]'), ns)
    add('naive M8[us]', ns.astype('M8[us]'), ns)
    add('naive M8[m]', ns.astype('M8[m]'), ns.astype('M8[m]').astype('M8[ns]'))
    add('naive M8[h]', ns.astype('M8[h]'), ns.astype('M8[h]').astype('M8[ns]'))
    add('naive M8[D]', ns.astype('M8[D]'), ns.astype('M8[D]').astype('M8[ns]'))
    add('naive index', pd.DatetimeIndex(ns), ns)
    add('naive index (s)', pd.DatetimeIndex(T(b)), ns)
    add('sorted index', pd.DatetimeIndex(np.sort(ns)), np.sort(ns))
    add('date_range', pd.date_range('2023-12-31T20:00', periods=40, freq='17min'),
        np.asarray(pd.date_range('2023-12-31T20:00', periods=40, freq='17min'), 'M8[ns]'))
    add('date_range tz', pd.date_range('2024-03-30T20:00', periods=40, freq='17min', tz='Europe/Madrid'),
        np.asarray(pd.date_range('2024-03-30T20:00', periods=40, freq='17min', tz='Europe/Madrid').tz_convert(
            'UTC').tz_localize(None), 'M8[ns]'), 'Europe/Madrid', 'Europe/Madrid')
    add('date_range backwards', pd.date_range('2024-03-30T20:00', periods=9, freq='-1D'),
        np.asarray(pd.date_range('2024-03-30T20:00', periods=9, freq='-1D'), 'M8[ns]'))
    add('list of datetime', [x.astype(object) for x in T(b)], ns)
    add('tuple of M8', tuple(T(b)), ns)
    add('list of Timestamp', [pd.Timestamp(x) for x in ns], ns)
    add('object array', np.array([x.astype(object) for x in T(b)], dtype=object), ns)
    add('list of str', [str(x) for x in T(b)], ns)
    add('scalar M8', ns[0], ns[:1])
    add('scalar Timestamp', pd.Timestamp(ns[0]), ns[:1])
    add('scalar datetime', T(b)[0].astype(object), ns[:1])
    add('scalar str', str(T(b)[0]), ns[:1])
    add('duplicates', np.repeat(ns[:5], 3), np.repeat(ns[:5], 3))
    add('non-contiguous', np.repeat(ns, 2)[::2], ns)
    add('negative stride', ns[::-1], ns[::-1])
    sub = ns + np.array([0, 999999999, 500000000, 1, 123456789])[np.arange(len(ns)) % 5].astype('m8[ns]')
    add('sub-second', sub, sub)
    for i, o in enumerate(orders(4) + orders(3)):
        x = ns[:4][o] if i % 2 else sub[:4][o]
        z = ZONES[i % len(ZONES)]
        add('in order %s' % o, x, x) if i % 3 else add('in order %s, %s' % (o, z), pd.DatetimeIndex(x).tz_localize(
            'UTC').tz_convert(z), x, z, z)
    N = 100003 + int(rng.integers(50))
    b = (epoch('2023-10-01T00:00:07') + 37 * np.arange(N)).astype('M8[s]').astype('M8[ns]')
    for name, x in (('%d times in order' % N, b), ('%d shuffled times' % N, rng.permutation(b))):
        add(name, x, x)
        add(name + ' Australia/Lord_Howe', pd.DatetimeIndex(x).tz_localize('UTC').tz_convert('Australia/Lord_Howe'), x,
            'Australia/Lord_Howe', 'Australia/Lord_Howe')
    add('sub-second tz', pd.DatetimeIndex(sub).tz_localize('UTC').tz_convert('Asia/Tokyo'), sub, 'Asia/Tokyo',
        'Asia/Tokyo')
    return out


def m_C10(rep, rng, scale=1):
    import pandas as pd
    far_times(rep)
    for _ in range(scale):
        cases = time_cases(rng)
        for ci, (name, arg, utc, loc, key) in enumerate(cases):
            K = len(utc)
            for uc in USECASES:
                la, lo = (np.linspace(-80, 75, K), np.linspace(-170, 150, K)) if uc == 'transect' else (
                    np.array([-33., 52.]), np.array([120., -5.]))
                algo, eng = CONFIGS[(ci + USECASES.index(uc)) % 7]
                rep.count('C10.times', 1, (name, uc, algo))
                prog = ('import numpy as np, pandas as pd, sunwhere\n# %s\nutc = %s\nr = sunwhere.%s(<the same instants '
                        'as %s>, %s, %s, algorithm=%r, engine=%r)\n' % (name, lit(utc[:20]), uc, name, lit(la[:20]),
                                                                        lit(lo[:20]), algo, eng))

                def fail(what, txt):
                    rep.violation('C10.' + what, '%s, %s/%s %s: %s' % (name, algo, eng, uc, txt), prog)
                try:
                    r = run(uc, arg, la, lo, algo, eng)
                    v = vals(r)
                except Exception as e:
                    fail('accepted', '%s: %s' % (type(e).__name__, e))
                    continue
                sec = utc.astype('M8[s]')
                w = vals(run(uc, sec, la, lo, algo, eng))
                w2 = vals(run(uc, sec + np.timedelta64(1, 's'), la, lo, algo, eng))
                whole = (sec == utc)
                if not ticks(w, w2, sec):
                    fail('whole-second', 'the sun stands still between %s and the next second' % sec[0])
                # the same instants, one by one
                w1 = expand(uc, w, K, len(la), len(lo))
                pk = [int(x) for x in rng.integers(0, w1['zenith'].size, 3)]
                pts = [x[pk] for x in flat_points(uc, sec.astype('i8'), la, lo)]
                w3 = vals(run('transect', pts[0], pts[1], pts[2], algo, eng))
                for q in (0, 1, 2):
                    a1, a3 = [angdist(x['zenith'].ravel()[i], x['azimuth'].ravel()[i], 90., 0.) for x, i in ((w1, pk[q]), (w3, q))]
                    if not abs(a1 - a3) < 1e-3 or not abs(np.ravel(w1['zenith'])[pk[q]] - w3['zenith'][q]) < 1e-3 and \
                            abs(w3['zenith'][q] - 90.8333) > 1e-3:
                        fail('same-position', 'the sun at %s, lat=%r lon=%r is at zenith=%r, azimuth=%r, but %r, %r when '
                             'that instant is given alone' % (T(pts[0][q]), pts[1][q], pts[2][q], w1['zenith'].ravel()[pk[q]],
                                                              w1['azimuth'].ravel()[pk[q]], w3['zenith'][q], w3['azimuth'][q]))
                for k in v:
                    if v[k].shape != w[k].shape:
                        fail('same-position', '%s has shape %s' % (k, v[k].shape))
                        continue
                    d = circ(v[k], w[k]) if k == 'azimuth' else np.abs(v[k] - w[k])
                    wh = whole.reshape((-1,) + (1,) * (v[k].ndim - 1))
                    # to the whole second: anything between the two whole seconds
                    step = circ(w2[k], w[k]) if k == 'azimuth' else np.abs(w2[k] - w[k])
                    lim = np.where(wh, 0, step * 1.01) + {'eot': 1e-7}.get(k, 1e-8)
                    if k == 'azimuth':
                        lim = lim / np.maximum(np.sin(np.radians(w['zenith'])), 1e-6)
                    if (~(d <= lim)).any():
                        i = np.argwhere(~(d <= lim))[0]
                        fail('same-position', '%s%s is %r, but %r for the same instant %s in UTC' % (
                            k, list(i), float(v[k][tuple(i)]), float(w[k][tuple(i)]), utc[i[0]]))
                rt = pd.DatetimeIndex(r.times)
                g = np.asarray(rt.tz_convert('UTC').tz_localize(None) if rt.tz is not None else rt, 'M8[ns]')
                if g.shape != utc.shape or (g != utc).any():
                    fail('times', 'times are the instants %s, given %s' % (g[:3], utc[:3]))
                else:
                    lw = np.asarray(rt.tz_localize(None), 'M8[ns]')
                    if (lw != loc).any():
                        i = int(np.argmax(lw != loc))
                        fail('times-zone', 'times[%d] is local %s, given %s' % (i, lw[i], loc[i]))
                g = pd.DatetimeIndex(r.times_utc)
                off = np.asarray(g.tz_localize(None), 'M8[ns]')
                if len(off) != len(utc) or (off != utc).any():
                    fail('times_utc', 'times_utc is %s..., expected %s...' % (off[:3], utc[:3]))
                c = r.zenith.coords['time'].values
                if len(c) != len(loc) or (c != loc).any():
                    fail('time-coordinate', 'time coordinate is %s..., expected %s...' % (c[:3], loc[:3]))
                for q in ('eot', 'ecf', 'declination'):
                    c = getattr(r, q).coords['time'].values
                    if len(c) != len(loc) or (c != loc).any():
                        fail('time-coordinate', 'time coordinate of %s is %s..., expected %s...' % (q, c[:3], loc[:3]))
                if key is not None and r.timezone != key and not zone_names(r.timezone, rt.tz):
                    fail('timezone', 'timezone is %r, expected %r' % (r.timezone, key))


def ticks(a, b, sec):
    """the sun moves by about a quarter of a minute of arc from one second to the next"""
    d = np.degrees(np.sqrt(((vec(a['zenith'], a['azimuth']) - vec(b['zenith'], b['azimuth']))**2).sum(0)))
    c = np.cos(np.radians(a['declination'])).reshape((-1,) + (1,) * (d.ndim - 1)) * 360. / 86164.
    low = np.abs(a['zenith'] - 90) < 1.5         # refraction
    eve = (sec.astype('i8') % DAY == DAY - 1).reshape(c.shape)       # iqbal: declination and eot are those of the day
    return bool(((np.abs(d - c) < 6e-4) | low | eve).all())


def far_times(rep):
    """instants beyond the range of 64-bit nanoseconds (1677-2262)"""
    for year in (1500, 1600, 2263, 2500, 5000):
        x = np.array(['%d-06-01T12' % year], 'M8[s]')
        rep.count('C10.far', 1)
        try:
            r = run('sites', x, 10., 20., 'nrel', 'numexpr')
        except Exception:
            continue
        g = np.asarray(r.times.tz_convert('UTC').tz_localize(None))
        if (g.astype('M8[s]') != x).any():
            rep.violation('C10.far-times', 'times of the year %d are reported as %s' % (year, g[0]),
                          'import numpy as np, sunwhere\nprint(sunwhere.sites(%s, 10., 20., algorithm="nrel").times)\n'
                          % lit(x))


def zone_names(name, tz):
    """does `name` name the zone tz?"""
    return name in (str(tz), getattr(tz, 'zone', None), getattr(tz, 'key', None)) or (
        name in ('UTC', 'UTC+00:00') and str(tz).startswith('UTC'))


def all_props(r):
    return {'zenith': r.zenith, 'azimuth': r.azimuth, 'declination': r.declination, 'dec': r.dec, 'eot': r.eot,
            'ecf': r.ecf, 'sza': r.sza, 'saa': r.saa, 'elevation': r.elevation, 'cosz': r.cosz, 'eth': r.eth(),
            'airmass': r.airmass(), 'incidence': r.incidence(20., 30.), 'latitude': r.latitude,
            'longitude': r.longitude, 'true_solar_time': r.true_solar_time, 'sunrise': r.sunrise(),
            'sunset': r.sunset(), 'daylight': r.daylight_length(), 'sunrise_utc': r.sunrise('utc'),
            'sunrise_local': r.sunrise('local'), 'sunset_local': r.sunset('local'), 'sunset_tst': r.sunset('tst'),
            'eth_p': r.eth(am_correction='perez_1990'), 'sunset_utc': r.sunset('utc'), 'sunrise_rad': r.sunrise('rad')}


NAMES = {'zenith': 'zenith', 'azimuth': 'azimuth', 'declination': 'declination', 'eot': 'eot', 'ecf': 'ecf',
         'sza': 'sza', 'saa': 'saa', 'elevation': 'elevation', 'cosz': 'cosz', 'eth': 'eth', 'airmass': 'airmass',
         'incidence': 'incidence', 'latitude': 'latitude', 'longitude': 'longitude',
         'true_solar_time': 'true_solar_time'}
UNITS = {'zenith': 'degrees', 'azimuth': 'degrees', 'declination': 'degrees', 'eot': 'minutes', 'elevation': 'degrees',
         'eth': 'W m-2', 'sunrise': 'degrees', 'sunset': 'degrees', 'daylight': 'hour', 'sunrise_rad': 'radians',
         'sunrise_utc': 'UTC', 'sunset_utc': 'UTC', 'sunset_tst': 'TST', 'latitude': 'degrees north',
         'longitude': 'degrees east', 'sza': 'degrees', 'saa': 'degrees', 'ecf': '-', 'cosz': '-', 'airmass': '-',
         'incidence': '-'}


def m_C11(rep, rng, scale=1):
    import pandas as pd
    dims_full = {'sites': ('time', 'location'), 'regular_grid': ('time', 'latitude', 'longitude'),
                 'transect': ('time',)}
    sizes = [(4, 4, 4), (1, 1, 1), (5, 3, 7), (2, 6, 1), (6, 1, 2), (2, 150, 140), (300, 2, 3), (100003, 1, 1),
             (1, 100003, 1)]
    for ci, (algo, eng) in enumerate(CONFIGS):
        for (K, J, I), tz in itertools.product(sizes, (None, 'America/New_York')):
            for ui, uc in enumerate(USECASES):
                if K * J * I > 60000 and ((ui + ci) % 3 or bool(tz) != ci % 2):
                    continue
                ref = bool(rng.integers(2))
                t = epoch('2023-03-01') + (rng.permutation(4000)[:K] * 5400 if K <= 4000 else 61 * rng.permutation(K))
                fine = bool(rng.integers(2))
                if uc == 'transect':
                    J = I = K
                if uc == 'sites':
                    I = J
                la = np.round(rng.permutation(np.linspace(-80, 80, max(50, J)))[:J], 2)
                lo = np.round(rng.permutation(np.linspace(-180, 170, max(50, I)))[:I], 2)
                if fine:
                    la, lo = la + rng.uniform(-.01, .01, len(la)), np.maximum(lo + rng.uniform(-.01, .01, len(lo)), -180.)
                arg = T(t).astype('M8[ns]')
                if fine:
                    arg = arg + rng.integers(0, 10**9, len(arg)).astype('m8[ns]')
                coord = arg
                if tz:
                    arg = pd.DatetimeIndex(arg).tz_localize('UTC').tz_convert(tz)
                    coord = np.asarray(arg.tz_localize(None), 'M8[ns]')
                prog = ('import numpy as np, pandas as pd, sunwhere\nt = pd.DatetimeIndex(%s).tz_localize("UTC")'
                        '.tz_convert(%r)\nr = sunwhere.%s(t, %s, %s, algorithm=%r, engine=%r, refraction=%r)\n'
                        'print(r.zenith, r.eot)\n' % (lit(T(t) if not fine else np.asarray(pd.DatetimeIndex(arg).tz_localize(None) if not tz else arg.tz_convert('UTC').tz_localize(None), 'M8[ns]')), tz or 'UTC', uc, lit(la), lit(lo), algo, eng, ref))

                def fail(what, txt):
                    rep.violation('C11.' + what, '%s/%s %s (K=%d J=%d I=%d tz=%s): %s' % (
                        algo, eng, uc, K, J, I, tz, txt), prog)
                rep.count('C11.labels', 1, (algo, eng, uc, (K, J, I), tz))
                try:
                    r = run(uc, arg, la, lo, algo, eng, ref)
                    P = all_props(r)
                except Exception as e:
                    fail('runs', '%s: %s' % (type(e).__name__, e))
                    continue
                full = dims_full[uc]
                exp = {}
                for k in ('zenith', 'azimuth', 'sza', 'saa', 'elevation', 'cosz', 'eth', 'airmass', 'eth_p'):
                    exp[k] = full
                for k in ('declination', 'dec', 'eot', 'ecf'):
                    exp[k] = ('time',)
                for k, d in exp.items():
                    if P[k].dims != d:
                        fail('dims', '%s has dimensions %s, expected %s' % (k, P[k].dims, d))
                any_order = {'incidence': full, 'sunrise_utc': full, 'sunrise_local': full, 'sunset_local': full,
                             'sunset_utc': full}
                for k, d in any_order.items():
                    if set(P[k].dims) != set(d):
                        fail('dims', '%s has dimensions %s, expected %s' % (k, P[k].dims, d))
                want_c = {'time': coord, 'latitude': la, 'longitude': lo}
                if uc == 'sites':
                    want_c['location'] = np.arange(J)
                for k, a in P.items():
                    for c in set(a.dims) | ({'latitude', 'longitude'} if k in exp and exp[k] == full else set()):
                        if c not in a.coords:
                            fail('coords', '%s has no coordinate %s' % (k, c))
                        elif a.coords[c].shape != want_c[c].shape or (a.coords[c].values != want_c[c]).any():
                            fail('coords', 'coordinate %s of %s is %s, expected %s' % (c, k, 
                                np.ravel(a.coords[c].values)[:4], want_c[c][:4]))
                    if k in NAMES and a.name != NAMES[k]:
                        fail('names', '%s is named %r' % (k, a.name))
                    if k in UNITS and a.attrs.get('units') != UNITS[k]:
                        fail('units', '%s has units %r' % (k, a.attrs.get('units')))
                for k in ('sunrise_local', 'sunset_local'):
                    if P[k].attrs.get('units') != r.timezone:
                        fail('units', '%s has units %r, not %r' % (k, P[k].attrs.get('units'), r.timezone))
                for k, w in (('usecase', uc), ('algorithm', algo), ('engine', eng)):
                    if getattr(r, k) != w:
                        fail('attributes', '%s is %r' % (k, getattr(r, k)))
                if bool(r.has_refraction) != ref:
                    fail('attributes', 'has_refraction is %r' % r.has_refraction)
                if (r.latitude.values != la).any() or (r.longitude.values != lo).any():
                    fail('coords', 'latitude or longitude differ from the inputs')
                # selecting by label
                w = None
                for _ in range(6):
                    k, j, i = int(rng.integers(K)), int(rng.integers(J)), int(rng.integers(I))
                    if uc == 'transect':
                        j = i = k
                    if uc == 'sites':
                        i = j
                    one = run('transect', arg[k:k + 1], la[j:j + 1], lo[i:i + 1], algo, eng, ref)
                    Q = {'zenith': one.zenith, 'azimuth': one.azimuth, 'elevation': one.elevation, 'cosz': one.cosz,
                         'eth': one.eth(), 'airmass': one.airmass(), 'incidence': one.incidence(20., 30.),
                         'declination': one.declination, 'eot': one.eot, 'ecf': one.ecf}
                    sel = {'time': coord[k], 'latitude': la[j], 'longitude': lo[i], 'location': j}
                    for q, x in Q.items():
                        a = P[q]
                        got = float(a.sel({d: sel[d] for d in a.dims if a.dims}).values.reshape(-1)[0]) \
                            if all(d in a.coords for d in a.dims) else np.nan
                        want = float(x.values[0])
                        tol = 1e-6 * max(1, abs(want)) if q != 'azimuth' else 1e-6
                        d = abs(got - want) if q != 'azimuth' else circ(got, want)
                        if not (d <= tol or (np.isnan(got) and np.isnan(want))):
                            fail('selection', '%s selected at %s is %r, but %r computed alone' % (
                                q, {d: str(sel[d]) for d in a.dims}, got, want))


def large(rng, q):
    """the q-th of large inputs: source text of times (s), latitudes and longitudes, and the use case; the sun is
    within a few hundredths of a degree of the horizon in part of them"""
    t0, N = epoch('2021-01-01') + int(rng.integers(2 * 365 * DAY)), 100003 + int(rng.integers(50))
    uc, K, J, I = [('transect', N, N, N), ('sites', N, 1, 1), ('sites', 2, N // 2, N // 2), ('regular_grid', 2, 211, 239),
                   ('regular_grid', N, 1, 1), ('regular_grid', 1009, 7, 11)][q % 6]
    step = [37, 61, 997][q // 6 % 3]
    return (uc, '(%d + %d * np.arange(%d))' % (t0, step if K > 5 else 9000, K),
            '(89.99 * np.sin(1. + np.arange(%d)))' % J, '((%r + 97.3 * np.arange(%d)) %% 360 - 180)' % (
                float(rng.integers(360)), I))


def large_results(rng, n, ref=None):
    import pandas as pd
    start = int(rng.integers(6))
    for i in range(n):
        uc, et, ela, elo = large(rng, start + i)
        algo, eng = CONFIGS[int(rng.integers(len(CONFIGS)))]
        zone = ZONES[int(rng.integers(len(ZONES)))] if i % 2 else 'UTC'
        t, la, lo = eval(et), eval(ela), eval(elo)
        lo = np.where(lo >= 180, -180., lo)
        rf = bool(rng.integers(2)) if ref is None else ref
        r = run(uc, pd.DatetimeIndex(T(t).astype('M8[ns]')).tz_localize('UTC').tz_convert(zone), la, lo, algo, eng, rf)
        prog = ('import numpy as np, pandas as pd, sunwhere\nt = pd.DatetimeIndex(%s.astype("M8[s]")).tz_localize("UTC")'
                '.tz_convert(%r)\nr = sunwhere.%s(t, %s, %s, algorithm=%r, engine=%r, refraction=%r)\n' % (
                    et, zone, uc, ela, elo, algo, eng, rf))
        yield r, dict(uc=uc, t=t, lat=la, lon=lo, algo=algo, eng=eng, ref=rf, zone=zone if i % 2 else None, prog=prog,
                      what='%s/%s %s refraction=%s tz=%s size=%s' % (algo, eng, uc, rf, zone, r.zenith.shape))


def ordered_results(rng, ref=None):
    """results for few instants and places, in every order and with every pattern of repetitions"""
    import pandas as pd
    for i, (t, la, lo) in enumerate(in_orders(rng, None)):
        uc = USECASES[int(rng.integers(3))]
        algo, eng = CONFIGS[int(rng.integers(len(CONFIGS)))]
        zone = ZONES[int(rng.integers(len(ZONES)))] if i % 2 else None
        arg = T(t).astype('M8[ns]')
        if zone:
            arg = pd.DatetimeIndex(arg).tz_localize('UTC').tz_convert(zone)
        rf = bool(rng.integers(2)) if ref is None else ref
        prog = ('import numpy as np, pandas as pd, sunwhere\nt = pd.DatetimeIndex(%s).tz_localize("UTC").tz_convert(%r)\n'
                'r = sunwhere.%s(t, %s, %s, algorithm=%r, engine=%r, refraction=%r)\n' % (
                    lit(T(t)), zone or 'UTC', uc, lit(la), lit(lo), algo, eng, rf))
        yield run(uc, arg, la, lo, algo, eng, rf), dict(
            uc=uc, t=t, lat=la, lon=lo, algo=algo, eng=eng, ref=rf, zone=zone, prog=prog,
            what='%s/%s %s refraction=%s tz=%s (order and repetitions)' % (algo, eng, uc, rf, zone))


def results(rng, n, uc=None, tz=True, algos=None, ref=None, K=None):
    """random results with their inputs, for the derived quantities"""
    import pandas as pd
    if not (uc or K or algos) and n >= 30:
        yield from large_results(rng, 6, ref)
        yield from ordered_results(rng, ref)
    for i in range(n):
        u = uc or USECASES[i % 3]
        algo, eng = (algos or CONFIGS)[int(rng.integers(len(algos or CONFIGS)))]
        k = K or int(rng.choice([1, 5, 24, 60]))
        J = I = int(rng.choice([1, 4, 24]))
        if u == 'regular_grid':
            J, I = int(rng.choice([1, 4, 13])), int(rng.choice([1, 4, 7]))
        if u == 'transect':
            J = I = k
        t, la, lo = points(rng, max(48, k, J, I))
        o = rng.permutation(len(t))
        t, la, lo = t[o][:k], la[rng.permutation(len(t))][:J], lo[o][:I]
        if not K and i % 9 in (4, 8):               # a long regular series; many places
            step, k = [(86400, 400), (3600, 1000), (600, 700), (60, 500), (1, 300), (86400, 120)][int(rng.integers(6))]
            t = epoch('2023-12-30') + int(rng.integers(60)) * DAY + step * np.arange(k)
            if u == 'transect':
                la, lo = np.resize(points(rng, 64)[1], k), np.resize(points(rng, 64)[2], k)
        elif not K and i % 9 == 6:
            J, I = (90, 90) if u == 'sites' else (90, 80)
            if u != 'transect':
                t = t[:3]
                la, lo = np.resize(points(rng, 96)[1], J), np.resize(points(rng, 96)[2], I)
        # the locations as other types of numbers, or lists
        ala, alo = la, lo
        if i % 5 == 1:
            la, lo = la.round(), np.where(lo.round() >= 180, -180, lo.round())
            ala, alo = [[la.astype('i8'), lo.astype('i4')], [[int(v) for v in la], tuple(int(v) for v in lo)],
                        [la.astype('i2'), lo], [la, lo.astype('i8')]][i // 5 % 4]
        elif i % 5 == 3:
            ala, alo = [[la.astype('f4'), np.clip(lo, -180, 179.99).astype('f4')], [list(la), list(lo)],
                        [la, np.clip(lo, -180, 179.99).astype('f4')], [la.astype('f4'), lo]][i // 5 % 4]
            la, lo = np.array(ala, float), np.array(alo, float)
        zone = ZONES[int(rng.integers(len(ZONES)))] if (tz and i % 2) else None
        arg = T(t).astype('M8[ns]')
        if zone:
            arg = pd.DatetimeIndex(arg).tz_localize('UTC').tz_convert(zone)
        rf = bool(rng.integers(2)) if ref is None else ref
        r = run(u, arg, ala, alo, algo, eng, rf)
        prog = ('import numpy as np, pandas as pd, sunwhere\nt = pd.DatetimeIndex(%s).tz_localize("UTC").tz_convert(%r)\n'
                'r = sunwhere.%s(t, %s, %s, algorithm=%r, engine=%r, refraction=%r)\n' % (
                    lit(T(t)), zone or 'UTC', u, lit(ala), lit(alo), algo, eng, rf))
        yield r, dict(uc=u, t=t, lat=la, lon=lo, algo=algo, eng=eng, ref=rf, zone=zone, prog=prog,
                      what='%s/%s %s refraction=%s tz=%s' % (algo, eng, u, rf, zone))


def spread(r, q, arr_or_name):
    """values of a quantity broadcast to the dims of zenith, in zenith's dim order"""
    import xarray as xr
    a = arr_or_name
    dims = r.zenith.dims
    return np.broadcast_to(a.transpose(*[d for d in dims if d in a.dims]).values.reshape(
        [r.zenith.sizes[d] if d in a.dims else 1 for d in dims]), r.zenith.shape)


def place(r, m):
    """t (s), lat, lon spread to the shape of zenith"""
    K, J, I = len(m['t']), len(m['lat']), len(m['lon'])
    if m['uc'] == 'transect':
        return m['t'], m['lat'], m['lon']
    if m['uc'] == 'sites':
        s = (K, J)
        return [np.broadcast_to(x, s) for x in (m['t'][:, None], m['lat'][None], m['lon'][None])]
    s = (K, J, I)
    return [np.broadcast_to(x, s) for x in (m['t'][:, None, None], m['lat'][None, :, None], m['lon'][None, None])]


def bycmp(rep, name, m, what, got, want, tol):
    got, want = np.asarray(got, float), np.asarray(want, float)
    d = np.abs(got - want)
    b = ~((d <= tol) | (np.isnan(got) & np.isnan(want)) | ((got == want)))
    rep.count(name, got.size)
    if b.any():
        i = tuple(np.argwhere(b)[0])
        rep.violation(name, '%s: %s%s is %r, expected %r' % (m['what'], what, [int(x) for x in i], float(got[i]),
                                                             float(want[i])), m['prog'] + 'print(%s)\n' % (
            'r.' + what if not what.startswith('r.') else what))
        return False
    return True


def tst_results(rng, n, ref=True):
    """results at given distances from true solar midnight and noon"""
    for i in range(n):
        algo, eng = CONFIGS[i % 7]
        uc = USECASES[i % 3]
        t = rand_t(rng, 16)
        e = vals(run('transect', t, np.zeros(16), np.zeros(16), algo, eng))['eot']
        d = np.resize(rng.permutation([.003, -.003, .02, -.02, .3, -.3, .501, -.501, .7, -.7, .98, -.98, 1.5, -1.5, 3, -3, 31,
                                       -31, 61, -61, 301, -301]), 16) + rng.choice([0, 43200], 16)
        lo = ((d - t % DAY - 60 * e) / 240. + 180.) % 360. - 180.
        lo = np.where(lo >= 180, -180., lo)
        la = rng.uniform(-66, 66, 16)
        if uc == 'sites':
            t, la, lo = t[:6], la[:6], lo[:6]
        elif uc == 'regular_grid':
            t, la, lo = t[:4], la[:3], lo[:4]
        yield run(uc, T(t), la, lo, algo, eng, ref), dict(
            uc=uc, t=t, lat=la, lon=lo, algo=algo, eng=eng, ref=ref, zone=None,
            prog=program(uc, t, la, lo, algo, eng, ref), what='%s/%s %s about true solar midnight or noon' % (algo, eng, uc))


def m_C12(rep, rng, scale=1):
    for r, m in itertools.chain(results(rng, 60 * scale), tst_results(rng, 21 * scale)):
        t, la, lo = place(r, m)
        if m['uc'] == 'sites' or m['uc'] == 'transect':
            want_dims = r.zenith.dims
        x = r.true_solar_time
        exp_ns = t.astype('i8') * 10**9
        eot = spread(r, 'eot', r.eot)
        got = spread(r, 'tst', x).astype('M8[ns]').astype('i8')
        d = (got - exp_ns) / 1e9 - (eot * 60 + 240. * lo)
        bycmp(rep, 'C12.true-solar-time', m, 'true_solar_time', d, np.zeros(d.shape), 1e-3)


def m_C13(rep, rng, scale=1):
    special = []
    for r, m in itertools.chain(results(rng, 45 * scale), tst_results(rng, 42 * scale)):
        special.append((r, m))
    # near the polar limits: latitude = +-(90 - declination)
    for q in range(10 * scale):
        algo, eng = CONFIGS[q % 7]
        t = rand_t(rng, 12)
        dec = vals(run('transect', t, np.zeros(12), np.zeros(12), algo, eng))['declination']
        la = np.clip((90 - np.abs(dec)) * rng.choice([-1, 1], 12) + rng.choice([1e-9, -1e-9, 1e-6, -1e-6, 0, .01], 12),
                     -90, 90)
        lo = rng.uniform(-180, 179, 12)
        for uc in ('transect', 'sites', 'regular_grid'):
            r = run(uc, T(t), la, lo, algo, eng)
            special.append((r, dict(uc=uc, t=t, lat=la, lon=lo, algo=algo, eng=eng, ref=True, zone=None,
                                    prog=program(uc, t, la, lo, algo, eng, True), what='%s/%s %s' % (algo, eng, uc))))
    for r, m in special:
        t, la, lo = place(r, m)
        dec = np.radians(spread(r, 'dec', r.declination))
        eot = spread(r, 'eot', r.eot)
        x = np.tan(dec) * np.tan(np.radians(la))
        edge = np.abs(np.abs(x) - 1) < 1e-12
        with np.errstate(all='ignore'):
            w = np.degrees(np.arccos(-x))
        w = np.where(np.abs(x) > 1, np.nan, w)

        def cmp(what, got, want, tol):
            g = spread(r, what, got).astype(float)
            bycmp(rep, 'C13.' + what.split('(')[0], m, what, np.where(edge, np.nan, g), np.where(edge, np.nan, want), tol)
        tol = 1e-9 + 1e-6 / np.maximum(np.sin(np.radians(np.nan_to_num(w, nan=90.))), 1e-5) * 1e-4
        cmp("sunrise('deg')", r.sunrise('deg'), w, tol)
        cmp("sunset('deg')", r.sunset('deg'), -w, tol)
        cmp("sunrise('rad')", r.sunrise('rad'), np.radians(w), tol)
        cmp("sunset('rad')", r.sunset('rad'), -np.radians(w), tol)
        cmp('sunrise()', r.sunrise(), w, tol)
        cmp('sunset()', r.sunset(), -w, tol)
        cmp('daylight_length()', r.daylight_length(), 2 * w / 15, tol)
        # times
        tst_ns = t.astype('i8') * 1e9 + (eot * 60 + 240. * lo) * 1e9
        tst = (t.astype('i8') * 10**9 + np.round((eot * 60 + 240. * lo) * 1e9).astype('i8'))
        day = tst // (DAY * 10**9)
        near = np.minimum(tst % (DAY * 10**9), -tst % (DAY * 10**9)) < 2 * 10**6
        offs = np.zeros(t.shape)
        if m['zone']:
            import pandas as pd
            ix = pd.DatetimeIndex(T(m['t'])).tz_localize('UTC').tz_convert(m['zone'])
            o = (np.asarray(ix.tz_localize(None), 'M8[s]').astype('i8') - m['t'])
            offs = np.broadcast_to(o.reshape((-1,) + (1,) * (t.ndim - 1)), t.shape)
        for f, sgn in (('sunrise', -1), ('sunset', 1)):
            for u in ('tst', 'utc', 'local'):
                want = (12 + sgn * np.nan_to_num(w) / 15) * 3600.
                if u != 'tst':
                    want = want - (eot * 60 + 240. * lo)
                if u == 'local':
                    want = want + offs
                g = spread(r, f, getattr(r, f)(u)).astype('M8[ns]')
                nat = np.isnat(g)
                gi = np.where(nat, 0, g.astype('i8') - day * DAY * 10**9) / 1e9
                gi = np.where(nat, np.nan, gi)
                want = np.where(np.isnan(w), np.nan, want)
                skip = near | edge
                bycmp(rep, 'C13.%s-%s' % (f, u), m, "%s('%s')" % (f, u), np.where(skip, np.nan, gi),
                      np.where(skip, np.nan, want), 1e-3 + 3600 * tol / 15)


def m_C14(rep, rng, scale=1):
    def am_of(r, par, z):
        return air_mass(par, z)
    rs = list(results(rng, 40 * scale)) + horizon_results(rng, 10 * scale)
    for r, m in rs:
        z = r.zenith.values
        ecf = spread(r, 'ecf', r.ecf)
        c = np.cos(np.radians(z))
        base = ecf * np.maximum(0, c)
        for isc in (1361.1, 1367., 1., 0., 1e-3, 2000.):
            g = r.eth(ISC=isc).values
            bycmp(rep, 'C14.eth', m, 'eth(ISC=%r)' % isc, g, isc * base, 1e-9 * isc + 1e-12)
            if (g < 0).any():
                rep.violation('C14.negative', m['what'] + ': negative eth', m['prog'])
        for isc in (1361, np.int64(1367), np.float32(1361.5), 1):
            bycmp(rep, 'C14.eth', m, 'eth(ISC=%r)' % isc, r.eth(ISC=isc).values, float(isc) * base, 1e-9 * float(isc) + 1e-12)
        bycmp(rep, 'C14.eth', m, 'eth()', r.eth().values, 1361.1 * base, 1e-6)
        bycmp(rep, 'C14.eth', m, 'eth(1361.1, "none")', r.eth(1361.1, 'none').values, 1361.1 * base, 1e-6)
        if (r.eth().values[z > 90 + 1e-9] != 0).any():
            rep.violation('C14.below', m['what'] + ': eth is not zero below the horizon', m['prog'])
        with np.errstate(all='ignore'):
            am = air_mass('kasten_and_young_1989', z)
            f = {'perez_1990': 0.1 + 1.031 * np.exp(-1.4 / (0.9 + 9.4 / am)),
                 'skarveith_1998': 0.83 - 0.56 * np.exp(-0.06 * (90. - z))}
            am = air_mass('gueymard_2003', z)
            f['gonzalez_and_calbo_1999'] = 0.229 + 0.957 * np.exp(-1.74 * am * (0.124 - 0.0285 * np.log(am)))
        up = z <= 90.
        for k, x in f.items():
            for isc in (1361.1, 1000.):
                g = r.eth(ISC=isc, am_correction=k).values
                # where the sun is below the horizon the factor is not defined (air mass) or irrelevant (zero)
                bycmp(rep, 'C14.' + k, m, 'eth(ISC=%r, am_correction=%r)' % (isc, k), np.where(up, g, 0),
                      np.where(up, isc * base * x, 0), 2e-6 * isc)
    r = rs[0][0]
    for k in ('perez', 'Perez_1990', '', None, 'nones', 'skartveit_1998', 'gueymard_2003', 'NONE'):
        rep.count('C14.unknown', 1)
        e = raises(lambda: r.eth(am_correction=k))
        if not isinstance(e, ValueError):
            rep.violation('C14.unknown', 'eth(am_correction=%r): %r instead of ValueError' % (k, e), rs[0][1]['prog'])


def air_mass(par, z):
    """the cited formulas; angles in degrees"""
    with np.errstate(all='ignore'):
        c = np.cos(np.radians(z))
        x = {'kasten_1965': lambda: 0.15 * (93.885 - z)**-1.253,
             'kasten_and_young_1989': lambda: 0.50572 * (96.07995 - z)**-1.6364,
             'gueymard_2001': lambda: 0.45665 * z**0.07 * (96.4836 - z)**-1.697,
             'gueymard_2003': lambda: 0.48353 * z**0.095846 * (96.741 - z)**-1.754}[par]()
        return np.where(z <= 90, np.maximum(1., 1. / (c + x)), np.nan)


def on_the_horizon(rng, algo, eng, ref, n=60):
    """instants and places where the zenith angle returned is 90 degrees to the last bit, or the next
    number above or below: longitudes by bisection, along with the two ends the bisection arrives at"""
    t = epoch('2024-01-01') + rng.integers(0, 360 * 86400, n)
    la = rng.uniform(-60, 60, n)

    def zen(lo):
        return np.asarray(run('transect', t, la, lo, algo, eng, ref).zenith.values, float)
    grid = np.linspace(-179.9, 179.9, 25)
    z = np.array([zen(np.full(n, g)) for g in grid])
    side = (z[:-1] < 90) & (z[1:] > 90)
    keep = side.any(0)
    i = side.argmax(0)
    a, b = grid[i], grid[i + 1]
    for _ in range(56):
        c = (a + b) / 2
        below = zen(np.where(keep, c, 0.0)) <= 90
        a, b = np.where(below, c, a), np.where(below, b, c)
    t, la, a, b = t[keep], la[keep], a[keep], b[keep]
    return np.concatenate([t, t]), np.concatenate([la, la]), np.concatenate([a, b])


def horizon_results(rng, n):
    """results with the sun about the horizon, the zenith..."""
    from .mon_core import special_places
    out = []
    for i in range(n):
        algo, eng = CONFIGS[i % 7]
        ref = bool(i % 2)
        t, la, lo = special_places(rng, 3, algo, eng)
        o = rng.permutation(len(t))[:150]
        t, la, lo = t[o], la[o], lo[o]
        out.append((run('transect', t, la, lo, algo, eng, ref),
                    dict(uc='transect', t=t, lat=la, lon=lo, algo=algo, eng=eng, ref=ref, zone=None,
                         prog=program('transect', t, la, lo, algo, eng, ref), what='%s/%s transect' % (algo, eng))))
    for i in range(min(7, n)):
        algo, eng = CONFIGS[i]
        ref = bool(rng.integers(2))
        t, la, lo = on_the_horizon(rng, algo, eng, ref)
        out.append((run('transect', t, la, lo, algo, eng, ref),
                    dict(uc='transect', t=t, lat=la, lon=lo, algo=algo, eng=eng, ref=ref, zone=None,
                         prog=program('transect', t, la, lo, algo, eng, ref), what='%s/%s horizon' % (algo, eng))))
    # a fine scan of zenith from 0 to 180
    t = np.full(4000, epoch('2024-03-20T03:07'))
    for algo, eng, ref in (('psa', 'numexpr', False), ('nrel', 'numexpr', True)):
        la, lo = np.zeros(4000), np.linspace(-180, 179.99, 4000)
        out.append((run('transect', t, la, lo, algo, eng, ref),
                    dict(uc='transect', t=t, lat=la, lon=lo, algo=algo, eng=eng, ref=ref, zone=None,
                         prog='import numpy as np, sunwhere\nr = sunwhere.transect(np.full(4000, np.datetime64('
                              "'2024-03-20T03:07')), np.zeros(4000), np.linspace(-180, 179.99, 4000), algorithm=%r, "
                              'engine=%r, refraction=%r)\n' % (algo, eng, ref), what='%s/%s scan' % (algo, eng))))
    return out


PARS = ('kasten_1965', 'kasten_and_young_1989', 'gueymard_2001', 'gueymard_2003')


def m_C15(rep, rng, scale=1):
    rs = list(results(rng, 30 * scale)) + horizon_results(rng, 14 * scale)
    for r, m in rs:
        z = r.zenith.values
        for p in PARS + (None,):
            g = (r.airmass() if p is None else r.airmass(p)).values
            w = air_mass(p or 'gueymard_2003', z)
            bycmp(rep, 'C15.formula', m, 'airmass(%r)' % (p or 'gueymard_2003'), g, w, 1e-6 * np.nan_to_num(w, nan=1))
            up = z <= 90
            if not (np.isfinite(g[up]) & (g[up] >= 1)).all() or not np.isnan(g[~up]).all():
                rep.violation('C15.domain', '%s: airmass(%r) below 1, not finite or defined below the horizon' % (
                    m['what'], p), m['prog'] + 'print(r.airmass(%r), r.zenith)\n' % (p or 'gueymard_2003'))
            hz = up & (z > 89.9999)
            zz = up & (z < 0.5)
            if ((g[hz] < 29) | (g[hz] > 41)).any() or (np.abs(g[zz] - 1) > 0.002).any():
                rep.violation('C15.limits', '%s: airmass(%r) at the horizon %s, overhead %s' % (
                    m['what'], p, g[hz][:3], g[zz][:3]), m['prog'])
    r = rs[0][0]
    for k in ('kasten', 'Kasten_1965', '', None, 'gueymard', 'gueymard_2002', 'none', 'young_1994'):
        rep.count('C15.unknown', 1)
        e = raises(lambda: r.airmass(k))
        if not isinstance(e, ValueError):
            rep.violation('C15.unknown', 'airmass(%r): %r instead of ValueError' % (k, e), rs[0][1]['prog'])


def m_C16(rep, rng, scale=1):
    surf = [(0., 0.), (0., 77.), (0., -180.), (90., 0.), (90., 90.), (90., -90.), (90., 180.), (180., 10.), (30., 0.),
            (30., 45.), (30., -45.), (30., 135.), (30., -135.), (45., 180.), (60., -180.), (15, 20), (120., 60.), (40., 200.), (25., -265.), (70., 300.),
            (35., 359.), (1e-3, 12.), (89.9, 179.9)]
    for r, m in results(rng, 36 * scale, ref=False):
        z, a = np.radians(r.zenith.values), np.radians(r.azimuth.values)
        for b, g in surf + [(rng.uniform(0, 180), rng.uniform(-180, 180)) for _ in range(4)] + [
                (rng.uniform(0, 90), rng.uniform(-360, 360))]:
            bb, gg = np.radians(b), np.radians(g)
            # normal pointing g degrees east of south; azimuth is west positive
            want = np.cos(bb) * np.cos(z) + np.sin(bb) * np.sin(z) * np.cos(a + gg)
            got = spread(r, 'incidence', r.incidence(b, g))
            bycmp(rep, 'C16.incidence', m, 'incidence(%r, %r)' % (b, g), got, want, 5e-4)
    # refraction must not matter: the incidence uses the true sun
    for r, m in results(rng, 6 * scale, ref=True):
        t, la, lo = place(r, m)
        r0 = run(m['uc'], T(m['t']), m['lat'], m['lon'], m['algo'], m['eng'], False)
        z, a = np.radians(r0.zenith.values), np.radians(r0.azimuth.values)
        for b, g in surf[::3]:
            bb, gg = np.radians(b), np.radians(g)
            want = np.cos(bb) * np.cos(z) + np.sin(bb) * np.sin(z) * np.cos(a + gg)
            got = spread(r, 'incidence', r.incidence(b, g))
            bycmp(rep, 'C16.incidence', m, 'incidence(%r, %r)' % (b, g), got, want, 5e-4)


def m_C17(rep, rng, scale=1):
    import pandas as pd
    from sunwhere.utils import datetime as ud
    utc2tst, tst2utc = ud.true_solar_time, sw().universal_time_coordinated
    sizes = [(1, 1), (5, 1), (1, 5), (4, 4), (3, 7), (30, 2), (1500, 1), (1, 1500), (700, 3), (100003, 1), (1, 100003), (
        40009, 2)]
    for q in range(4 * scale):
        for K, I in sizes[:-3] if q else sizes:
            t = rand_t(rng, K) if q else np.resize(SPECIAL_T, K)
            lo = np.resize(points(rng, 48)[2], I) if q % 2 else np.round(np.linspace(-180, 179.5, I), 3)
            forms = [(T(t), lo), (T(t).astype('M8[ns]'), list(lo))]
            if K == 1:
                forms += [(T(t)[0], lo), (T(t)[0].astype(object), lo), (T(t), float(lo[0]) if I == 1 else lo),
                          (pd.Timestamp(T(t)[0]), lo)]
            if I == 1:
                forms += [(T(t), float(lo[0]))]
            forms += [(pd.DatetimeIndex(T(t)), lo), ([x for x in T(t)], lo), ([x.astype(object) for x in T(t)], lo)]
            eot = run('sites', T(t), 0., 0.).eot.values
            tst = t[:, None] + 60 * eot[:, None] + 240. * lo[None]
            for a, b in forms:
                prog = ('import numpy as np, pandas as pd, sunwhere\nfrom sunwhere.utils.datetime import true_solar_time\n'
                        'x = true_solar_time(%s, %s)\nprint(x, sunwhere.universal_time_coordinated(x, %s))\n' % (
                            lit(T(t)), lit(lo), lit(lo)))
                rep.count('C17.conversions', K * I, (K, I, type(a).__name__))
                try:
                    x = np.asarray(utc2tst(a, b))
                except Exception as e:
                    rep.violation('C17.runs', 'true_solar_time(%s, %s): %s: %s' % (lit(a), lit(b), type(e).__name__, e),
                                  prog)
                    continue
                want_shape = tuple(n for n in (K, I) if n != 1)
                if x.shape != want_shape:
                    rep.violation('C17.shape', 'true_solar_time of %d times and %d longitudes has shape %s' % (
                        K, I, x.shape), prog)
                    continue
                d = (x.astype('M8[ns]').astype('i8').reshape(K, I) - t[:, None] * 10**9) / 1e9 - (tst - t[:, None])
                if (np.abs(d) > 1e-3).any():
                    i = tuple(np.argwhere(np.abs(d) > 1e-3)[0])
                    rep.violation('C17.utc-to-tst', 'true_solar_time%s is %r s from UTC + eot + 4 lon (t=%s lon=%r)' % (
                        i, float(d[i]), T(t)[i[0]], float(lo[i[1]])), prog)
            # back
            for k in range(min(K, 3)):
                for i in range(min(I, 4)):
                    x = utc2tst(T(t)[k], lo[i])
                    y = np.asarray(tst2utc(x, lo[i]))
                    rep.count('C17.round-trip', 1)
                    d = (y.astype('M8[ns]').astype('i8') - t[k] * 10**9) / 1e9
                    if y.shape != () or not abs(d) <= 20:
                        rep.violation('C17.round-trip', 'universal_time_coordinated(true_solar_time(%s, %r)) is %s s off'
                                      % (T(t)[k], float(lo[i]), d),
                                      'import numpy as np, sunwhere\nfrom sunwhere.utils.datetime import true_solar_time\n'
                                      'x = true_solar_time(%s, %r)\nprint(sunwhere.universal_time_coordinated(x, %r))\n' % (
                                          lit(T(t)[k:k + 1]), float(lo[i]), float(lo[i])))
            x = T(np.round(tst[:, 0]).astype('i8'))
            y = np.asarray(tst2utc(x, lo))
            rep.count('C17.tst-to-utc', K * I)
            if y.shape != tuple(n for n in (K, I) if n != 1):
                rep.violation('C17.shape', 'universal_time_coordinated of %d times and %d longitudes has shape %s' % (
                    K, I, y.shape), None)
            else:
                e2 = run('sites', x, 0., 0.).eot.values
                want = np.round(tst[:, 0]).astype('i8')[:, None] - 60 * e2[:, None] - 240. * lo[None]
                d = y.astype('M8[ns]').astype('i8').reshape(K, I) / 1e9 - want
                if (np.abs(d) > 20).any():
                    i = tuple(np.argwhere(np.abs(d) > 20)[0])
                    rep.violation('C17.tst-to-utc', 'universal_time_coordinated%s is %r s off (tst=%s lon=%r)' % (
                        i, float(d[i]), x[i[0]], float(lo[i[1]])),
                        'import numpy as np, sunwhere\nprint(sunwhere.universal_time_coordinated(%s, %s))\n' % (
                            lit(x), lit(lo)))


def snapshot(r):
    out = {}
    for k, a in all_props(r).items():
        out[k] = np.array(a.values)
    out['times'] = np.asarray(r.times.tz_convert('UTC').tz_localize(None))
    out['times_utc'] = np.asarray(r.times_utc.tz_convert('UTC').tz_localize(None))
    for k in ('algorithm', 'engine', 'usecase', 'timezone', 'has_refraction'):
        out[k] = np.array(getattr(r, k))
    for k, a in all_props(r).items():
        out['attrs.' + k] = np.array(str(a.dims) + str(a.name) + str(sorted(a.attrs.items())))
    return out


def differ(a, b):
    for k in a:
        x, y = a[k], b[k]
        if x.shape != y.shape:
            return k
        if x.dtype.kind in 'mMf':
            if not same(x, y).all():
                return k
        elif not (x == y).all():
            return k
    return None


def m_C18(rep, rng, scale=1):
    import pandas as pd
    # 1. inputs unmodified, read-only inputs accepted
    for algo, eng in CONFIGS:
        for uc in USECASES:
            for ref in (False, True):
                t, la, lo = points(rng, 48)
                t, la, lo = t[:12].copy(), la[-12:].copy(), lo[:12].copy()
                for mode in range(5):
                    a, b, c = T(t).astype('M8[s]' if mode % 2 else 'M8[ns]'), la.copy(), lo.copy()
                    if mode == 1:
                        a = pd.DatetimeIndex(a)
                    if mode == 2:
                        a[3], b[5], c[7] = 'NaT', np.nan, np.nan
                    if mode == 3:
                        b, c = b.astype('f4'), c.astype('f4')
                        b, c = np.clip(b, -90, 90), np.where(c >= 180, -180, c).astype('f4')
                    if mode == 4:
                        a, b, c = list(a), list(b), list(c)
                    keep = [np.array(x) for x in (a, b, c)]
                    for x in (a, b, c):
                        if mode in (0, 2, 3) and isinstance(x, np.ndarray):
                            x.flags.writeable = False
                    rep.count('C18.inputs', 1)
                    prog = program(uc, T(t), la, lo, algo, eng, ref)
                    try:
                        r = run(uc, a, b, c, algo, eng, ref)
                        s1 = snapshot(r)
                    except Exception as e:
                        rep.violation('C18.read-only', '%s/%s %s with read-only inputs: %s: %s' % (
                            algo, eng, uc, type(e).__name__, e), prog)
                        continue
                    for nm, x, y in zip(('times', 'latitude', 'longitude'), (a, b, c), keep):
                        x = np.array(x)
                        if x.dtype != y.dtype or not ((x == y) | (isnull(x) & isnull(y))).all():
                            rep.violation('C18.inputs', '%s/%s %s: the call changed its %s' % (algo, eng, uc, nm), prog)
                    # 2. reading again, in any order, gives the same
                    if (algo, eng) in (('psa', 'numexpr'), ('nrel', 'numexpr'), ('iqbal', 'numpy')) and mode in (0, 1, 2):
                        s2 = snapshot(r)
                        k = differ(s1, s2)
                        rep.count('C18.reading', 1)
                        if k:
                            rep.violation('C18.reading', '%s/%s %s: reading the result changed %s' % (algo, eng, uc, k),
                                          prog)
    start = int(rng.integers(6))
    for i in range(6):
        uc, et, ela, elo = large(rng, start + i)
        (algo, eng), ref = CONFIGS[int(rng.integers(7))], bool(rng.integers(2))
        mk = lambda: [T(eval(et)).astype('M8[ns]' if i % 2 else 'M8[s]'), eval(ela), eval(elo)]
        x, y = mk(), mk()
        for k, v in enumerate(x):
            if i + k & 1:
                v.flags.writeable = False
        prog = 'import numpy as np, sunwhere\nr = sunwhere.%s(%s.astype("M8[s]"), %s, %s, algorithm=%r, engine=%r, ' \
            'refraction=%r)\n' % (uc, et, ela, elo, algo, eng, ref)
        rep.count('C18.large', 1)
        r = run(uc, x[0], x[1], x[2], algo, eng, ref)
        s1 = snapshot(r)
        k = differ(s1, snapshot(r))
        if k:
            rep.violation('C18.reading', '%s/%s %s %s: reading the result changed %s' % (
                algo, eng, uc, r.zenith.shape, k), prog)
        k = differ(s1, snapshot(run(uc, y[0], y[1], y[2], algo, eng, ref)))
        if k:
            rep.violation('C18.repeat', '%s/%s %s %s: the same call again gives another %s' % (
                algo, eng, uc, r.zenith.shape, k), prog)
        for nm, a, b in zip(('times', 'latitude', 'longitude'), x, mk()):
            if a.dtype != b.dtype or a.shape != b.shape or not (a == b).all():
                rep.violation('C18.inputs', '%s/%s %s %s: the call changed its %s' % (
                    algo, eng, uc, r.zenith.shape, nm), prog)
    many_calls(rep, rng, scale)
    at_the_same_time(rep, rng, scale)
    similar_calls(rep, rng, scale)
    conversions_no_trace(rep, rng)
    reading_orders(rep, rng, scale)
    one_change(rep, rng, scale)
    # 3. repeated and interleaved calls
    calls = []
    base_t = epoch('2024-06-01') + 3600 * np.arange(24)
    alt_t = base_t.copy()
    alt_t[1:-1] = rng.permutation(base_t[1:-1])                      # same ends, same sum
    la1, lo1 = np.linspace(-60, 60, 24), np.linspace(-170, 170, 24)
    la2 = np.r_[la1[0], la1[1:-1][::-1], la1[-1]]
    lo2 = np.r_[lo1[0], lo1[1:-1][::-1], lo1[-1]]
    for algo, eng in CONFIGS:
        for uc in USECASES:
            for ref in (False, True):
                for t, la, lo in ((base_t, la1, lo1), (alt_t, la1, lo1), (base_t, la2, lo1), (base_t, la1, lo2),
                                  (base_t + DAY * 366, la1, lo1), (base_t, -la1, lo1), (base_t[:1], la1[:1], lo1[:1])):
                    if uc == 'regular_grid':
                        la, lo = la[:5], lo[-4:]
                    calls.append((uc, t, la, lo, algo, eng, ref))
    order = rng.permutation(len(calls))
    first, objs = {}, {}
    for i in order:
        r = run(*calls[i])
        first[i] = vals(r)
        if i % 5 == 0:
            objs[i] = r
    for i in rng.permutation(len(calls)):
        v = vals(run(*calls[i]))
        rep.count('C18.repeated', 1)
        for k in v:
            if not same(v[k], first[i][k]).all():
                rep.violation('C18.repeated', '%s of the same call differs when repeated: %s' % (k, calls[i][0:1] + calls[i][4:]),
                              program(*calls[i]))
    for i, r in objs.items():
        v = vals(r)
        for k in v:
            if not same(v[k], first[i][k]).all():
                rep.violation('C18.earlier-result', '%s of an earlier result changed after later calls: %s' % (
                    k, calls[i][0:1] + calls[i][4:]), program(*calls[i]))
    # against scattered single points (a wrong cached value would repeat)
    from .mon_core import point_ref
    for i in rng.permutation(len(calls))[:80 * scale]:
        uc, t, la, lo, algo, eng, ref = calls[i]
        pts = flat_points(uc, t, la, lo)
        w = point_ref(algo, eng, ref, *[x[::-1] for x in pts], chunk=61)
        g = {k: np.ascontiguousarray(x).ravel() for k, x in expand(uc, first[i], len(t), len(la), len(lo)).items()}
        rep.count('C18.history', len(pts[0]))
        for k in g:
            d = circ(g[k], w[k][::-1]) if k == 'azimuth' else np.abs(g[k] - w[k][::-1])
            if not np.nanmax(d) < 1e-5:
                rep.violation('C18.history', '%s of %s depends on earlier calls (differs by %g from the points computed '
                              'one by one)' % (k, calls[i][0:1] + calls[i][4:], np.nanmax(d)), program(*calls[i]))
    # the same array objects with new contents
    a, b, c = T(base_t), la1.copy(), lo1.copy()
    for algo, eng in CONFIGS:
        for uc in ('sites', 'transect', 'regular_grid'):
            run(uc, a, b, c, algo, eng, False)
            a2, b2, c2 = T(alt_t + 777), la2, lo2
            a[:], b[:], c[:] = a2, b2, c2
            g = vals(run(uc, a, b, c, algo, eng, False))
            w = vals(run(uc, a2.copy(), b2.copy(), c2.copy(), algo, eng, False))
            rep.count('C18.same-objects', 1)
            for k in g:
                if not same(g[k], w[k]).all():
                    rep.violation('C18.same-objects', '%s/%s %s: %s for arrays with new contents is that of the old ones'
                                  % (algo, eng, uc, k), program(uc, a, b, c, algo, eng, False))
            a[:], b[:], c[:] = T(base_t), la1, lo1
            # results keep their values when the inputs change afterwards
            r = run(uc, a, b, c, algo, eng, False)
            s1 = snapshot(r)
            a[:], b[:], c[:] = a2, b2, c2
            k = differ(s1, snapshot(r))
            if k:
                rep.violation('C18.aliasing', '%s/%s %s: changing the input arrays after the call changes %s of the result'
                              % (algo, eng, uc, k), program(uc, T(base_t), la1, lo1, algo, eng, False))
            a[:], b[:], c[:] = T(base_t), la1, lo1
    fresh_process(rep, rng, calls, first, 6 * scale)


def one_change(rep, rng, scale):
    """calls that differ in one argument from an earlier one, against single points"""
    from .mon_core import point_ref
    for rnd in range(2 * scale):
        for algo, eng in CONFIGS:
            for uc in USECASES:
                n = int(rng.integers(2, 7))
                t, la, lo = [x[rng.permutation(48)[:n]] for x in points(rng, 48)]
                base = [t, la, lo, bool(rng.integers(2))]
                variants = [base]
                for q in range(4):
                    v = list(base)
                    if q == 0:
                        v[0] = t.copy()
                        v[0][1:-1 if n > 2 else None] += 1800
                    elif q == 1:
                        v[1] = -la
                    elif q == 2:
                        v[2] = np.where(lo < 0, lo + 170., lo - 170.)
                    else:
                        v[3] = not base[3]
                    variants.append(v)
                if rnd % 2:
                    variants = [variants[i] for i in rng.permutation(5)]
                for v in variants + variants[:1]:
                    pts = flat_points(uc, *v[:3])
                    g = {k: np.ascontiguousarray(x).ravel() for k, x in expand(
                        uc, vals(run(uc, *v[:3], algo, eng, v[3])), n, n, n).items()}
                    w = point_ref(algo, eng, v[3], *pts, chunk=61)
                    rep.count('C18.one-change', len(pts[0]))
                    for k in g:
                        d = circ(g[k], w[k]) if k == 'azimuth' else np.abs(g[k] - w[k])
                        sane = np.sin(np.radians(w['zenith'])) > 1e-3 if k == 'azimuth' else np.abs(w['zenith'] - 90.8333) > 2e-4
                        if not (d[sane] < 1e-5).all():
                            rep.violation('C18.one-change', '%s/%s %s refraction=%s: %s depends on an earlier call that '
                                          'differs in one argument (differs by %g from the points computed one by one)' % (
                                              algo, eng, uc, v[3], k, np.nanmax(d)),
                                          program(uc, *base[:3], algo, eng, base[3]) + program(uc, *v[:3], algo, eng, v[3]))


def similar_calls(rep, rng, scale):
    """calls much alike (the same sizes, ends, extremes, sums, sets of values; almost the same values; the same arrays
    with other contents) one after another, against single points"""
    from .mon_core import point_ref

    def alike(x, k, rng):
        """x changed inside: the ends are kept"""
        x, n = x.copy(), len(x)
        if n < 4:
            return x[::-1].copy()
        m = 1 if n < 100 else n // 4
        i, j = sorted(m + rng.permutation(n - 2 * m)[:2])
        tiny = 1 if x.dtype.kind == 'i' else 1e-3 * (1 if x[i] < 0 else -1)
        if k == 0:                      # the same set of values
            x[[i, j]] = x[[j, i]]
        elif k == 1:
            x[m:-m] = x[m:-m][::-1]
        elif k == 2:                    # the same sum
            x[i], x[j] = x[i] + tiny, x[j] - tiny
        elif k == 3:                    # almost the same
            x[n // 2:-m] += tiny
        elif k == 4:
            x[(n + 1) // 2] += tiny
        else:
            x[m:-m] = np.roll(x[m:-m], 1)
        return x

    def more(r):
        out = {'cosz': r.cosz, 'elevation': r.elevation, 'eth': r.eth(), 'airmass': r.airmass(),
               'incidence': r.incidence(20., 30.), 'tst': r.true_solar_time, 'sunrise': r.sunrise('deg')}
        return {k: spread(r, k, x).astype('M8[ns]').astype('i8') if k == 'tst' else spread(r, k, x) for k, x in out.items()}

    for ci, (algo, eng) in enumerate(CONFIGS):
        for ui, uc in enumerate(USECASES):
            for n in [6, 45, 2600] + [30011] * (ci % 3 == ui and algo != 'nrel') + [2600] * (scale - 1):
                K, J, I = (n, n, n) if uc == 'transect' else (n, 6, 6) if rng.random() < .5 else (5, n, n)
                if uc == 'regular_grid' and K == 5:
                    J, I = (n, 6) if rng.random() < .5 else (6, n)
                t, la, lo = points(rng, max(48, n))
                o = rng.permutation(len(t))
                base = [t[o][:K], np.clip(la[rng.permutation(len(t))], -89.9, 89.9)[:J], np.clip(lo[o], -179.9, 179.9)[:I]]
                calls = [(base, True)]
                for k in rng.permutation(6)[:4 if n < 10000 else 3]:
                    v = list(base)
                    for w in ([0], [1], [2], [1, 2])[int(rng.integers(4))] if uc != 'transect' else [int(rng.integers(3))]:
                        v[w] = alike(v[w], k, rng)
                    calls.append((v, True))
                if n < 10000:
                    calls += [(base, False), (base, True)]
                hold = [T(base[0]).astype('M8[ns]'), base[1].copy(), base[2].copy()]
                inplace = rng.random() < .5
                prev, got = base, []
                for v, ref in calls:
                    if inplace:                     # the same arrays, with other contents
                        hold[0][:], hold[1][:], hold[2][:] = T(v[0]), v[1], v[2]
                        args = hold
                    else:
                        args = [T(v[0]), v[1], v[2]]
                    r = run(uc, *args, algo, eng, ref)
                    g = {k: np.ascontiguousarray(x) for k, x in expand(uc, vals(r), K, J, I).items()}
                    g.update(more(r))
                    # where this call differs from the one before, and anywhere
                    df = [np.flatnonzero(a != b) for a, b in zip(v, prev)]
                    pk = []
                    for q in range(24):
                        c = [int(rng.choice(d)) if len(d) and q < 18 else int(rng.integers(m)) for d, m in zip(df, (K, J, I))]
                        if uc == 'sites':
                            c[2] = c[1] = c[1 + (not len(df[1]))]
                        elif uc == 'transect':
                            c = [c[[len(d) > 0 for d in df].index(True) if any(map(len, df)) else 0]] * 3
                        pk.append(c)
                    pk = np.array(pk).T
                    ix = {'transect': (pk[0],), 'sites': (pk[0], pk[1]), 'regular_grid': tuple(pk)}[uc]
                    got.append((v, ref, pk, ix, {k: x[ix] for k, x in g.items()}))
                    prev = v
                # only now the references: no other call comes between
                for v, ref, pk, ix, g in got:
                    pts = v[0][pk[0]], v[1][pk[1]], v[2][pk[2]]
                    w = point_ref(algo, eng, ref, *pts, chunk=7)
                    parts = [more(run('transect', *[c[q:q + 5] for c in pts], algo, eng, ref)) for q in range(0, 24, 5)]
                    w.update({k: np.concatenate([c[k] for c in parts]) for k in parts[0]})
                    ok = {'azimuth': np.sin(np.radians(w['zenith'])) > 1e-2, 'airmass': np.abs(w['zenith'] - 90.) > 1e-3,
                          'sunrise': np.sin(np.radians(np.nan_to_num(w['sunrise']))) > 1e-2}
                    rep.count('C18.similar', pk.shape[1])
                    for k in g:
                        x = g[k]
                        d = circ(x, w[k]) if k == 'azimuth' else np.abs(x - w[k])
                        sane = ok.get(k, True) & (np.abs(w['zenith'] - 90.8333) > 2e-4)
                        tol = {'eth': 1e-2, 'tst': 1e5, 'airmass': 1e-3, 'sunrise': 1e-4}.get(k, 1e-5)
                        bad = sane & ~((d < tol) | (np.isnan(x) & np.isnan(w[k])))
                        if bad.any():
                            i = int(np.argmax(bad))
                            p = program(uc, *base, algo, eng, True) + program(uc, *v, algo, eng, ref) if n < 3000 else None
                            rep.violation('C18.similar', '%s/%s %s (K=%d J=%d I=%d) refraction=%s: %s%s is %r after a similar '
                                          'call (%s), but %r computed alone' % (
                                              algo, eng, uc, K, J, I, ref, k, [int(c[i]) for c in ix], float(x[i]),
                                              'the same arrays with other contents' if inplace else 'other arrays',
                                              float(w[k][i])), p)
                            return


def many_calls(rep, rng, scale):
    """thousands of small calls, some again, against one call for all of them"""
    n = 2000 * scale
    t, la, lo = points(rng, n)
    o = rng.permutation(len(t))[:n]
    t, la, lo = t[o], np.clip(la[o], -89.9, 89.9), np.clip(lo[o], -179.9, 179.9)
    n = len(t)
    cfg = np.where(rng.random(n) < .6, 0, rng.integers(0, 7, n))
    ref = rng.random(n) < .8
    first = rng.random(n) < .15        # the same once more, much later
    order = np.r_[np.arange(n), np.flatnonzero(first)]
    slope, gamma = rng.choice([0., 20., 35., 90.], n), rng.choice([-90., 0., 30.], n)
    more = rng.random(n) < .3

    def extra(r, i):
        e = {'elevation': r.elevation, 'cosz': r.cosz, 'eth': r.eth(), 'incidence': r.incidence(slope[i], gamma[i]),
             'tst': r.true_solar_time, 'sunrise': r.sunrise('deg')}
        return {k: x.values.astype('i8').ravel()[0] if k == 'tst' else float(x.values.ravel()[0]) for k, x in e.items()}
    got, got2 = {k: np.full(len(order), np.nan) for k in LOC + TIME}, {}
    def failing(uc):
        """calls that fail, or whose input is missing"""
        k, x = int(rng.integers(8)), [T(t[:2]), la[:2].copy(), lo[:2].copy()]
        alg = dict(algorithm=CONFIGS[int(rng.integers(7))][0], engine=CONFIGS[int(rng.integers(7))][1])
        if k == 0:
            x[1][0] = 91.
        elif k == 1:
            x[2][1] = 180.
        elif k == 2:
            x[1] = x[1][:1]
        elif k == 3:
            alg['algorithm'] = 'none'
        elif k == 4:
            alg['engine'] = 'none'
        elif k == 5:
            x[0][:] = 'NaT'
        elif k == 6:
            x[1][:] = np.nan
        elif k == 7:
            x[0] = ['yesterday week']
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                r = getattr(sw(), uc)(*x, refraction=bool(rng.integers(2)), **alg)
            for f in (lambda: r.airmass('none'), lambda: r.eth(1361., 'none'), lambda: r.sunrise('none'), lambda: r.sunset('none'),
                      lambda: r.incidence('a', 'b')):
                try:
                    f()
                except Exception:
                    pass
        except Exception:
            pass
    for q, i in enumerate(order):
        uc = USECASES[int(rng.integers(3))]
        if q % 16 == 0:
            failing(uc)
        r = run(uc, T(t[i:i + 1]), la[i:i + 1], lo[i:i + 1], *CONFIGS[cfg[i]], bool(ref[i]))
        for k in got:
            got[k][q] = getattr(r, k).values.ravel()[0]
        if more[i]:
            got2[q] = extra(r, i)
    want = {k: np.full(n, np.nan) for k in got}
    want2 = {}
    for j in range(7):
        for f in (False, True):
            m = np.flatnonzero((cfg == j) & (ref == f))
            if not len(m):
                continue
            r = run('transect', T(t[m]), la[m], lo[m], *CONFIGS[j], f)
            for k in want:
                want[k][m] = getattr(r, k).values
            x = {'elevation': r.elevation, 'cosz': r.cosz, 'eth': r.eth(), 'tst': r.true_solar_time, 'sunrise': r.sunrise('deg')}
            x = {k: v.values.astype('i8') if k == 'tst' else v.values for k, v in x.items()}
            for b, i in enumerate(m):
                want2[i] = {k: v[b] for k, v in x.items()}
            for sl in np.unique(slope[m]):
                for g in np.unique(gamma[m]):
                    v = r.incidence(sl, g).values
                    for b in np.flatnonzero((slope[m] == sl) & (gamma[m] == g)):
                        want2[m[b]]['incidence'] = v[b]
    from sunwhere.utils import datetime as ud
    x = t[:n // 2]
    one = np.array([ud.true_solar_time(T(x[i:i + 1]), lo[i]) for i in range(len(x))], 'M8[ns]').astype('i8').ravel()
    z = np.asarray(ud.true_solar_time(T(x), 0.), 'M8[ns]').astype('i8') + (lo[:n // 2] * 240e9).astype('i8')
    rep.count('C18.many', len(order) + len(x))
    for i in np.flatnonzero(~(np.abs(one - z) <= 10**6))[:1]:
        rep.violation('C18.many', 'true_solar_time depends on the calls made before: call %d' % i, 'import numpy as np\nfrom '
                      'sunwhere.utils import datetime as d\nprint(d.true_solar_time(%s, %r))\n' % (lit(T(x[i:i + 1])), lo[i]))
    w = {k: v[order] for k, v in want.items()}
    d = angdist(got['zenith'], got['azimuth'], w['zenith'], w['azimuth'])
    bad = ~(d <= 1e-5) | ~(np.abs(got['zenith'] - w['zenith']) <= 1e-6)
    for k in TIME:
        bad |= ~(np.abs(got[k] - w[k]) <= 1e-7)
    for q, e in got2.items():
        for k, x in e.items():
            y = want2[order[q]].get(k)
            if y is None or x != x and y != y:
                continue
            if not abs(int(x) - int(y)) <= 10**6 if k == 'tst' else not abs(x - y) <= 1e-5 * max(1., abs(y)):
                bad[q] = True
    for q in np.flatnonzero(bad)[:1]:
        i = order[q]
        al, en = CONFIGS[cfg[i]]
        rep.violation('C18.many', 'the result of a call depends on those made before: call %d, %s/%s' % (q, al, en), program(
            'sites', T(t[i:i + 1]), la[i:i + 1], lo[i:i + 1], al, en, bool(ref[i])))


def at_the_same_time(rep, rng, scale):
    """calls in several threads give what they give one after another"""
    from concurrent.futures import ThreadPoolExecutor
    calls = []
    for q in range(14):
        (algo, eng), uc, K = CONFIGS[q % 7], USECASES[int(rng.integers(3))], int(rng.choice([24, 240]))
        t, la, lo = points(rng, K)
        if uc == 'regular_grid':
            la, lo = la[:12], lo[:12]
        calls.append((uc, T(t), la, lo, algo, eng, bool(q // 7)))
    want = [vals(run(*c)) for c in calls]

    def one(q):
        try:
            return q, vals(run(*calls[q]))
        except Exception:
            return q, None
    with ThreadPoolExecutor(4) as ex:
        for q, v in ex.map(one, [int(x) for x in rng.integers(0, len(calls), 84 * scale)]):
            rep.count('C18.threads', 1)
            k = None if v is None else next((k for k in v if v[k].shape != want[q][k].shape or not same(
                v[k], want[q][k]).all()), None)
            if k:
                uc, t, la, lo, algo, eng, ref = calls[q]
                rep.violation('C18.threads', '%s/%s %s refraction=%s gives another %s while other calls run in other '
                              'threads' % (algo, eng, uc, ref, k), program(uc, t, la, lo, algo, eng, ref))
                return


def conversions_no_trace(rep, rng):
    """the conversions change none of their arguments and give the same again"""
    import pandas as pd
    from sunwhere.utils import datetime as ud
    fs = {'true_solar_time': ud.true_solar_time, 'universal_time_coordinated': sw().universal_time_coordinated}
    for q in range(6):
        K, I = [(2600, 2), (2, 2600), (60, 60)][q % 3]
        t, lo = rand_t(rng, K), rng.uniform(-180, 179.9, I)
        got = []
        for v in range(4):
            if v and (K > 9 or I < 9) and q % 2 == 0:
                t = t.copy()
                m = max(1, K // 4)
                t[m:-m] = np.roll(t[m:-m], 1) + 3600
            elif v:
                lo = lo.copy()
                lo[1:-1] = np.roll(lo[1:-1], 1)
            got += [(nm, t, lo, np.asarray(f(T(t).astype('M8[ns]'), lo)).reshape(K, I)) for nm, f in fs.items()]
        for nm, t, lo, x in got:
            rep.count('C18.conversions', 1)
            for k, i in zip(rng.integers(0, K, 5), rng.integers(0, I, 5)):
                y = np.asarray(fs[nm](T(t[k:k + 1]), lo[i:i + 1]))
                if not abs(float((x[k, i] - y) / np.timedelta64(1, 'ns'))) < 1e6:
                    rep.violation('C18.conversion-similar', '%s: [%d, %d] of %d times and %d longitudes is %s after a similar '
                                  'call, but %s alone (%s, %r)' % (nm, k, i, K, I, x[k, i], y, T(t[k]), float(lo[i])), None)
    for q in range(12):
        K, I = [(5, 4), (1, 3), (6, 1), (1, 1), (4, 4), (130, 120)][q % 6]
        t = rand_t(rng, K)
        lo = rng.uniform(-180, 179.9, I)
        for form in range(4):
            for nm, f in fs.items():
                a = [T(t).astype('M8[ns]'), T(t), pd.DatetimeIndex(T(t)), list(T(t))][form]
                b = [lo.copy(), list(lo), lo.copy(), lo.astype('f4')][form]
                keep = np.array(a), np.array(b)
                x = np.array(f(a, b))
                y0 = np.array(fs['universal_time_coordinated'](T(t)[::-1], lo[::-1]))
                y = np.array(f(a, b))
                rep.count('C18.conversions', 1)
                prog = ('import numpy as np, sunwhere\nfrom sunwhere.utils.datetime import *\nt = %s\nlon = %s\n'
                        'print(%s(t, lon), t, lon)\nprint(%s(t, lon))\n' % (lit(T(t)), lit(lo), nm, nm))
                if not ((np.array(a) == keep[0]).all() and (np.array(b) == keep[1]).all()):
                    rep.violation('C18.conversion-inputs', '%s changed its arguments' % nm, prog)
                if x.shape != y.shape or not same(x, y).all():
                    rep.violation('C18.conversion-repeated', '%s gives another result when repeated' % nm, prog)
                if form == 0:
                    for z in (a, b):
                        z.flags.writeable = False
                    try:
                        y = np.array(f(a, b))
                        if not same(x, y).all():
                            rep.violation('C18.conversion-repeated', '%s gives another result when repeated' % nm, prog)
                    except Exception as e:
                        rep.violation('C18.conversion-inputs', '%s with read-only arguments: %s: %s' % (
                            nm, type(e).__name__, e), prog)


def reading_orders(rep, rng, scale):
    """each quantity of a fresh result, read after each other one, and twice"""
    import pandas as pd
    t, la, lo = points(rng, 48)
    for uc, algo, eng, ref in (('sites', 'psa', 'numexpr', True), ('regular_grid', 'nrel', 'numexpr', True),
                               ('transect', 'iqbal', 'numpy', False)):
        n = 6
        tt = T(t[:n]).astype('M8[ns]') + np.arange(n) * np.timedelta64(123456789, 'ns')
        zone = {'sites': 'Europe/Madrid', 'regular_grid': None, 'transect': 'UTC'}[uc]
        if zone:
            tt = pd.DatetimeIndex(tt).tz_localize('UTC').tz_convert(zone)
        mk = lambda: run(uc, tt, la[:n], lo[:n], algo, eng, ref)
        acc = {'zenith': lambda r: r.zenith, 'azimuth': lambda r: r.azimuth, 'declination': lambda r: r.declination,
               'eot': lambda r: r.eot, 'ecf': lambda r: r.ecf, 'elevation': lambda r: r.elevation,
               'cosz': lambda r: r.cosz, 'sza': lambda r: r.sza, 'saa': lambda r: r.saa, 'dec': lambda r: r.dec,
               'latitude': lambda r: r.latitude, 'longitude': lambda r: r.longitude,
               'true_solar_time': lambda r: r.true_solar_time, 'eth()': lambda r: r.eth(),
               'eth(perez)': lambda r: r.eth(am_correction='perez_1990'),
               'eth(skartveit)': lambda r: r.eth(am_correction='skarveith_1998'),
               'eth(gonzalez)': lambda r: r.eth(1000., 'gonzalez_and_calbo_1999'),
               'incidence(30,20)': lambda r: r.incidence(30., 20.), 'incidence(0,0)': lambda r: r.incidence(0., 0.),
               'daylight_length': lambda r: r.daylight_length(), 'local_standard_time': lambda r: r.local_standard_time,
               'times': lambda r: r.times, 'times_utc': lambda r: r.times_utc,
               'incidence(120,-50)': lambda r: r.incidence(120., -50.), 'incidence(-20,400)': lambda r: r.incidence(-20., 400.),
               'timezone': lambda r: r.timezone, 'the other attributes': lambda r: str(
                   (r.usecase, r.algorithm, r.engine, r.has_refraction, str(r.times.tz), str(r.times_utc.tz))),
               'names and attributes': lambda r: str([(x.name, x.dims, sorted(x.coords), sorted(x.attrs.items())) for x in (
                   r.zenith, r.azimuth, r.declination, r.eot, r.ecf, r.latitude, r.longitude, r.true_solar_time)])}
        for p in PARS:
            acc['airmass(%s)' % p] = lambda r, p=p: r.airmass(p)
        for u in ('deg', 'rad', 'tst', 'utc', 'local'):
            acc['sunrise(%s)' % u] = lambda r, u=u: r.sunrise(u)
            acc['sunset(%s)' % u] = lambda r, u=u: r.sunset(u)

        def failed(f):
            def g(r):
                try:
                    f(r)
                except Exception as e:
                    return type(e).__name__
                return 'returned'
            return g
        acc.update({'airmass(none)': failed(lambda r: r.airmass('none')), 'eth(none)': failed(lambda r: r.eth(1., 'none')),
                    'sunrise(none)': failed(lambda r: r.sunrise('none')), 'sunset(none)': failed(lambda r: r.sunset('none')),
                    'incidence(None)': failed(lambda r: r.incidence(None, None))})

        def v(x):
            return np.array(x.values if hasattr(x, 'dims') else x if isinstance(x, str) else x.tz_localize(None))
        ref_v = {k: v(f(mk())) for k, f in acc.items()}
        keys = list(acc)
        for k in keys:
            r = mk()
            acc[k](r)
            for q in [k] + keys:
                x = v(acc[q](r))
                rep.count('C18.reading-orders', 1)
                y = ref_v[q]
                if x.shape != y.shape or not (x == y if x.dtype.kind == 'U' else same(x, y)).all():
                    rep.violation('C18.reading-orders', '%s/%s %s: %s read after %s differs from %s read from a fresh '
                                  'result' % (algo, eng, uc, q, k, q),
                                  program(uc, t[:n], la[:n], lo[:n], algo, eng, ref))
                    break


def fresh_process(rep, rng, calls, first, n):
    """the same calls, alone, in new processes"""
    import json
    code = ('import sys, json; sys.path[:0] = [%r]\nfrom vf.common import *\n'
            'j = json.load(open(sys.argv[1]))\n'
            'r = run(j[0], T(np.array(j[1])), np.array(j[2]), np.array(j[3]), *j[4:])\n'
            'print(json.dumps({k: v.ravel().tolist() for k, v in vals(r).items()}))\n') % os.path.dirname(
                os.path.dirname(os.path.abspath(__file__)))
    procs = []
    with tempfile.TemporaryDirectory() as d:
        for q, i in enumerate(rng.permutation(len(calls))[:n]):
            c = calls[i]
            f = os.path.join(d, '%d.json' % q)
            with open(f, 'w') as h:
                json.dump([c[0]] + [x.tolist() for x in c[1:4]] + list(c[4:]), h)
            procs.append((i, subprocess.Popen([sys.executable, '-c', code, f], stdout=subprocess.PIPE,
                                              stderr=subprocess.PIPE, text=True, cwd=d)))
        for i, p in procs:
            out, err = p.communicate(timeout=300)
            if p.returncode:
                continue
            v = json.loads(out)
            rep.count('C18.fresh-process', 1)
            for k in v:
                x = np.array(v[k], float)
                if not same(x, first[i][k].ravel()).all():
                    rep.violation('C18.fresh-process', '%s of %s differs from the same call alone in a new process' % (
                        k, calls[i][0:1] + calls[i][4:]), program(*calls[i]))


def cli(args):
    from typer.testing import CliRunner
    from sunwhere._cli.main import app
    return CliRunner().invoke(app, args)


def table(text):
    out = {}
    for line in text.splitlines():
        p = [x.strip() for x in line.split('║') for x in x.split('│')]
        p = [x for x in p if x]
        if len(p) == 2:
            out[p[0]] = p[1]
    return out


def m_C19(rep, rng, scale=1):
    import pandas as pd
    import typer  # noqa: F401
    cases = []
    times = ['2024-06-21T12:00:00', '2024-12-21 23:59:59', '2024-02-29T00:00:00', '2023-04-15T03:00', '2024-09-01T12:00',
             '2020-06-13 08:30:15', '2025-12-24T18:00', '1999-07-04', '2049-10-31 05:06:07', '2024-12-25T12:00:00',
             '2024-06-13T00:10', '2024-04-15T14:00']
    lats = ['36.949N', '33.5S', '0N', '0S', '90N', '90S', '78.2n', '78.2s', '51.4779N', '0.25S', '66.6N']
    lons = ['3.822W', '70.6E', '0E', '0W', '180W', '179.99E', '15.65e', '100.5w', '0.5W', '179.5W']
    zones = ['UTC', 'Europe/Madrid', 'Asia/Kolkata', 'America/New_York', 'Australia/Adelaide', 'Etc/GMT-3',
             'Pacific/Auckland']
    for i in range(70 * scale):
        t = times[i % len(times)] if i < 24 else str(np.datetime64(int(rand_t(rng, 1, '1950-01-01')[0]), 's'))
        la = lats[int(rng.integers(len(lats)))] if i % 3 else '%.4f%s' % (rng.uniform(0, 90), rng.choice(list('NSns')))
        lo = lons[int(rng.integers(len(lons)))] if i % 3 else '%.4f%s' % (rng.uniform(0, 179.9), rng.choice(list('EWew')))
        z = zones[int(rng.integers(len(zones)))] if i % 4 else 'UTC'
        a = ['psa', 'nrel', 'soltrack', 'iqbal'][i % 4] if i % 5 else None
        ref = [None, True, False][i % 3]
        cases.append((t, la, lo, z, a, ref))
    # the days of the changes of the UTC offset, in the middle of the day as in its first and last hours
    for z in zones[1:]:
        year = int(rng.integers(1985, 2040))
        day = pd.date_range('%d-01-01' % year, periods=366, freq='D')
        off = [d.tz_localize(z, ambiguous=True, nonexistent='shift_forward').utcoffset() for d in day]
        for d in [d for d, x, y in zip(day, off, off[1:]) if x != y]:
            for h in ('00:20', '01:10', '01:50', '12:00', '23:40'):
                la = '%.3f%s' % (rng.uniform(0, 60), rng.choice(list('NS')))
                lo = '%.3f%s' % (rng.uniform(0, 40), rng.choice(list('EW')))
                cases.append(('%sT%s' % (d.date(), h), la, lo, z, [None, 'nrel'][int(rng.integers(2))], None))
    for t, la, lo, z, a, ref in cases:
        args = ['at', t, la, lo]
        if z != 'UTC' or rng.integers(2):
            args += [['-z', '--timezone'][int(rng.integers(2))], z]
        if a:
            args += [['-a', '--algorithm'][int(rng.integers(2))], a]
        if ref is not None:
            args.append('--refraction' if ref else '--no-refraction')
        try:
            ts = pd.Timestamp(t).tz_localize(z)
        except Exception:
            continue                       # an ambiguous or inexistent local time
        flat = float(la[:-1]) * (1 if la[-1] in 'Nn' else -1)
        flon = float(lo[:-1]) * (1 if lo[-1] in 'Ee' else -1)
        prog = 'import sunwhere._cli.main as m\nfrom typer.testing import CliRunner\nprint(CliRunner().invoke(m.app, %r).output)\n' % (
            args,)
        res = cli(args)
        rep.count('C19.at', 1, args)

        def fail(what, txt):
            rep.violation('C19.' + what, '%s: %s' % (' '.join(args), txt), prog)
        if res.exit_code != 0:
            fail('runs', 'exit code %d: %s %r' % (res.exit_code, res.output[:200], res.exception))
            continue
        tab = table(res.output)
        r = sw().sites(ts, flat, flon, algorithm=a or 'psa', refraction=True if ref is None else ref)

        def num(s):
            return float(s.replace('°', '').replace('AU', ''))
        g = lambda k: [v for q, v in tab.items() if q.startswith(k)]
        want = {'Latitude': (flat, 1e-4), 'Longitude': (flon, 1e-4), 'Declination': (r.declination.values[0], 1e-4),
                'Sun-Earth distance': (r.ecf.values[0]**-.5, 1e-4), 'Zenith': (r.zenith.values[0, 0], 1e-4),
                'Elevation': (90 - r.zenith.values[0, 0], 1e-4), 'Azimuth': (r.azimuth.values[0, 0], 1e-4)}
        for k, (w, tol) in want.items():
            x = g(k)
            if len(x) != 1:
                fail('fields', 'no field %s in %s' % (k, tab))
                continue
            d = circ(num(x[0]), w) if k == 'Azimuth' else abs(num(x[0]) - w)
            if not d <= tol:
                fail(k.lower(), '%s is %s, the library computes %r' % (k, x[0], float(w)))
        x = g('Equation of time')
        if len(x) != 1:
            fail('fields', 'no equation of time')
        else:
            q = x[0].replace('min', '').strip()
            sgn = -1 if q.startswith('-') else 1
            mm, ss = q.lstrip('-').split(':')
            e = sgn * (int(mm) + float(ss) / 60)
            if abs(e - r.eot.values[0]) > 0.06 / 60 + 1e-6:
                fail('eot', 'equation of time is %s, the library computes %r min' % (x[0], float(r.eot.values[0])))
        for f in ('Sunrise', 'Sunset'):
            for u, tag in (('utc', 'UTC'), ('local', z)):
                k = '%s(%s)' % (f, tag)
                w = getattr(r, f.lower())('utc' if tag == 'UTC' and z == 'UTC' else u).values.reshape(-1)[0]
                if k not in tab:
                    fail('fields', 'no field %s in %s' % (k, sorted(tab)))
                    continue
                if np.isnat(w):
                    if any(c.isdigit() for c in tab[k]):
                        fail('sun-times', '%s is %s in the polar day or night' % (k, tab[k]))
                else:
                    s = w.astype('M8[s]').astype('i8') % DAY
                    try:
                        h, mi, se = [int(q) for q in tab[k].split(':')]
                    except ValueError:
                        fail('sun-times', '%s is %r' % (k, tab[k]))
                        continue
                    d = circ(h * 3600 + mi * 60 + se, s, DAY)
                    if d > 1:
                        fail('sun-times', '%s is %s, the library computes %s' % (k, tab[k], w))
        x = g('Time')
        if x and not x[0].startswith(ts.strftime('%H:%M:%S')):
            fail('time', 'time is %s' % x[0])
    now_in_zone(rep)
    for la, lo in (('90.001N', '0E'), ('91S', '0E'), ('10N', '180E'), ('10N', '180.01W'), ('10N', '181E'), ('10N', '360W'),
                   ('10', '0E'), ('10N', '0'), ('10X', '0E'), ('10N', '0N'), ('10E', '0E'), ('N', 'E'), ('10N', '0S'),
                   ('180N', '0E'), ('100S', '10W'), ('10W', '10E'), ('1e3N', '0E'), ('nanN', '0E'), ('10N', 'nanE'),
                   ('-91N', '0E'), ('-90.5S', '0E'), ('10N', '-180W')):
        if 'nan' in la + lo:
            continue
        args = ['at', '2024-06-21T12:00:00', '--', la, lo]
        res = cli(args)
        rep.count('C19.rejects', 1)
        if res.exit_code == 0:
            rep.violation('C19.rejects', '%s is accepted: %s' % (' '.join(args), res.output[:200]),
                          'import sunwhere._cli.main as m\nfrom typer.testing import CliRunner\n'
                          'print(CliRunner().invoke(m.app, %r).output)\n' % (args,))
    import string
    for c in string.ascii_letters + string.punctuation + '°5':
        for la, lo, known in (('10' + c, '20E', 'nsNS'), ('10N', '20' + c, 'ewEW')):
            if c in known:
                continue
            args = ['at', '2024-06-21T12:00:00', '--', la, lo]
            rep.count('C19.rejects', 1)
            if cli(args).exit_code == 0:
                rep.violation('C19.rejects', '%s is accepted' % ' '.join(args),
                              'import sunwhere._cli.main as m\nfrom typer.testing import CliRunner\n'
                              'print(CliRunner().invoke(m.app, %r).output)\n' % (args,))
    for args in (['at', '2024-06-21', '10N', '0E', '-a', 'unknown'], ['at', '2024-06-21', '10N', '0E', '-z', 'Mars/X'],
                 ['at', 'not a time', '10N', '0E']):
        res = cli(args)
        rep.count('C19.rejects', 1)
        if res.exit_code == 0:
            rep.violation('C19.rejects', '%s is accepted' % ' '.join(args))


def now_in_zone(rep):
    import subprocess
    import pandas as pd
    prog = ('import sys\nsys.path[:0] = %r\nimport sunwhere._cli.main as m\nfrom typer.testing import CliRunner\n'
            "print(CliRunner().invoke(m.app, ['at', 'now', '10N', '20E', '-z', 'Asia/Kolkata']).output)\n" % ([SRC],))
    for host in ('UTC', 'America/New_York'):
        a = pd.Timestamp.now(tz='Asia/Kolkata')
        r = subprocess.run([sys.executable, '-c', prog], capture_output=True, text=True, timeout=200,
                           env=dict(os.environ, TZ=host))
        b = pd.Timestamp.now(tz='Asia/Kolkata')
        x = table(r.stdout).get('Time', '')
        rep.count('C19.now', 1)
        try:
            h, m, s = [int(q) for q in x.split('(')[0].split(':')]
        except ValueError:
            continue
        sec = h * 3600 + m * 60 + s
        lo = a.hour * 3600 + a.minute * 60 + a.second
        if (sec - lo) % DAY > (b - a).total_seconds() + 2:
            rep.violation('C19.now', "'now' is %s, at %s, on a computer in %s" % (x, a, host), prog)


def m_C20(rep, rng, scale=1):
    rs = list(results(rng, 70 * scale)) + horizon_results(rng, 7)
    nan = []
    for algo, eng in CONFIGS:
        for uc in USECASES:
            t, la, lo = points(rng, 48)
            t, la, lo = T(t[:5]).astype('M8[ns]'), la[-5:].copy(), lo[:5].copy()
            t[2], la[3], lo[4] = 'NaT', np.nan, np.nan
            nan.append((run(uc, t, la, lo, algo, eng, bool(rng.integers(2))),
                        dict(uc=uc, prog=program(uc, t, la, lo, algo, eng, True), what='%s/%s %s with missing values' % (
                            algo, eng, uc))))
    for r, m in rs + nan:
        z = r.zenith.values
        bycmp(rep, 'C20.elevation', m, 'elevation', r.elevation.values, 90. - z, 1e-9)
        bycmp(rep, 'C20.cosz', m, 'cosz', r.cosz.values, np.cos(np.radians(z)), 1e-9)
        bycmp(rep, 'C20.alias', m, 'dec', r.dec.values, r.declination.values, 0)
        bycmp(rep, 'C20.alias', m, 'sza', r.sza.values, z, 0)
        bycmp(rep, 'C20.alias', m, 'saa', r.saa.values, r.azimuth.values, 0)
        a, b = r.local_standard_time, r.times
        rep.count('C20.alias', len(a))
        if len(a) != len(b) or not all(x == y or (x is y) or (x != x and y != y) for x, y in zip(a, b)):
            rep.violation('C20.local_standard_time', m['what'] + ': local_standard_time differs from times', m['prog'])
        for k in ('elevation', 'cosz', 'sza', 'saa', 'dec'):
            x, y = getattr(r, k), {'dec': r.declination}.get(k, r.zenith)
            if x.dims != y.dims:
                rep.violation('C20.dims', '%s: %s has dimensions %s' % (m['what'], k, x.dims), m['prog'])
        # degrees: coarse agreement with the reference algorithm
        if 't' in m:
            t, la, lo = place(r, m)
            w = spa_spec.spa(t, la, lo, False)
            rep.count('C20.degrees', t.size)
            d = angdist(r.zenith.values, r.azimuth.values, w['zenith'], w['azimuth'])
            e = np.abs(spread(r, 'declination', r.declination) - w['declination'])
            k = np.maximum(d, e)
            if not np.nanmax(k) < 4.:
                i = tuple(np.argwhere(k == np.nanmax(k))[0])
                rep.violation('C20.degrees', '%s: zenith=%r azimuth=%r declination at %s are not degrees of the sun\'s '
                              'position (%.4g, %.4g)' % (m['what'], r.zenith.values[i], r.azimuth.values[i], i,
                                                         w['zenith'][i], w['azimuth'][i]), m['prog'])
