"""what double arithmetic does to the quantities derived from a result: obligations over the element terms of a run of
_base.py that keeps every operation of the code (pyded.rounding).  The inputs are the values that the result reports
(doubles); zenith, declination, eot and ecf enter as any double in their ranges."""
import time
import numpy as np
from pyded import terms as tm, rounding as rd, sym, nf
from . import api



def quantities(prop, P):
    s = P.scalar
    return {
        'C12': lambda r: {'true_solar_time': r.true_solar_time},
        'C13': lambda r: dict([('daylight_length', r.daylight_length())] + [
            ('%s(%r)' % (f, u), getattr(r, f)(u)) for f in ('sunrise', 'sunset') for u in ('deg', 'rad', 'tst', 'utc', 'local')]),
        'C14': lambda r: dict([('eth', r.eth(s(P.ISC)))] + [('eth, ' + p, r.eth(s(P.ISC), p)) for p in P.ETH]),
        'C15': lambda r: {p: r.airmass(p) for p in ('kasten_1965', 'kasten_and_young_1989', 'gueymard_2001', 'gueymard_2003')},
        'C16': lambda r: {'incidence': r.incidence(s(P.SLOPE), s(P.GAMMA))},
        'C20': lambda r: {'cosz': r.cosz, 'elevation': r.elevation, 'sza': r.sza, 'azimuth': r.azimuth, 'dec': r.dec},
    }[prop]


def terms_of(prop):
    """[(use case, Case, {quantity: [terms of all the paths]}, term of the true solar time)]"""
    from . import proofs_api as P
    if prop == 'C17':
        return conversions(P)
    q = quantities(prop, P)

    def more(r):
        d = dict(q(r))
        d['tst'] = r.true_solar_time
        return d
    out = []
    old, tm.ONE_BY_ONE[0] = tm.ONE_BY_ONE[0], True
    try:
        for uc in api.DIMS:
            for kind in ('naive array', 'aware index (pytz)'):
                c = P.Case(uc, kind)
                d = {}
                for o in c.run(more):
                    if not isinstance(o.value, tuple) or not isinstance(o.value[2], dict):
                        continue            # the paths of rejected input
                    a, _, v = o.value
                    for k, x in v.items():
                        t = P.strip_nan(c.el(x, a))
                        if t.op != 'nan':
                            d.setdefault(k, {})[t] = None
                tst = list(d.pop('tst', {}))
                out.append((uc, kind, c, {k: list(x) for k, x in d.items()}, tst[0] if len(tst) == 1 else None))
    finally:
        tm.ONE_BY_ONE[0] = old
    return out


def conversions(P):
    out = []
    old, tm.ONE_BY_ONE[0] = tm.ONE_BY_ONE[0], True
    try:
        m = api.world().load('sunwhere.utils.datetime')
        for fn in ('true_solar_time', 'universal_time_coordinated'):
            c, d = P.Case('conversion', 'naive array', P.CFG[0], True, 'scalar', 'array', 'ns'), {}
            c.fn = fn

            def call():
                a = c.last = api.Args('naive array', 'scalar', 'array', unit='ns')
                return a, getattr(m, fn)(a.times, a.lon)
            for o in api.run(call):
                if o.kind == 'raise':
                    continue
                a, r = o.value
                r = sym.asarr(r)
                t = P.squeezed(r, a.K.size, a.I.size, o.pc)
                one = lambda n: [(tm.ZERO,)] if P.implied(o.pc, tm.eq(n.size, tm.ONE)) else []      # noqa: E731
                g = P.strip_nan(P.snap(api.flat(t, {
                    'T': [(api.CANON['time'],)] + one(a.K) + [()], 'LON': [(api.CANON['longitude'],)] + one(a.I) + [()],
                    'LAT': []}, False, sec=c.sec, tns=c.T_ns)))
                if g.op != 'nan':
                    d[g] = None
            out.append((fn, 'naive array', c, {'the instant': list(d)}, None))
    finally:
        tm.ONE_BY_ONE[0] = old
    return out


def st(lo, hi, e=0.):
    lo, hi = np.broadcast_arrays(np.atleast_1d(np.asarray(lo, float)), np.atleast_1d(np.asarray(hi, float)))
    return rd.S((lo, hi), np.full(len(lo), float(e)), (lo - e, hi + e))


def zeniths(top):
    x = np.r_[0., 2.0 ** np.arange(-720, -9), np.linspace(2.0 ** -9, top, 6001)[1:]]
    return st(x[:-1], x[1:])


def spread(given, n):
    """constant states over n boxes"""
    f = lambda x: np.broadcast_to(x, (n,)) if len(x) == 1 else x        # noqa: E731
    return {k: rd.S((f(s.U[0]), f(s.U[1])), f(s.E), (f(s.R[0]), f(s.R[1])), s.P) for k, s in given.items()}


BIG = [0.]      # the largest value met


def errors(t, given):
    n = max(len(s.E) for s in given.values())
    e = rd.Errors(n, spread(given, n))
    r = e.run([t])[0]
    BIG[0] = max([BIG[0]] + [float(np.max(x.M)) for x in e.memo.values() if isinstance(x, rd.S)])
    if r.P:
        raise rd.GiveUp('modulo %g' % r.P)
    return r


Y0, Y1 = (float(np.datetime64(y, 'ns').astype('i8')) for y in ('1700-01-01', '2250-12-31'))


def common(c, tst):
    g = {c.V('eot'): st(-20, 20), api.LON_: st(-180, 180), c.V('ecf'): st(.9, 1.1), c.V('azimuth'): st(-3.2, 3.2),
         c.V('declination'): st(-.42, .42), api.LAT_: st(-90, 90), tm.sym('isc'): st(0, 1),
         tm.sym('slope'): st(0, 180), tm.sym('gamma'): st(-360, 360), api.OFF_: st(-86400e9, 86400e9),
         api.T_: st(Y0, Y1, rd.U0 * max(-Y0, Y1)), c.T_ns: st(Y0, Y1, rd.U0 * max(-Y0, Y1))}
    return g


def bound_zenith(c, t, top, tst):
    g = common(c, tst)
    g[c.V('zenith')] = zeniths(top)
    return float(errors(t, g).E.max())


def hour(c, t, tst):
    """incidence, its true solar time of day being the reported instants less their day: whole nanoseconds"""
    g = common(c, tst)
    days = [x for x in tm.children_first([t]) if tst is not None and x.op == 'floor' and tst in tm.children_first([x])]
    if not days:
        raise rd.GiveUp('no day')
    # tst - floor(tst / day) day, exact in whole numbers: any time of the day
    tod = [x for x in tm.children_first([t]) if x.op == 'add' and tst in x.args and any(
        y.op == 'mul' and days[0] in tm.children_first([y]) for y in x.args)]
    if not tod:
        raise rd.GiveUp('no time of the day')
    g[tod[0]] = st(0, 86400e9)
    return float(errors(t, g).E.max())


def angle(c, t, tst, edge):
    """quantities of sunrise and sunset: two stages, the product of the tangents and what is made of it"""
    arcs = [x for x in tm.children_first([t]) if x.op == 'acos']
    args = {x.args[0] for x in arcs}
    if len(args) != 1:
        raise rd.GiveUp('%d arcs' % len(args))
    x = args.pop()
    lat = np.r_[np.linspace(0, 60, 60), 90 - np.geomspace(30, .1, 300)[1:]]
    g, ex = common(c, tst), 0.
    y = np.linspace(-1.1, 1.1, 61)
    # the declinations up to a product of 1, for each range of latitudes
    dec = np.arctan(y / np.maximum(np.tan(np.radians(lat[:-1, None])), np.tan(.42) / 10)).clip(-.42, .42)
    lo, hi, a, b = dec[:, :-1].ravel(), dec[:, 1:].ravel(), np.repeat(lat[:-1], 60), np.repeat(lat[1:], 60)
    ok = lo < hi
    lo, hi, a, b = lo[ok], hi[ok], a[ok], b[ok]
    for s in (1, -1):
        g[api.LAT_], g[c.V('declination')] = st(*(a, b) if s > 0 else (-b, -a)), st(lo, hi)
        e = errors(x, {k: g[k] for k in (api.LAT_, c.V('declination'))})
        near = (e.R[0] <= 1) & (e.R[1] >= -1)
        ex = max(ex, float(e.E[near].max()))
    g = common(c, tst)
    y = np.r_[-1. + edge, np.linspace(-1, 1, 2001)[1:-1], 1. - edge] if edge < 1e-3 else np.linspace(-1 + edge, 1 - edge, 2000)
    if edge:
        k = np.geomspace(edge, .001, 200)
        y = np.unique(np.r_[y, -1 + k, 1 - k])
    lo, hi = y[:-1], y[1:]
    # the value is used where it is within [-1, 1]
    g[x] = rd.S((lo, hi), 0 * lo + ex, (np.maximum(lo - ex, -1.), np.minimum(hi + ex, 1.)))
    if tst is not None:
        for q in tm.children_first([t]):        # the reported instant and its day are whole numbers
            if q is tst or q.op == 'floor' and tst in tm.children_first([q]):
                g[q] = st(Y0, Y1) if q is tst else st(Y0 / 86400e9, Y1 / 86400e9)
    for q in tm.children_first([t]):            # sums of whole numbers are exact: (T + offset) - T is the offset
        if q.op == 'add' and all(y in (api.T_, c.T_ns, api.OFF_) or y.op in ('add', 'mul') or y.op == 'c' and y.val == -1
                                 for y in tm.children_first([q])):
            N = nf.NF()
            for v, x in ((api.OFF_, g[api.OFF_]), (tm.ZERO, st(0, 0))):
                if N.equal(q, v):
                    g[q] = x
    return whole(t, g), ex


def whole(t, g):
    """the largest error of t; its durations are cut to whole nanoseconds: what is computed and the cut of what should be
    are within the error of what is cut and 1 ns of each other"""
    cuts = [0]

    def go(q):
        if q in g:
            return q
        if q.op == 'trunc':
            cuts[0] += 1
            return q.args[0]
        if q.op == 'add' or q.op == 'mul' and any(tm.isc(y) and y.val == -1 for y in q.args):
            return tm.rebuild(q, [go(y) for y in q.args])
        return q
    old, tm.ONE_BY_ONE[0] = tm.ONE_BY_ONE[0], True
    try:
        t = go(t)
    finally:
        tm.ONE_BY_ONE[0] = old
    return float(errors(t, g).E.max()) + cuts[0]


LIM = {
    'C12': {'true_solar_time': (1e4, '1e-5 s', 1e9, 's')},
    'C17': {'the instant': (1e4, '1e-5 s', 1e9, 's')},
    'C14': {None: (1e-12, '1e-12 x ISC', 1, 'x ISC')},
    'C15': {None: (1e-9, '1e-9', 1, '')},
    'C16': {None: (1e-12, '1e-12', 1, '')},
    'C20': {None: (1e-12, '1e-12 (degrees)', 1, '')},
}
HALF = np.pi / 2 * (1 + 1e-15)


def obligations(rep, prop):
    try:
        todo = terms_of(prop)
    except Exception as e:
        rep.obligation('_base.Sunpos: rounding errors', 'undecided', 'rounding-error analysis (intervals)', 0.,
                       '%s: %s' % (type(e).__name__, e))
        return
    memo = {}
    got = {}            # (use case, quantity) -> [(ok, text)]
    for uc, kind, c, d, tst in todo:
        for k, ts in d.items():
            for t in ts:
                t0 = time.time()
                key = t.id
                if key not in memo:
                    try:
                        memo[key] = decide(prop, k, c, t, tst)
                    except (rd.GiveUp, KeyError, ValueError, ArithmeticError, IndexError) as e:
                        memo[key] = [(None, '%s: %s' % (type(e).__name__, e), '')]
                for ok, says, why in memo[key]:
                    got.setdefault((uc, k, says if ok is not None else ''), []).append((ok, why or says, time.time() - t0))
    for (uc, k, says), xs in got.items():
        ok = all(x[0] for x in xs)
        rep.obligation('%s: in doubles, %s is that of real arithmetic %s' % (
            '_base.Sunpos[%s]' % uc if prop != 'C17' else 'utils.datetime.%s' % uc, k, says),
                       'proved' if ok else 'undecided', 'rounding-error analysis (intervals)', sum(x[2] for x in xs),
                       '; '.join(sorted({x[1] for x in xs}))[:300])


def whole_numbers():
    return BIG[0] < 2. ** 63, 'without leaving 64 bits on the way (years 1700-2250)', 'at most 2^%.2f' % np.log2(BIG[0])


def decide(prop, k, c, t, tst):
    """[(holds, statement, measured)]"""
    if prop == 'C13':
        unit = k.split("'")[1] if "'" in k else 'h'
        scale = {'deg': (1., 'degrees'), 'rad': (180 / np.pi, 'degrees'), 'h': (7.5, 'degrees of hour angle')}.get(
            unit, (15 / 3600e9, 'degrees of hour angle'))
        out = []
        for edge, lim in ((0., 4e-4), (1e-8, 4e-6)):
            BIG[0] = 0.
            e, ex = angle(c, t, tst, edge)
            out.append((e * scale[0] <= lim, 'to within %g %s%s, |latitude| <= 89.9' % (
                lim, scale[1], ', where |tan tan| <= 1 - %g' % edge if edge else ''), 'error %.2g' % (e * scale[0])))
        if unit in ('tst', 'utc', 'local'):
            out.append(whole_numbers())
        return out
    BIG[0] = 0.
    lim, says, unit, u = LIM[prop].get(k) or LIM[prop][None]
    if prop in ('C12', 'C17'):
        g = common(c, tst)
        g.update({x: st(-20, 20) for x in tm.children_first([t]) if x.op == 'sym' and x.val.startswith('eot@')})
        e = whole(t, g)
    elif prop == 'C16':
        e = hour(c, t, tst)
    else:
        e = bound_zenith(c, t, HALF if prop == 'C15' or 'perez' in k or 'gonzalez' in k else np.pi * (1 + 1e-15), tst)
    return [whole_numbers()] * (prop in ('C12', 'C17')) + [(e <= lim, 'to within %s%s' % (says, ' (years 1700-2250)' if prop in ('C12', 'C17') else ''), 'error %.2g %s' % (e / unit, u))]
