"""The geometry contract of sunpos: which declination and hour angle its zenith
and azimuth are the spherical position of.

For extracted element terms Z (zenith), A (azimuth), D (declination) of one
sunpos, `form` looks for terms d (a declination) and h (an hour angle) among the
subterms such that, for all t, lat, lon,

    A = atan2(cos d sin h, cos d cos h sin lat - sin d cos lat)     (mod 2 pi)
    Z = G(acos(sin lat sin d + cos lat cos d cos h))

both proved by normal form; G is a term over one symbol z in [0, pi].  Numbers
only suggest the candidates."""
import numpy as np
from pyded import terms as tm, evalnum, extract, interval, bb
from .common import epoch

t_, lat_, lon_ = extract.t_, extract.lat_, extract.lon_
z_ = tm.sym('z')
d_, h_ = tm.sym('dec'), tm.sym('hour')       # any declination in [-1, 1] rad; any hour angle
RAD = tm.div(tm.PI, tm.const(180))


def target(d, h):
    """(P, azimuth) of spherical astronomy; azimuth from south, west positive"""
    p = tm.mul(lat_, RAD)
    sd, cd, sh, ch = tm.fn('sin', d), tm.fn('cos', d), tm.fn('sin', h), tm.fn('cos', h)
    sp, cp = tm.fn('sin', p), tm.fn('cos', p)
    P = tm.add(tm.mul(sp, sd), tm.mul(cp, cd, ch))
    az = tm.fn('atan2', tm.mul(cd, sh), tm.sub(tm.mul(cd, ch, sp), tm.mul(sd, cp)))
    return P, az


def implied_hour(eot):
    """UT + longitude + equation of time, as an angle from noon"""
    turn = tm.mul(tm.const(2), tm.PI)
    return tm.add(tm.mul(turn, tm.div(t_, tm.const(86400))), tm.mul(lon_, RAD),
                  tm.mul(turn, tm.div(eot, tm.const(1440))), tm.neg(tm.PI))


def env(n=400, seed=3, lo='1900-01-01', hi='2101-01-01'):
    r = np.random.default_rng(seed)
    return {t_: r.integers(epoch(lo), epoch(hi), n).astype(float), lat_: r.uniform(-89, 89, n),
            lon_: r.uniform(-180, 179.9, n)}


def near(x, y, turn=None):
    with np.errstate(all='ignore'):
        d = np.abs(x - y)
        if turn:
            d = np.abs((d + turn / 2) % turn - turn / 2)
        return np.nanmax(d) if np.isfinite(d).any() else np.inf


def unclip(u):
    """the argument of a clip to [-1, 1]"""
    for _ in range(2):
        if u.op in ('max', 'min') and len(u.args) == 2:
            c = [a for a in u.args if tm.isc(a)]
            if len(c) == 1 and c[0].val == (-1 if u.op == 'max' else 1):
                u = [a for a in u.args if a is not c[0]][0]
    return u


class Form:
    def __init__(self):
        self.d = self.h = self.G = None
        self.why = ''


def candidates(x, D, eot):
    """subterms that look like the declination or the hour angle"""
    E = env()
    Z, A = x
    subs = []
    for u in tm.children_first([Z, A]):
        if u.op in ('sin', 'cos', 'tan'):
            a = u.args[0]
            if t_ in tm.free(a) and a not in subs:
                subs.append(a)
    if D not in subs:
        subs.insert(0, D)
    vals = evalnum.evaluate(subs + [D, implied_hour(eot)], E)
    vals = [np.broadcast_to(np.asarray(v, float), (400,)) for v in vals]
    d0, h0 = vals[-2], vals[-1]
    ds, hs = [], []
    for a, v in zip(subs, vals):
        if lon_ in tm.free(a):
            for k in (0, 1, -1):
                for s in (1, -1):
                    w = s * v + k * np.pi
                    if near(w, h0, 2 * np.pi) < 3e-3:
                        g = a if s == 1 else tm.neg(a)
                        if k:
                            g = tm.add(g, tm.mul(tm.const(k), tm.PI))
                        if k != -1:
                            hs.append(g)
        if near(v, d0) < 1e-3:
            ds.append(a)
    # exact candidates (no longitude or latitude correction) last: the outermost angles first
    key = lambda a: -tm.size(a)     # noqa: E731
    ds.sort(key=key)
    hs.sort(key=key)
    if D in ds:
        ds.remove(D)
        ds.append(D)
    return ds, hs


def form(N, Z, A, D, eot):
    f = Form()
    try:
        ds, hs = candidates((Z, A), D, eot)
    except KeyError as e:
        f.why = 'cannot evaluate: %s' % e
        return f
    E = env(300, 5)
    za = [np.asarray(v, float) for v in evalnum.evaluate([Z, A], E)]
    f.why = 'no declination/hour angle found among the subterms'
    for d in ds:
        for h in hs:
            P, az = target(d, h)
            pv, av = evalnum.evaluate([P, az], E)
            if near(av, za[1], 2 * np.pi) > 1e-7:
                continue
            # the statement for any declination and hour angle (d, h replaced by symbols)
            g = generalise([Z, A], d, h)
            Zg, Ag = g if not (set().union(*map(tm.free, g)) - {lat_, d_, h_}) else (Z, A)
            if Ag is not A:
                P, az = target(d_, h_)
            if not N.equal_mod_turn(Ag, az):
                f.why = 'azimuth not proved equal to that of spherical astronomy'
                continue
            G = zenith_of(N, Zg, P)
            if G is None:
                f.why = 'zenith is not a function of the angle of spherical astronomy'
                continue
            f.d, f.h, f.G = d, h, G
            return f
    return f


def generalise(ts, d, h):
    """d -> dec, h -> hour in the terms (h may be sign*node + multiple of pi)"""
    m = {d: d_}
    for u in tm.children_first(list(ts)):
        if u.op in ('sin', 'cos', 'tan') and u.args[0] not in m and lon_ in tm.free(u.args[0]):
            a = u.args[0]
            for k in (0, 1):
                for s in (1, -1):
                    g = a if s == 1 else tm.neg(a)
                    if k:
                        g = tm.add(g, tm.mul(tm.const(k), tm.PI))
                    if g is h:
                        b = tm.sub(h_, tm.mul(tm.const(k), tm.PI)) if k else h_
                        m[a] = b if s == 1 else tm.neg(b)
    return [tm.subst(t, m) for t in ts]


def zenith_of(N, Z, P, sym=None):
    """Z with acos(P) replaced by z and asin(P) by pi/2 - z; None if it depends on more"""
    sym = sym or z_
    m = {}
    for u in tm.children_first([Z]):
        if u.op in ('acos', 'asin') and lat_ in tm.free(u):
            a = unclip(u.args[0])
            if N.equal(a, P):
                k = sym
            elif N.equal(tm.neg(a), P):
                k = tm.sub(tm.PI, sym)
            else:
                continue
            m[u] = k if u.op == 'acos' else tm.sub(tm.div(tm.PI, tm.const(2)), k)
    if not m:
        return None
    G = tm.subst(Z, m)
    return G if not tm.free(G) - {sym} else None


def by_angle(N, Zs):
    """the zeniths as functions of z, the one arc cosine (or arc sine) of place and time
    all of them are computed from; None if there is no such angle"""
    nodes = [u for u in tm.children_first(list(Zs)) if u.op in ('acos', 'asin') and lat_ in tm.free(u)]
    # the outermost ones
    inner = {v for u in nodes for v in tm.children_first([u]) if v is not u}
    nodes = [u for u in nodes if u not in inner]
    if not nodes:
        return None
    U = unclip(nodes[0].args[0])
    if nodes[0].op == 'asin':
        pass
    m = {}
    for u in nodes:
        a = unclip(u.args[0])
        if a is U or N.equal(a, U):
            k = z_
        elif N.equal(a, tm.neg(U)):
            k = tm.sub(tm.PI, z_)
        else:
            return None
        m[u] = k if u.op == 'acos' else tm.sub(tm.div(tm.PI, tm.const(2)), k)
    out = [tm.subst(Z, m) for Z in Zs]
    return out if not set().union(*[tm.free(g) for g in out]) - {z_} else None


def of_arc(A):
    """the azimuth as a function of the arc tangents of place and time it is computed from"""
    nodes = [u for u in tm.children_first([A]) if u.op == 'atan2' and lat_ in tm.free(u)]
    inner = {v for u in nodes for v in tm.children_first([u]) if v is not u}
    m = {}
    for i, u in enumerate(n for n in nodes if n not in inner):
        m[u] = tm.sym('arc%d' % i)
    G = tm.subst(A, m)
    return (G, list(m.values())) if not tm.free(G) - set(m.values()) else None


def abstract(roots, only=(t_,)):
    """replace maximal subterms depending on one of the given symbols alone by fresh symbols"""
    roots = list(roots)
    rep = {}
    seen = set()

    def walk(u):
        if u in seen or u in rep:
            return
        seen.add(u)
        fv = tm.free(u)
        if any(fv == {s} for s in only) and not tm.is_bool(u) and u.op != 'sym':
            rep[u] = tm.sym('u%d' % u.id)
            return
        for a in u.args:
            walk(a)
    for r in roots:
        walk(r)
    return [tm.subst(r, rep) for r in roots], {v: k for k, v in rep.items()}


def span_of(q):
    """enclosure of a term of t alone (1900-2100) or of lat alone"""
    if tm.free(q) == {t_}:
        return t_range(q)
    (a, b), = interval.ranges([q], {lat_: box1(-90., 90., 512)}, [lat_])
    return a.min(), b.max()


def t_range(term, lo='1900-01-01', hi='2101-01-01', w=86400 * 8):
    """enclosure of a term of t over a span"""
    (a, b), = interval.ranges([term], {t_: bb.t_boxes(epoch(lo), epoch(hi), w)}, [t_])
    return a.min(), b.max()


def box1(lo, hi, n=1):
    e = np.linspace(lo, hi, n + 1)
    return e[:-1], e[1:]


def grid(boxes):
    """product of per-symbol box lists"""
    syms = list(boxes)
    ix = np.meshgrid(*[np.arange(len(boxes[s][0])) for s in syms], indexing='ij')
    return {s: (boxes[s][0][i.ravel()], boxes[s][1][i.ravel()]) for s, i in zip(syms, ix)}


hh_ = tm.sym('H0')
dd_ = tm.sym('D0')


def boxed(terms, D, H0, drange):
    """(terms, boxes): D, H0 and the parts that depend on t or lat alone as symbols"""
    ts = [tm.subst(t, {D: dd_, H0: hh_}) for t in terms]
    ts, u = abstract(ts, (t_, lat_))
    rng = {dd_: drange, hh_: (0., 2 * np.pi + 1e-9)}
    for s, q in u.items():
        rng[s] = span_of(q)
    return ts, rng


def bounded(t, lo, hi, rng, secs=20.):
    free = tm.free(t)
    if free - set(rng):
        return bb.Result('undecided', 'depends on more than the declination, the hour angle and the latitude')
    cut = {dd_: 16, hh_: 8}
    boxes = {s: box1(rng[s][0], rng[s][1], cut.get(s, 1)) for s in rng if s in free}
    if not boxes:
        boxes = {tm.sym('unit'): (np.zeros(1), np.ones(1))}
    g = grid(boxes)
    return bb.prove(t, lo, hi, g, list(g), secs=secs, max_boxes=400000)


def small(X, X0, D, H0, tol, drange=(-.42, .42), secs=20.):
    """|X - X0| <= tol for terms over t, lat, lon built from D and H0, for any D in
    drange, any H0, any latitude and the values its other parts take in 1900-2100"""
    (a, b), rng = boxed([X, X0], D, H0, drange)
    return bounded(tm.sub(a, b), -tol, tol, rng, secs)


def small_turn(N, X, D, H0, tol, drange=(-.42, .42), secs=20.):
    """|X - D| <= tol: for an arc tangent by the sine and cosine of the difference, in
    which the cosine of a small inner arc is written 1 + e"""
    if X.op != 'atan2':
        return small(X, D, D, H0, tol, drange, secs)
    (Y, W), rng = boxed(X.args, D, H0, drange)
    m = {}
    for u in tm.children_first([Y, W]):
        if u.op in ('cos', 'sin') and u.args[0].op in ('atan2', 'atan') and hh_ in tm.free(u):
            r = bounded(u.args[0], -1e-3, 1e-3, rng, secs)
            if not r:
                continue
            e = tm.sym('e%d' % u.id)
            a = max(abs(r.rng[0]), abs(r.rng[1]))
            m[u] = tm.add(tm.ONE, e) if u.op == 'cos' else e
            rng[e] = (-a * a / 2 * 1.001 - 1e-15, 1e-15) if u.op == 'cos' else (-a, a)
    Y, W = tm.subst(Y, m), tm.subst(W, m)
    S = tm.sub(tm.mul(Y, tm.fn('cos', dd_)), tm.mul(W, tm.fn('sin', dd_)))
    C = tm.add(tm.mul(W, tm.fn('cos', dd_)), tm.mul(Y, tm.fn('sin', dd_)))
    r = bounded(N.canon(C), .95, 1.05, rng, secs)
    if not r:
        return r
    r = bounded(N.canon(S), -tol * .95, tol * .95, rng, secs)
    if r:                        # the cosine is positive and |tan| <= |S| / .95
        r.rng = tuple(x / .95 for x in r.rng)
    return r


def inner_hour(h):
    """the subterm of h without latitude that h corrects (h itself if it has none)"""
    if lat_ not in tm.free(h):
        return h
    E = env(100, 9)
    us = [u for u in tm.children_first([h]) if lon_ in tm.free(u) and t_ in tm.free(u) and lat_ not in tm.free(u)
          and not tm.is_bool(u)]
    vs = evalnum.evaluate(us + [h], E)
    us = [u for u, v in zip(us, vs) if np.ndim(v) and near(np.asarray(v), np.asarray(vs[-1]), 2 * np.pi) < 1e-3]
    return max(us, key=tm.size) if us else None


def published_refraction(m, X):
    """the refracted zenith of the published SPA as a function of the true zenith z"""
    from . import spa_spec
    half = m.pi / m.c(2)
    return (half - spa_spec.refracted(m, half - X(z_))).t


def cot(t):
    """x / tan(a) written x cos(a) / sin(a)"""
    def f(u):
        if u.op != 'div':
            return None
        q = u.args[1]
        fs = list(q.args) if q.op == 'mul' else [q]
        ts = [g for g in fs if g.op == 'tan']
        if not ts:
            return None
        return tm.div(tm.mul(u.args[0], *[tm.fn('cos', g.args[0]) for g in ts]),
                      tm.mul(*[g for g in fs if g.op != 'tan'], *[tm.fn('sin', g.args[0]) for g in ts]))
    return tm.rewrite(t, f)
