"""The deciding step: obligations generated from /repo's current source."""
import time
import numpy as np
from pyded import terms as tm, extract, crosscheck, nf, evalnum, bb, interval
from .common import epoch
from . import hints

OUT = extract.OUT
UC = {0: 'transect', 1: 'sites', 2: 'regular_grid'}


def get(rep, mod, nd, ref, quiet=False):
    """the extraction of one sunpos; registers its own obligations once"""
    seen = rep.__dict__.setdefault('_seen', {})
    k = (mod, nd, ref)
    if k in seen:
        return seen[k]
    t0 = time.time()
    x = extract.extract(mod, nd, ref)
    nm = 'libspa.%s.sunpos[ndim=%d,refraction=%s]' % (mod, nd, ref)
    rep.function('libspa.%s.sunpos' % mod)
    det = x.error or ''
    if not x.error:
        bad = crosscheck.check(mod, nd, ref, x)
        if bad:
            det = 'cross-check: ' + bad[0]
            x = None
    else:
        x = None
    if not quiet:
        rep.obligation(nm + ': returns arrays of the documented shape on every path, for all K, J, I >= 1',
                       'undecided' if x is None else 'proved', 'pyded/z3', time.time() - t0, det)
    seen[k] = x
    return x


def one(rep, x, v, N, label):
    """the term of an output, if all paths agree on it"""
    if x is None:
        return None
    ts = list(dict.fromkeys(t for t, _ in x.terms[v]))
    if len(ts) == 1:
        return ts[0]
    ok = all(same(N, v, ts[0], t) for t in ts[1:])
    rep.obligation('%s: %s is the same function of (instant, place) on all %d paths' % (label, v, len(x.terms[v])),
                   'proved' if ok else 'undecided', 'pyded.nf')
    return ts[0] if ok else None


def same(N, v, a, b):
    if a is b or N.equal(a, b):
        return True
    return v == 'azimuth' and N.equal_mod_turn(a, b)


def eq_obligation(rep, name, v, a, b, N, cfg, tol, nd=0, alarm=False):
    """a == b, else look for an input on which they differ by more than tol"""
    t0 = time.time()
    if a is None or b is None:
        rep.obligation(name, 'undecided', 'pyded.nf', 0., 'no extracted term')
        return False
    try:
        ok = same(N, v, a, b)
    except Exception as e:
        ok = False
        rep.notes.append('%s: %s' % (name, e))
    if ok:
        return rep.obligation(name, 'proved', 'pyded.nf', time.time() - t0)
    w = difference(v, a, b, tol)
    if w is None:
        rep.obligation(name, 'undecided', 'pyded.nf', time.time() - t0, 'not proved; no difference found')
        return False
    P, d = w
    rep.obligation(name, 'refuted', 'pyded.nf + counterexample search', time.time() - t0,
                   'differs by %.3g at t=%d lat=%r lon=%r' % (d[0], P[0][0], P[1][0], P[2][0]))
    rep.failed.append(name)
    far = beyond(v, a, b, P, alarm[v]) if alarm and v in alarm else None
    if far:         # more than the property allows, not only more than its proof needs
        rep.refuted.append((name, 'differs by %.3g at t=%d lat=%r lon=%r' % far))
    for c in cfg:
        hints.add(c, P)
    return False


def beyond(v, a, b, P, tol, near=((0, 0.), (2, 0.), (-2, 0.), (0, .01), (0, -.01))):
    """a point where two terms differ by more than the property's tolerance, there and next to it (not just on an edge)"""
    k = np.arange(len(P[0]))
    worst = np.full(len(k), np.inf)
    for dt, dlat in near:
        Q = hints.clampP([P[0] + dt, P[1] + dlat, P[2]])
        x, y = hints.ev([a, b], Q)
        d = np.abs(x - y)
        worst = np.minimum(worst, np.where(np.isnan(x) != np.isnan(y), np.inf, np.where(np.isnan(d), 0, d)))
    i = int(np.argmax(worst))
    return (worst[i], P[0][i], P[1][i], P[2][i]) if worst[i] > tol else None


def difference(v, a, b, tol, n=30000):
    """points where two terms differ by more than tol (radians or native units)"""
    if not (hints.supported(a) and hints.supported(b)):
        return None
    rng = np.random.default_rng(7)
    pts = [hints.rand(rng, n)]
    _, guards, fns = hints.conditions([a, b])
    only = [f for f in fns]
    pts += hints.boundary(only[:300], rng, 20)
    for g in guards[:60]:
        for want in (True, False):
            r = hints.search(g, want, rng, 1500, 15)
            if r is not None:
                pts.append(r)
    P = hints.clampP([np.concatenate([p[k] for p in pts]) for k in range(3)])
    x, y = hints.ev([a, b], P)
    d = np.abs(x - y)
    if v == 'azimuth':
        d = np.abs((d + np.pi) % (2 * np.pi) - np.pi)
    d = np.where(np.isnan(x) != np.isnan(y), np.inf, np.where(np.isnan(d), 0, d))
    i = np.argsort(-d)[:40]
    i = i[d[i] > tol]
    return ([q[i] for q in P], d[i]) if len(i) else None


# what each property allows (radians or native units; the azimuth is left to the replays: it is singular at the zenith)
ALARM = {'C01': {'zenith': 1.75e-5, 'declination': 1.75e-5, 'eot': 1e-3, 'ecf': 1e-6},
         'C02': {'zenith': 3.5e-5, 'declination': 1.75e-6, 'eot': 1e-3, 'ecf': 1e-6},
         'C07': {'declination': 1.75e-6, 'eot': 1e-3, 'ecf': 1e-6}}
TERM_TOL = {'zenith': 1.7e-6, 'azimuth': 1.7e-6, 'declination': 1.7e-6, 'eot': 1e-4, 'ecf': 1e-7}
PAIRS = {'psa': ('py_psa', 'ne_psa'), 'soltrack': ('py_soltrack', 'ne_soltrack'), 'iqbal': ('py_iqbal', 'ne_iqbal')}


def frame(rep):
    """sunpos writes none of its arguments"""
    for mod in extract.MODULES.values():
        for nd in (0, 1, 2):
            x = get(rep, mod, nd, True)
            if x is None:
                rep.obligation('libspa.%s.sunpos[ndim=%d]: assigns nothing' % (mod, nd), 'undecided', 'pyded')
                continue
            rep.obligation('libspa.%s.sunpos[ndim=%d]: assigns none of times, longitude, latitude' % (mod, nd),
                           'refuted' if x.frame else 'proved', 'pyded', 0., x.frame[:2])


def p_C01(rep):
    N = nf.NF()
    for (algo, eng), mod in extract.MODULES.items():
        for ref in (False, True):
            xs = {nd: get(rep, mod, nd, ref) for nd in (0, 1, 2)}
            for v in OUT:
                ts = {nd: one(rep, x, v, N, 'libspa.%s.sunpos[ndim=%d]' % (mod, nd)) for nd, x in xs.items()}
                for nd in (1, 2):
                    eq_obligation(rep, 'libspa.%s.sunpos[refraction=%s]: %s[k,...] with ndim=%d equals the function of '
                                  'times[k], latitude[j], longitude[i] of ndim=0' % (mod, ref, v, nd), v, ts[nd], ts[0],
                                  N, [(algo, eng)], TERM_TOL[v], nd, alarm=ALARM['C01'])
    return 'proof', ('symbolic execution of each sunpos for arrays of any size; element terms compared by normal form')


def p_C02(rep):
    from . import posit
    N = nf.NF(positive=posit.positive)
    for algo, (pa, pb) in PAIRS.items():
        for ref in (False, True):
            for nd in (0, 1, 2):
                a, b = get(rep, pa, nd, ref), get(rep, pb, nd, ref)
                for v in OUT:
                    ta = one(rep, a, v, N, 'libspa.%s.sunpos[ndim=%d]' % (pa, nd))
                    tb = one(rep, b, v, N, 'libspa.%s.sunpos[ndim=%d]' % (pb, nd))
                    eq_obligation(rep, '%s[ndim=%d,refraction=%s]: %s of the two engines is equal' % (algo, nd, ref, v),
                                  v, ta, tb, N, [(algo, 'numpy'), (algo, 'numexpr')], TERM_TOL[v], nd, alarm=ALARM['C02'])
    return 'proof', 'element terms of the two engines, extracted from both sources, compared by normal form'



# ------------------------------------------------------------------ C05, C03: directions
SPAN = (('1900-01-01', '2101-01-01'))
TOL5 = np.radians(0.03)


def from_bb(rep, name, r, engine='interval branch and bound', secs=0., cfg=None, expr=None):
    """record a bb.Result; a refutation point becomes a candidate input"""
    st = r.status
    if st == 'refuted':
        rep.failed.append(name)
        if cfg and r.point and extract.t_ in r.point:
            rng = np.random.default_rng(3)
            t = r.point[extract.t_] + np.concatenate([[0], rng.integers(-43200, 43200, 39)])
            hints.add(cfg, hints.clampP([t.astype('i8'), rng.uniform(-80, 80, 40), rng.uniform(-180, 179, 40)]))
    rep.obligation(name, st, engine, secs, r.detail)
    return st == 'proved'


def timed(f, *a, **k):
    t0 = time.time()
    r = f(*a, **k)
    return r, time.time() - t0


def same_for_all_ndims(rep, N, mod, ref, cfg, outs=OUT):
    """ndim = 1, 2 compute the function of ndim = 0; returns the terms of ndim = 0"""
    xs = {nd: get(rep, mod, nd, ref) for nd in (0, 1, 2)}
    res = {}
    for v in outs:
        ts = {nd: one(rep, x, v, N, 'libspa.%s.sunpos[ndim=%d]' % (mod, nd)) for nd, x in xs.items()}
        res[v] = ts[0]
        for nd in (1, 2):
            if ts[nd] is not ts[0] or ts[0] is None:
                eq_obligation(rep, 'libspa.%s.sunpos[refraction=%s]: %s is the same function for ndim=%d and ndim=0' % (
                    mod, ref, v, nd), v, ts[nd], ts[0], N, cfg, TERM_TOL[v], nd)
    return res


def hour_error(N, h, eot):
    """canonical sin and cos of h - (UT + lon + eot - noon)"""
    from . import geom
    e = tm.sub(h, geom.implied_hour(eot))
    return [interval_ready(N.canon(tm.fn(f, e))) for f in ('sin', 'cos')]


def interval_ready(c):
    return tm.rewrite(c, lambda u: tm.ite(u.args[0], tm.ONE, tm.ZERO) if u.op == 'ind' else None)


def t_only(lo, hi, w=86400):
    return {extract.t_: bb.t_boxes(epoch(lo), epoch(hi), w)}


def prove_t(terms, lo, hi, span, w=86400 * 4, secs=60., **k):
    if isinstance(terms, tm.T):
        terms = [terms]
    key = (tuple(terms), lo, hi, span)
    if key not in _DONE:
        _DONE[key] = _prove_t(terms, lo, hi, span, w, secs, k)
    return _DONE[key]


_DONE = {}


def _prove_t(terms, lo, hi, span, w, secs, k):
    if all(not tm.free(t) for t in terms):
        return bb.prove(terms, lo, hi, {tm.sym('unit'): (np.zeros(1), np.ones(1))}, [])
    return bb.prove(terms, lo, hi, t_only(*span, w), [extract.t_], ints=(extract.t_,), secs=secs,
                    max_boxes=2000000, **k)


def direction(rep, N, mod, cfg):
    """the geometry contract of one sunpos: (form, terms, shifts) or None"""
    from . import geom
    q = same_for_all_ndims(rep, N, mod, False, cfg)
    nm = 'libspa.%s.sunpos: ' % mod
    if any(q[v] is None for v in OUT):
        rep.obligation(nm + 'geometry contract', 'undecided', 'pyded.nf', 0., 'no extracted term')
        return None
    t0 = time.time()
    f = geom.form(N, q['zenith'], q['azimuth'], q['declination'], q['eot'])
    ok = f.d is not None
    rep.obligation(nm + 'azimuth is that of spherical astronomy for its declination and hour angle (mod 360)',
                   'proved' if ok else 'undecided', 'pyded.nf', time.time() - t0, f.why if not ok else '')
    rep.obligation(nm + 'zenith is a function of acos(sin lat sin d + cos lat cos d cos H) alone',
                   'proved' if ok else 'undecided', 'pyded.nf', 0., '' if ok else f.why)
    if not ok:
        return None
    D = q['declination']
    H0 = geom.inner_hour(f.h)
    z = geom.z_
    r, s = timed(bb.prove, tm.sub(f.G, z), -1e-4, 1e-4, {z: geom.box1(0, np.pi, 16)}, [z])
    if not from_bb(rep, nm + 'parallax moves the zenith by at most 1e-4 rad', r, secs=s):
        return None
    sh = {'z': max(abs(r.rng[0]), abs(r.rng[1]))}
    if H0 is None:
        rep.obligation(nm + 'hour angle', 'undecided', '', 0., 'geocentric hour angle not found')
        return None
    if f.d is D:
        sh['d'] = 0.
    else:
        r, s = timed(geom.small_turn, N, f.d, D, H0, 8e-5)
        if not from_bb(rep, nm + 'topocentric declination within 8e-5 rad of the geocentric one', r, secs=s):
            return None
        sh['d'] = max(abs(r.rng[0]), abs(r.rng[1]))
    if H0 is f.h:
        sh['h'] = 0.
    else:
        r, s = timed(geom.small, f.h, H0, D, H0, 8e-5)
        if not from_bb(rep, nm + 'topocentric hour angle within 8e-5 rad of the geocentric one', r, secs=s):
            return None
        sh['h'] = max(abs(r.rng[0]), abs(r.rng[1]))
    r, s = timed(prove_t, interval_ready(N.canon(D)), -0.42, 0.42, SPAN, 86400 * 16)
    if not from_bb(rep, nm + 'declination within 0.42 rad of zero (used by the above)', r, secs=s, cfg=cfg):
        return None
    f.H0, f.sh, f.q = H0, sh, q
    return f


def p_C05(rep):
    from . import posit
    for (algo, eng), mod in extract.MODULES.items():
        N = nf.NF(positive=posit.positive)
        cfg = [(algo, eng)]
        f = direction(rep, N, mod, cfg)
        nm = 'libspa.%s.sunpos: ' % mod
        if f is None:
            continue
        S, C = hour_error(N, f.H0, f.q['eot'])
        tol = TOL5 - sum(f.sh.values())
        if {extract.t_} < tm.free(S):
            rep.obligation(nm + 'hour angle minus that of the equation of time depends on the instant alone',
                           'undecided', 'pyded.nf', 0., 'free: %s' % sorted(str(x.val) for x in tm.free(S)))
            continue
        r, s = timed(prove_t, S, -np.sin(tol), np.sin(tol), SPAN)
        from_bb(rep, nm + 'hour angle is UT + longitude + equation of time to within 0.03 degrees less the parallax '
                '(sine, 1900-2100)', r, secs=s, cfg=cfg)
        r, s = timed(prove_t, C, 0.9, 1.1, SPAN)
        from_bb(rep, nm + 'the same, cosine (modulo 360 degrees)', r, secs=s, cfg=cfg)
    return 'proof', ('the geometry contract by normal form for all inputs; parallax and hour-angle bounds by interval '
                     'branch and bound over 1900-2100')


SPAN3 = ('2020-01-01', '2051-01-01')
C03 = {'psa': (.02, .01, .1, 3e-4), 'soltrack': (.02, .01, .1, 3e-4), 'iqbal': (.5, .5, .6, 1e-3)}


def shifts(f):
    return f.sh['z'] + np.hypot(f.sh['d'], f.sh['h']) * 1.0002     # lemmas displacements, same_hour, separation


def p_C03(rep):
    from . import posit
    N = nf.NF(positive=posit.positive)
    R = direction(rep, N, 'ne_nrel', [('nrel', 'numexpr')])
    if R is None:
        rep.obligation('the reference: geometry contract of nrel', 'undecided', 'pyded.nf')
        return 'exploration', 'bounded'
    for (algo, eng), mod in extract.MODULES.items():
        if algo not in C03:
            continue
        cfg = [(algo, eng)]
        f = direction(rep, N, mod, cfg)
        nm = 'libspa.%s.sunpos against nrel, 2020-2050: ' % mod
        if f is None:
            continue
        ang, dec, eot, ecf = C03[algo]
        k = dict(w=86400 // 2, secs=60.)
        dD = tm.sub(ready(N, f.q['declination']), ready(N, R.q['declination']))
        r, s = timed(prove_t, dD, -np.radians(dec), np.radians(dec), SPAN3, **k)
        from_bb(rep, nm + 'declination within %g degrees' % dec, r, secs=s, cfg=cfg)
        r, s = timed(prove_t, tm.sub(ready(N, f.q['eot']), ready(N, R.q['eot'])), -eot, eot, SPAN3, **k)
        from_bb(rep, nm + 'equation of time within %g minutes' % eot, r, secs=s, cfg=cfg)
        r, s = timed(prove_t, tm.sub(ready(N, f.q['ecf']), ready(N, R.q['ecf'])), -ecf, ecf, SPAN3, **k)
        from_bb(rep, nm + 'eccentricity factor within %g' % ecf, r, secs=s, cfg=cfg)
        e = tm.sub(f.H0, R.H0)
        S, C = [ready(N, tm.fn(g, e)) for g in ('sin', 'cos')]
        name = nm + 'direction (dD^2 + sin^2 dH) within %g degrees less the parallax of both' % ang
        if {extract.t_} < tm.free(S):
            rep.obligation(name, 'undecided', 'pyded.nf', 0., 'hour angles differ by more than a function of the instant')
            continue
        tol = (np.radians(ang) - shifts(f) - shifts(R)) * .9999
        r, s = timed(prove_t, tm.add(tm.mul(dD, dD), tm.mul(S, S)), -1., tol ** 2, SPAN3, **k)
        from_bb(rep, name, r, secs=s, cfg=cfg)
        r, s = timed(prove_t, C, .99, 1.01, SPAN3, **k)
        from_bb(rep, nm + 'cosine of the difference of the hour angles positive', r, secs=s, cfg=cfg)
    return 'proof', ('the geometry contract of both by normal form; differences to nrel by interval branch and bound at '
                     'every second of 2020-2050')


def equal_turn(N, a, b):
    """a = b modulo 2 pi, by the sine and cosine of the difference"""
    if N.equal_mod_turn(a, b):
        return True
    e = tm.sub(a, b)
    return N.canon(tm.fn('sin', e)) is tm.ZERO and N.canon(tm.fn('cos', e)) is tm.ONE


def p_C04(rep):
    from . import posit, geom, spa_spec
    from .termops import TermOps, X
    N = nf.NF(positive=posit.positive)
    mod, cfg = 'ne_nrel', [('nrel', 'numexpr')]
    nm = 'libspa.ne_nrel.sunpos is the published SPA: '
    S = {k: v.t for k, v in spa_spec.spa_time(TermOps, X(extract.t_)).items()}
    qs = {ref: same_for_all_ndims(rep, N, mod, ref, cfg) for ref in (False, True)}
    half_day = tm.const(720)
    for ref, q in qs.items():
        if any(q[v] is None for v in OUT):
            rep.obligation(nm + 'terms', 'undecided', 'pyded.nf', 0., 'no extracted term')
            return 'exploration', 'bounded'
        tag = nm[:-2] + '[refraction=%s]: ' % ref
        eq_obligation(rep, tag + 'declination', 'declination', q['declination'], S['delta'], N, cfg, 4e-6)
        eq_obligation(rep, tag + 'Earth-Sun distance factor', 'ecf', q['ecf'],
                      tm.div(tm.ONE, tm.power(S['R'], tm.const(2))), N, cfg, 1e-5)
        e4 = tm.mul(tm.const(4), S['E'])
        ok, s = timed(equal_turn, N, tm.mul(tm.div(q['eot'], half_day), tm.PI), tm.mul(tm.div(e4, half_day), tm.PI))
        rep.obligation(tag + 'equation of time, modulo one day', 'proved' if ok else 'undecided', 'pyded.nf', s)
        if not ok:
            r, s = timed(bb_difference, N, q['eot'], e4, half_day, 2e-3)
            from_bb(rep, tag + 'equation of time within 0.002 minutes, modulo one day', r, secs=s, cfg=cfg)
        if ref:
            continue
        r, s = timed(prove_t, ready(N, q['eot']), -20, 20, SPAN)
        from_bb(rep, tag + 'equation of time within 20 minutes of zero (1900-2100)', r, secs=s, cfg=cfg)
    q = qs[False]
    f = geom.form(N, q['zenith'], q['azimuth'], q['declination'], q['eot'])
    ok = f.d is not None
    rep.obligation(nm + 'zenith and azimuth are those of spherical astronomy for a topocentric declination and hour angle',
                   'proved' if ok else 'undecided', 'pyded.nf', 0., '' if ok else f.why)
    if not ok:
        return 'exploration', 'bounded'
    H0 = geom.inner_hour(f.h)
    Hs = tm.mul(tm.add(S['nu'], geom.lon_, tm.neg(S['alpha'])), geom.RAD)
    ok, s = timed(lambda: H0 is not None and equal_turn(N, H0, Hs))
    rep.obligation(nm + 'geocentric hour angle, modulo 360 degrees', 'proved' if ok else 'undecided', 'pyded.nf', s)
    if H0 is not None:
        if not ok:
            r, s = timed(bb_difference, N, tm.div(tm.mul(H0, half_day), tm.PI), tm.div(tm.mul(Hs, half_day), tm.PI),
                         half_day, 4 * 3e-4)
            from_bb(rep, nm + 'geocentric hour angle within 0.0003 degrees, modulo 360', r, secs=s, cfg=cfg)
        # for any declination and hour angle
        D = q['declination']
        sub = {D: geom.d_, H0: geom.h_}
        d, h = tm.subst(f.d, sub), tm.subst(f.h, sub)
        sp = topocentric(TermOps, X, S['R'], geom)
        ok, s = timed(N.equal, d, sp['deltap'])
        rep.obligation(nm + 'topocentric declination, for any declination, hour angle, latitude and distance',
                       'proved' if ok else 'undecided', 'pyded.nf', s)
        ok, s = timed(equal_turn, N, tm.sub(h, geom.h_), tm.neg(sp['dalpha']))
        rep.obligation(nm + 'topocentric hour angle, for any declination, hour angle, latitude and distance',
                       'proved' if ok else 'undecided', 'pyded.nf', s)
    P, az = geom.target(geom.d_, geom.h_)
    ok = N.equal_mod_turn(spherical(TermOps, X, geom)[1], az)
    rep.obligation('lemma: the published azimuth is the arc tangent of spherical astronomy (cos d > 0)',
                   'proved' if ok else 'undecided', 'pyded.nf')
    ok = N.equal(spherical(TermOps, X, geom)[0], tm.fn('asin', P))
    rep.obligation('lemma: the published elevation is the arc sine of spherical astronomy',
                   'proved' if ok else 'undecided', 'pyded.nf')
    z = geom.z_
    r, s = timed(bb.prove, tm.sub(f.G, z), -1e-9, 1e-9, {z: geom.box1(0, np.pi, 16)}, [z])
    from_bb(rep, nm + 'zenith is 90 degrees less the elevation', r, secs=s)
    # refraction: the zenith as a function of the unrefracted one
    qr = qs[True]
    eq_obligation(rep, nm + 'azimuth with refraction is that without', 'azimuth', qr['azimuth'], q['azimuth'], N, cfg, 5e-6)
    fr = geom.form(N, qr['zenith'], qr['azimuth'], qr['declination'], qr['eot'])
    ok = fr.d is f.d and fr.h is f.h and fr.d is not None
    rep.obligation(nm + 'zenith with refraction is a function of the zenith without', 'proved' if ok else 'undecided',
                   'pyded.nf', 0., fr.why)
    if ok:
        G = geom.published_refraction(TermOps, X)
        thr = np.pi / 2 + np.radians(.8333)
        b = np.radians(5e-4)
        dom = [np.concatenate(v) for v in zip(geom.box1(0, thr - b, 64), geom.box1(thr + b, np.pi, 16))]
        r, s = timed(bb.prove, geom.cot(tm.sub(fr.G, G)), -5.2e-6, 5.2e-6, {z: tuple(dom)}, [z])
        from_bb(rep, nm + 'refraction correction of the elevation within 0.0003 degrees, at every elevation further than '
                '0.0005 degrees from -0.8333', r, secs=s)
        if r.status == 'refuted':
            aim(cfg, r.point[z])
    return 'proof', ('terms of the code proved equal to the published formulas (vf/spa_spec.py) by normal form, in parts; '
                     'refraction by interval branch and bound over all elevations')


RANGE = {'declination': (np.radians(-23.6), np.radians(23.6)), 'eot': (-18, 18), 'ecf': (.96, 1.04)}


def partial_ops(rep, nm, q, cfg):
    """arguments of partial operations that depend on the instant alone are in the domain"""
    seen = set()
    nodes = []
    for u in tm.children_first([q[v] for v in OUT]):
        if u.op in ('asin', 'acos', 'sqrt', 'log', 'div') or u.op == 'pow' and not (
                tm.isc(u.args[1]) and u.args[1].val > 0 and u.args[1].val.denominator == 1):
            nodes.append(u)
    left = []
    for u in nodes:
        a = u.args[1] if u.op == 'div' else u.args[0]
        if (u.op, a) in seen or u.op == 'div' and not tm.free(a):
            continue
        seen.add((u.op, a))
        if tm.free(a) != {extract.t_}:
            if u.op != 'div':
                left.append(u)
            continue
        if u.op in ('asin', 'acos'):
            c, lo, hi, txt = a, -1, 1, 'in [-1, 1]'
        elif u.op == 'div':
            c, lo, hi, txt = tm.mul(a, a), 1e-9, np.inf, 'not zero'
        else:
            c, lo, hi, txt = a, 1e-9, np.inf, 'positive'
        r, s = timed(prove_t, c, lo, hi, SPAN)
        from_bb(rep, nm + 'argument of %s %s (1900-2100): %s' % (u.op, txt, tm.show(a, 2)[:60]), r, secs=s, cfg=cfg)
    for u in left:
        a = u.args[0]
        ok = u.op in ('asin', 'acos') and clipped(a)
        rep.obligation(nm + 'argument of %s is clipped to [-1, 1]: %s' % (u.op, tm.show(a, 2)[:60]),
                       'proved' if ok else 'undecided', 'structure')


def clipped(a):
    """bounds of a by its constants, max and min alone are within [-1, 1]"""
    def bounds(u):
        if tm.isc(u):
            return float(u.val), float(u.val)
        if u.op in ('max', 'min'):
            f = max if u.op == 'max' else min
            b = [bounds(x) for x in u.args]
            return f(x[0] for x in b), f(x[1] for x in b)
        return -np.inf, np.inf
    lo, hi = bounds(a)
    return -1 <= lo and hi <= 1


def calendar(ts):
    """t lies in 1900-2100; facts of the civil calendar about the year and month counts of ts"""
    a, b = epoch('1900-01-01'), epoch('2101-01-01')
    out = [tm.le(a, extract.t_), tm.lt(extract.t_, b)]
    for u in tm.children_first(list(ts)):
        if u.op in ('year', 'month'):
            y, m = tm.mk('year', u.args), tm.mk('month', u.args)
            out += [tm.le(tm.mul(12, y), m), tm.le(m, tm.add(tm.mul(12, y), 11))]
            if u.args[0] is extract.t_:
                out += [tm.le(-70, y), tm.le(y, 130)]
    return out


def in_range(t, lo, hi):
    """lo <= t <= hi throughout 1900-2100"""
    try:
        if prove_t(t, float(lo), float(hi), SPAN, secs=5.):
            return True
        c = tm.and_(tm.le(lo, t), tm.le(t, hi))
        return extract.SOLVER.valid(calendar([t]), c, 10000)[0] == 'proved'
    except Exception:
        return False


def integers(rep, nm, mod, ref):
    """32-bit integers do not overflow; table and array indexes are in range"""
    for nd in (0, 1, 2):
        x = get(rep, mod, nd, ref)
        if x is None:
            continue
        t0 = time.time()
        bad = [tm.show(t, 3)[:80] for t, (lo, hi) in x.fits.items() if not in_range(t, lo, hi)]
        rep.obligation('%s32-bit integers do not overflow in 1900-2100 [ndim=%d]: %d terms' % (nm, nd, len(x.fits)),
                       'undecided' if bad else 'proved', 'interval/z3', time.time() - t0, bad[:2])
        t0 = time.time()
        side = list(dict.fromkeys(x.side))
        bad = [w for c, w in side if extract.SOLVER.valid(calendar([c]), c, 10000)[0] != 'proved']
        rep.obligation('%severy index is within its table or array [ndim=%d]: %d terms' % (nm, nd, len(side)),
                       'undecided' if bad else 'proved', 'z3', time.time() - t0, bad[:2])


def p_C06(rep):
    from . import posit, geom
    N = nf.NF(positive=posit.positive)
    z = geom.z_
    for (algo, eng), mod in extract.MODULES.items():
        cfg = [(algo, eng)]
        for ref in (False, True):
            nm = 'libspa.%s.sunpos[refraction=%s]: ' % (mod, ref)
            q = same_for_all_ndims(rep, N, mod, ref, cfg)
            if any(q[v] is None for v in OUT):
                rep.obligation(nm + 'terms', 'undecided', 'pyded.nf', 0., 'no extracted term')
                continue
            for v in ('declination', 'eot', 'ecf'):
                r, s = timed(prove_t, ready(N, q[v]), *RANGE[v], SPAN)
                from_bb(rep, nm + '%s in [%.6g, %.6g] at every second of 1900-2100' % ((v,) + RANGE[v]), r, secs=s, cfg=cfg)
            partial_ops(rep, nm, q, cfg)
            integers(rep, nm, mod, ref)
            g = geom.by_angle(N, [q['zenith']])
            if g is None:
                rep.obligation(nm + 'zenith is a function of one arc cosine', 'undecided', 'pyded.nf')
            else:
                r, s = timed(bb.prove, geom.cot(g[0]), -1e-9, np.pi + 1e-9, {z: geom.box1(0, np.pi, 64)}, [z])
                from_bb(rep, nm + 'zenith finite and in [0, pi] for every value of its arc cosine', r, secs=s)
                if r.status == 'refuted':
                    aim(cfg, r.point[z])
            g = geom.of_arc(q['azimuth'])
            if g is None:
                rep.obligation(nm + 'azimuth is a function of arc tangents', 'undecided', 'pyded.nf')
            else:
                bx = geom.grid({a: geom.box1(-np.pi, np.pi, 16) for a in g[1]})
                r, s = timed(bb.prove, g[0], -np.pi - 1e-6, np.pi + 1e-6, bx, list(bx))
                from_bb(rep, nm + 'azimuth in [-pi, pi] for every value of its arc tangent', r, secs=s)
    return 'proof', ('ranges over 1900-2100 by interval branch and bound for every second; zenith and azimuth as functions '
                     'of their arc cosine and arc tangent for every value of these; every asin/acos/sqrt/division in its '
                     'domain')


def p_C07(rep):
    from . import posit, geom
    N = nf.NF(positive=posit.positive)
    z = geom.z_
    deg = np.radians
    for (algo, eng), mod in extract.MODULES.items():
        cfg = [(algo, eng)]
        nm = 'libspa.%s.sunpos: ' % mod
        q0, q1 = [same_for_all_ndims(rep, N, mod, ref, cfg) for ref in (False, True)]
        if any(q[v] is None for v in OUT for q in (q0, q1)):
            rep.obligation(nm + 'terms', 'undecided', 'pyded.nf', 0., 'no extracted term')
            continue
        for v in OUT[1:]:
            eq_obligation(rep, nm + '%s is the same with and without refraction' % v, v, q0[v], q1[v], N, cfg, TERM_TOL[v], alarm=ALARM['C07'])
        g = geom.by_angle(N, [q0['zenith'], q1['zenith']])
        rep.obligation(nm + 'zenith with and without refraction are functions of one arc cosine z',
                       'undecided' if g is None else 'proved', 'pyded.nf')
        if g is None:
            continue
        g = [geom.cot(x) for x in g]
        r, s = timed(bb.prove, tm.sub(g[0], z), -1e-4, 1e-4, {z: geom.box1(0, np.pi, 64)}, [z])
        if not from_bb(rep, nm + 'zenith without refraction within 1e-4 rad of z', r, secs=s):
            continue
        lo, hi = min(r.rng[0], 0), max(r.rng[1], 0)
        lift = tm.sub(g[0], g[1])
        tiny = 1e-9
        for name, a, b, dom in (
                ('never lowers by more than 0.0001 degrees, never raises by more than 0.8', -deg(1e-4), deg(.8), (0, np.pi)),
                ('raises by less than 0.02 degrees above 75 degrees', -deg(.02), deg(.02), (0, deg(15) - lo)),
                ('raises by 0.4 to 0.7 degrees at true elevation zero', deg(.4), deg(.7), (deg(90) - hi, deg(90) - lo)),
                ('has no effect below -0.84 degrees', -tiny, tiny, (deg(90.84) - hi, np.pi))):
            r, s = timed(bb.prove, lift, a, b, {z: geom.box1(dom[0], dom[1], 64)}, [z])
            from_bb(rep, nm + 'refraction ' + name, r, secs=s)
            if r.status == 'refuted':
                aim(cfg, r.point[z])
    return 'proof', ('outputs with and without refraction compared by normal form; the lift as a function of the true '
                     'zenith by interval branch and bound over all zeniths')


def aim(cfg, zen):
    """candidate inputs with a given true zenith angle (for a moderate declination)"""
    rng = np.random.default_rng(5)
    t = rng.integers(epoch('2000-01-01'), epoch('2030-01-01'), 40)
    from . import spa_spec
    lat = rng.uniform(-20, 20, 40)
    grid = np.linspace(-180, 179.9, 1441)
    best = []
    for i in range(40):
        e = 90 - spa_spec.spa(np.full(grid.size, t[i]), np.full(grid.size, lat[i]), grid)['e0']
        k = int(np.argmin(abs(e - np.degrees(zen))))
        a, c = grid[max(k - 1, 0)], grid[min(k + 1, grid.size - 1)]
        fine = np.linspace(a, c, 2001)
        e = 90 - spa_spec.spa(np.full(fine.size, t[i]), np.full(fine.size, lat[i]), fine)['e0']
        best.append(fine[int(np.argmin(abs(e - np.degrees(zen))))])
    hints.add(cfg, hints.clampP([t, lat, np.array(best)]))


def ready(N, t):
    try:
        return interval_ready(N.canon(t))
    except nf.TooBig:
        return interval_ready(t)


def bb_difference(N, a, b, half, tol):
    """|a - b| <= tol modulo 2 half, 1900-2100 (sine and cosine of the difference)"""
    e = tm.div(tm.mul(tm.sub(a, b), tm.PI), half)
    S, C = [ready(N, tm.fn(g, e)) for g in ('sin', 'cos')]
    if {extract.t_} < tm.free(S):
        return bb.Result('undecided', 'depends on more than the instant')
    tol = float(tol / half.val * np.pi)
    r = prove_t(S, -tol * .999, tol * .999, SPAN, 86400, secs=90.)
    if not r:
        return r
    c = prove_t(C, .5, 1.5, SPAN, 86400, secs=60.)
    return r if c else c


def topocentric(m, X, R, geom):
    """parallax as published, for any declination, hour angle"""
    from . import spa_spec
    d, H, lat = X(geom.d_), X(geom.h_), X(geom.lat_)
    return {k: v.t for k, v in spa_spec.parallax(m, X(R), d, H, lat).items()}


def spherical(m, X, geom):
    from . import spa_spec
    e, a = spa_spec.elevation_azimuth(m, X(geom.d_), X(geom.h_), X(geom.lat_))
    c = tm.rewrite(e.t, lambda u: geom.unclip(u) if u.op in ('max', 'min') else None)
    return c, a.t


MACHINE = {'C02': [m for p in PAIRS.values() for m in p], 'C04': ['ne_nrel']}
COMPOSED = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07')    # contracts of sunpos, and of the API that calls it


def run(rep):
    from . import proofs_api, proofs_cli
    name = 'p_' + rep.prop
    f = globals().get(name) or getattr(proofs_api, name, None) or getattr(proofs_cli, name, None)
    if f is None:
        return 'exploration', 'bounded run-time contract checks'
    from . import lemmas
    job = lemmas.start(rep.prop)
    level, technique = f(rep)
    lemmas.finish(rep, job)
    if rep.prop in COMPOSED:
        from . import machine
        machine.obligations(rep, MACHINE.get(rep.prop, list(extract.MODULES.values())),
                            (0, 1, 2) if rep.prop in ('C01', 'C02') else (0,))
        proofs_api.elements(rep, truth=rep.prop == 'C07', kinds=proofs_api.api.KINDS if rep.prop == 'C01' else
                            ('naive array', 'aware scalar'))
    if rep.prop in ('C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C20'):
        from . import machine_api
        machine_api.obligations(rep, rep.prop)
    if not rep.obl:
        raise RuntimeError('no obligations were generated')
    return level, technique
