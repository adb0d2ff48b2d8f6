"""Where the extracted terms switch: points on both sides of every branch
condition, kink and discontinuity, and the array sizes on which paths split.

Contract obligations that fail to discharge are searched for a counterexample
here; the bounded run-time checks are also run on all these points."""
import numpy as np
from .common import rand_t, epoch, points as gen_points
from pyded import terms as tm, evalnum, extract

EXTRA = {}          # (algo, engine) -> [(t, lat, lon)]: counterexample candidates of failed obligations
_CACHE = {}
LO, HI = epoch('1900-01-01'), epoch('2101-01-01') - 1


def ev(ts, P):
    env = {extract.t_: P[0].astype(float), extract.lat_: P[1], extract.lon_: P[2]}
    r = evalnum.evaluate(list(ts), env, r32=True)
    n = len(P[0])
    return [np.broadcast_to(np.asarray(x), (n,)) for x in r]


def supported(t):
    return not tm.atoms([t], ('sel', 'isnan', 'uf', 'bsel', 'forall', 'reduce', 'rank', 'enum', 'bsym', 'ptrue')) and \
        tm.free(t) <= {extract.t_, extract.lat_, extract.lon_}


def conditions(roots):
    """(atomic conditions, boolean guards, switch functions) of terms"""
    atoms, guards, fns = [], [], []
    for u in tm.children_first(list(roots)):
        a = u.args
        if u.op in ('lt', 'le', 'eq') and not tm.is_bool(a[0]):
            atoms.append(u)
            fns.append(tm.sub(a[0], a[1]))
        elif u.op == 'ite':
            guards.append(u.args[0])
        elif u.op in ('max', 'min'):
            fns.append(tm.sub(a[0], a[1]))
        elif u.op in ('floor', 'trunc') and not tm.is_int(a[0]):
            fns.append(tm.fn('sin', tm.mul(tm.PI, a[0])))
        elif u.op in ('abs', 'sqrt', 'sign') or u.op == 'atan2':
            fns.append(a[0])
        elif u.op in ('acos', 'asin'):
            fns.append(tm.sub(tm.fn('abs', a[0]), tm.const(0.999999)))
        elif u.op == 'div' and not tm.isc(a[1]):
            fns.append(a[1])
    guards = [g for g in dict.fromkeys(guards) if supported(g)]
    fns = [f for f in dict.fromkeys(fns) if supported(f) and tm.free(f)]
    return atoms, guards, fns


def rand(rng, n):
    return list(gen_points(rng, n))


def clampP(P):
    t, la, lo = P
    lo = (lo + 180.) % 360. - 180.
    lo = np.where(lo >= 180., -180., lo)
    return [np.clip(np.asarray(t, float), LO, HI).astype('int64'), np.clip(la, -90, 90), lo]


def boundary(fns, rng, per):
    """pairs of points next to the sign changes of each switch function"""
    out = []
    n = 6000 if sum(tm.size(f) for f in fns) < 30000 else 1200
    P = rand(rng, n)
    base = ev(fns, P)
    for f, g0 in zip(fns, base):
        fv = tm.free(f)
        for k, s in enumerate((extract.t_, extract.lat_, extract.lon_)):
            if s not in fv:
                continue
            Q = [x.copy() for x in P]
            if k == 0:
                Q[0] = np.where(rng.random(n) < .5, rand_t(rng, n), np.clip(P[0] + rng.integers(-2 * 86400, 2 * 86400, n), LO, HI))
            else:
                Q[k] = rand(rng, n)[k]
            g1 = ev([f], Q)[0]
            m = np.nonzero((np.sign(g0) != np.sign(g1)) & np.isfinite(g0) & np.isfinite(g1))[0]
            if not len(m):
                continue
            m = m[:per]
            A, B = [x[m].copy() for x in P], [x[m].copy() for x in Q]
            ga = np.sign(g0[m])
            for _ in range(40 if k == 0 else 48):
                M = [x.copy() for x in A]
                M[k] = (A[k] + B[k]) // 2 if k == 0 else (A[k] + B[k]) / 2
                gm = np.sign(ev([f], M)[0])
                left = gm == ga
                A[k] = np.where(left, M[k], A[k])
                B[k] = np.where(left, B[k], M[k])
            out += [A, B]
            if k:
                for d in (0, 1, 3):
                    R = [x.copy() for x in A]
                    R[k] = np.round(R[k], d)
                    out.append(R)
    return out


def dist(c, want, val):
    """branch distance in [0, 1): 0 where condition c has truth value `want`"""
    if c is tm.TRUE or c is tm.FALSE:
        return 0. if (c is tm.TRUE) == want else 1.
    if c.op == 'not':
        return dist(c.args[0], not want, val)
    if c.op == 'and':
        ds = [dist(x, want, val) for x in c.args]
        return sum(ds) / len(ds) if want else np.minimum.reduce(np.broadcast_arrays(*ds))
    if c.op in ('lt', 'le', 'eq') and not tm.is_bool(c.args[0]):
        d = val[tm.sub(c.args[0], c.args[1])]
        if c.op == 'eq':
            r = np.abs(d) if want else np.where(d == 0, 1., 0.)
        else:
            ok = (d < 0) if c.op == 'lt' else (d <= 0)
            r = np.where(ok == want, 0., np.abs(d) + 1e-9)
        r = np.where(np.isnan(r), 1e9, r)
        return r / (1. + r)
    return np.where(val[c] == want, 0., 1.) if c in val else 1.


def cond_fns(c):
    return [tm.sub(u.args[0], u.args[1]) for u in tm.children_first([c])
            if u.op in ('lt', 'le', 'eq') and not tm.is_bool(u.args[0])]


def search(c, want, rng, pop=3000, gens=30):
    """points at which condition c has truth value `want` (search guided by the branch distance)"""
    fns = list(dict.fromkeys(cond_fns(c)))
    if not fns:
        return None

    def fit(P):
        val = dict(zip(fns, ev(fns, P)))
        return np.broadcast_to(dist(c, want, val), P[0].shape)
    P = rand(rng, pop)
    d = fit(P)
    for _ in range(gens):
        if (d == 0).sum() >= 8:
            break
        o = np.argsort(d, kind='stable')[:pop // 6]
        src = rng.choice(o, pop)
        Q = [x[src].copy() for x in P]
        k = rng.integers(0, 3, pop)
        s = 10. ** rng.uniform(0, 9.5, pop)
        Q[0] = np.where(k == 0, Q[0] + (rng.normal(size=pop) * s).astype('int64'), Q[0])
        for j, sc in ((1, 90.), (2, 180.)):
            s = sc * 10. ** rng.uniform(-7, 0, pop)
            Q[j] = np.where(k == j, Q[j] + rng.normal(size=pop) * s, Q[j])
            r = rng.random(pop) < .1
            Q[j] = np.where(r & (k == j), np.round(Q[j], 1), Q[j])
        Q = clampP(Q)
        dq = fit(Q)
        P = [np.concatenate([x[o], y]) for x, y in zip(P, Q)]
        d = np.concatenate([d[o], dq])
    i = np.nonzero(d == 0)[0][:40]
    return [x[i] for x in P] if len(i) else None


def cfg_terms(cfgs):
    ts = []
    for c in cfgs:
        mod = extract.MODULES.get(tuple(c))
        if mod is None:
            continue
        for nd in (0, 1, 2):
            for ref in (False, True):
                x = extract.extract(mod, nd, ref)
                if x.error:
                    continue
                for v in extract.OUT:
                    ts += [t for t, _ in x.terms[v]]
    return list(dict.fromkeys(ts))


def pool(cfgs, seed=1, per=25):
    key = tuple(sorted(map(tuple, cfgs)))
    if key in _CACHE:
        return _CACHE[key]
    rng = np.random.default_rng(seed)
    roots = [t for t in cfg_terms(cfgs) if supported(t)]
    out = []
    if roots:
        _, guards, fns = conditions(roots)
        cheap = sum(tm.size(f) for f in fns)
        out += boundary(fns[:400], rng, max(4, min(per, int(4e5 / max(cheap, 1)))))
        if guards:
            P = rand(rng, 60000 if cheap < 30000 else 12000)
            for g, v in zip(guards, ev(guards, P)):
                v = np.asarray(v, bool)
                for want in (True, False):
                    i = np.nonzero(v == want)[0]
                    if len(i) >= 12:
                        j = rng.choice(i, min(len(i), 25), replace=False)
                        out.append([x[j] for x in P])
                    else:
                        if len(i):
                            out.append([x[i] for x in P])
                        r = search(g, want, rng)
                        if r is not None:
                            out.append(r)
    P = clampP([np.concatenate([o[k] for o in out]) for k in range(3)]) if out else None
    _CACHE[key] = P
    return P


def points(cfgs, rng, n):
    out = [e for c in cfgs for e in EXTRA.get(tuple(c), [])]
    P = pool(cfgs)
    if P is not None:
        i = np.arange(len(P[0])) if len(P[0]) <= n else rng.choice(len(P[0]), n, replace=False)
        out.append([x[i] for x in P])
    if not out:
        return None
    return [np.concatenate([np.atleast_1d(o[k]) for o in out]) for k in range(3)]


def add(cfg, P):
    EXTRA.setdefault(tuple(cfg), []).append(clampP([np.atleast_1d(x) for x in P]))


def sizes(cfgs, nds=(0, 1, 2), cap=70000):
    """array sizes (K, J, I) on which the paths of sunpos split, with ndim and refraction"""
    out = []
    for c in cfgs:
        mod = extract.MODULES.get(tuple(c))
        for nd in nds:
            for ref in (False, True):
                x = extract.extract(mod, nd, ref)
                if x.error or x.paths <= 1:
                    continue
                for o in x.outcomes:
                    r, m = extract.SOLVER.check([p for p in o.pc])
                    if r != 'sat' or m is None:
                        continue
                    s = {d.name(): m[d] for d in m.decls() if d.arity() == 0 and d.name().startswith('#')}
                    try:
                        s = [min(int(str(s.get(k, 1))), cap) for k in ('#K', '#J', '#I')]
                    except ValueError:
                        continue
                    out.append((tuple(c), nd, ref, s))
    return out
