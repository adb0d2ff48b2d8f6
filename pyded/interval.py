"""Rigorous enclosures of terms over boxes (vectorised over many boxes).

Every node carries its range V over the box, its range C at the centre of the
box and the range D of its partial derivatives over the box; V is intersected
with the mean-value form C + D (X - c).  Steps (floor, year, month...) and
undecided branches split a box into lanes, one for each branch: on a lane the
branch is fixed, so the lane's function is smooth over the whole box and equals
the code's on the part of the box that takes that branch.

All operations are rounded outwards; numpy's elementary functions are assumed
accurate to 4 ulp."""
import numpy as np
from . import terms as tm, evalnum

EPS = 5e-16
TINY = 1e-290
INF = np.inf
TWO_PI = 2 * np.pi


class GiveUp(Exception):
    pass


def dn(x):
    return x - np.abs(x) * EPS - TINY


def up(x):
    return x + np.abs(x) * EPS + TINY


def fix(r):
    lo, hi = r
    bad = np.isnan(lo) | np.isnan(hi)
    if bad.any():
        lo, hi = np.where(bad, -INF, lo), np.where(bad, INF, hi)
    return lo, hi


def i_add(a, b):
    return fix((dn(a[0] + b[0]), up(a[1] + b[1])))


def i_neg(a):
    return -a[1], -a[0]


def i_sub(a, b):
    return i_add(a, i_neg(b))


def i_scale(a, c):
    x, y = a[0] * c, a[1] * c
    return fix((dn(np.minimum(x, y)), up(np.maximum(x, y))))


def i_mul(a, b):
    p = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
    p = [np.where(np.isnan(x), 0., x) for x in p] if any(np.isnan(x).any() for x in p) else p
    lo = np.minimum(np.minimum(p[0], p[1]), np.minimum(p[2], p[3]))
    hi = np.maximum(np.maximum(p[0], p[1]), np.maximum(p[2], p[3]))
    return dn(lo), up(hi)


def i_sqr(a):
    x, y = a[0] * a[0], a[1] * a[1]
    lo = np.where((a[0] <= 0) & (a[1] >= 0), 0., np.minimum(x, y))
    return np.maximum(dn(lo), 0.), up(np.maximum(x, y))


def i_inv(a):
    z = (a[0] <= 0) & (a[1] >= 0)
    lo, hi = dn(1 / a[1]), up(1 / a[0])
    return fix((np.where(z, -INF, lo), np.where(z, INF, hi)))


def i_hull(a, b):
    return np.minimum(a[0], b[0]), np.maximum(a[1], b[1])


def i_meet(a, b):
    lo, hi = np.maximum(a[0], b[0]), np.minimum(a[1], b[1])
    bad = lo > hi           # rounding only: keep the first
    if np.any(bad):
        lo, hi = np.where(bad, a[0], lo), np.where(bad, a[1], hi)
    return lo, hi


def i_sin(a):
    lo, hi = a
    w = hi - lo
    s0, s1 = np.sin(lo), np.sin(hi)
    e = 4e-16 * (1 + 0 * lo)
    mn, mx = np.minimum(s0, s1) - e, np.maximum(s0, s1) + e
    q = np.abs(hi) * 1e-15 + 1e-15
    kmax = np.floor((hi + q - np.pi / 2) / TWO_PI) > np.floor((lo - q - np.pi / 2) / TWO_PI)
    kmin = np.floor((hi + q + np.pi / 2) / TWO_PI) > np.floor((lo - q + np.pi / 2) / TWO_PI)
    full = ~(w < TWO_PI)
    mx = np.where(kmax | full, 1., mx)
    mn = np.where(kmin | full, -1., mn)
    return np.maximum(np.where(np.isnan(mn), -1, mn), -1.), np.minimum(np.where(np.isnan(mx), 1, mx), 1.)


HP = np.pi / 2


def i_cos(a):
    return i_sin((dn(a[0] + HP) - 1e-16, up(a[1] + HP) + 1e-16))


def mono(f, lo_d=None, hi_d=None):
    def g(a):
        lo, hi = a
        if lo_d is not None:
            lo = np.clip(lo, lo_d, hi_d)
            hi = np.clip(hi, lo_d, hi_d)
        x, y = f(lo), f(hi)
        return fix((x - np.abs(x) * 1e-15 - 1e-300, y + np.abs(y) * 1e-15 + 1e-300))
    return g


i_asin = mono(np.arcsin, -1., 1.)
i_atan = mono(np.arctan)
i_exp = mono(np.exp)
i_log = mono(lambda x: np.log(np.maximum(x, 0.)))
i_sqrt = mono(lambda x: np.sqrt(np.maximum(x, 0.)))


def i_acos(a):
    r = i_asin(a)
    return dn(HP - r[1]) - 2e-16, up(HP - r[0]) + 2e-16


def i_tan(a):
    lo, hi = a
    q = np.abs(hi) * 1e-15 + 1e-15
    pole = (np.floor((hi + q - HP) / np.pi) > np.floor((lo - q - HP) / np.pi)) | ~(hi - lo < np.pi)
    x, y = np.tan(lo), np.tan(hi)
    x, y = x - np.abs(x) * 1e-15 - 1e-300, y + np.abs(y) * 1e-15 + 1e-300
    # sensitivity to the rounding of pi in far arguments
    return fix((np.where(pole, -INF, x), np.where(pole, INF, y)))


def i_powc(a, e):
    if e == int(e) and e >= 0:
        e = int(e)
        if e == 2:
            return i_sqr(a)
        x, y = a[0] ** e, a[1] ** e
        lo, hi = np.minimum(x, y), np.maximum(x, y)
        if e % 2 == 0:
            lo = np.where((a[0] <= 0) & (a[1] >= 0), 0., lo)
        return fix((lo - np.abs(lo) * 1e-15, hi + np.abs(hi) * 1e-15))
    if e == int(e):
        return i_inv(i_powc(a, -e))
    pos = a[0] >= 0
    x, y = np.maximum(a[0], 0.) ** e, np.maximum(a[1], 0.) ** e
    lo, hi = np.minimum(x, y), np.maximum(x, y)
    lo, hi = lo - np.abs(lo) * 1e-15, hi + np.abs(hi) * 1e-15
    return fix((np.where(pos, lo, -INF), np.where(pos, hi, INF)))


def i_atan2(y, x):
    c = [np.arctan2(p, q) for p in y for q in x]
    lo = np.minimum(np.minimum(c[0], c[1]), np.minimum(c[2], c[3]))
    hi = np.maximum(np.maximum(c[0], c[1]), np.maximum(c[2], c[3]))
    # crossing the cut or containing the origin
    cut = (x[0] <= 0) & (y[0] <= 0) & (y[1] >= 0)
    # extremes on a box not meeting the cut are at corners
    lo, hi = lo - 1e-15, hi + 1e-15
    return np.where(cut, -np.pi - 1e-15, lo), np.where(cut, np.pi + 1e-15, hi)


_GRAN = {}


def granularity(t):
    """q such that t is a multiple of 1/q wherever the integer symbols are integers"""
    if t in _GRAN:
        return _GRAN[t]
    r = None
    if t.op == 'c':
        r = t.val.denominator
    elif tm.is_int(t):
        r = 1
    elif t.op == 'add':
        r = 1
        for a in t.args:
            g = granularity(a)
            if g is None:
                r = None
                break
            r = r * g // np.gcd(r, g) if r < 1e12 and g < 1e12 else None
            if r is None:
                break
    elif t.op == 'mul':
        r = 1
        for a in t.args:
            g = granularity(a)
            if g is None or r > 1e12:
                r = None
                break
            r = r * g
    _GRAN[t] = None if r is None else int(r)
    return _GRAN[t]


STEP = {'floor', 'trunc', 'year', 'month'}


class Ev:
    def __init__(self, boxes, diff, max_lanes=6, center=True):
        """boxes: {sym: (lo, hi)}; diff: symbols to differentiate by"""
        self.n = max(len(np.atleast_1d(v[0])) for v in boxes.values())
        self.boxes = {s: tuple(np.broadcast_to(np.asarray(x, float), (self.n,)) for x in v) for s, v in boxes.items()}
        self.diff = list(diff)
        self.lane = np.arange(self.n)
        self.max = max_lanes * self.n + 64
        self.memo = {}
        self.dX = [None] * len(self.diff)
        for i, s in enumerate(self.diff):
            lo, hi = self.boxes[s]
            c = (lo + hi) / 2
            self.dX[i] = (dn(lo - c), up(hi - c), c)

    # -------------------------------------------------- lanes
    def reindex(self, idx):
        def f(x):
            return x if x is None or x.shape[0] == 1 and self.cur != 1 else x[idx]
        self.cur = len(self.lane)
        for k, v in self.memo.items():
            if v is None:
                continue
            if v[0] == 'b':
                self.memo[k] = ('b', f(v[1]), f(v[2]))
            else:
                V, C, D = v
                self.memo[k] = ((f(V[0]), f(V[1])), (f(C[0]), f(C[1])),
                                [None if d is None else (f(d[0]), f(d[1])) for d in D])
        self.lane = self.lane[idx]
        self.dX = [(a[idx], b[idx], c[idx]) for a, b, c in self.dX]

    def bro(self, x):
        return np.broadcast_to(x, self.lane.shape) if x.shape[0] == 1 else x

    # -------------------------------------------------- evaluation
    def run(self, roots):
        order = tm.children_first(list(roots))
        last = {}
        for i, u in enumerate(order):
            for a in u.args:
                last[a] = i
        for r in roots:
            last[r] = len(order)
        drop = {}
        for u, i in last.items():
            drop.setdefault(i, []).append(u)
        with np.errstate(all='ignore'):
            for i, u in enumerate(order):
                self.memo[u] = None
                r = self.node(u)
                if r[0] != 'b' and u.op not in STEP and tm.is_int(u):    # integral on the points considered
                    V = r[0]
                    lo, hi = np.ceil(V[0]), np.floor(V[1])
                    r = ((np.where(lo <= hi, lo, np.rint(V[0])), np.where(lo <= hi, hi, np.rint(V[1]))),) + tuple(r[1:])
                self.memo[u] = r
                for d in drop.get(i, ()):
                    del self.memo[d]
        return [self.memo[r] for r in roots]

    def const(self, lo, hi):
        a = (np.array([lo]), np.array([hi]))
        return a, a, [None] * len(self.diff)

    def mk(self, V, C, D):
        """meet with the mean-value form"""
        m = C
        ok = False
        for d, x in zip(D, self.dX):
            if d is None:
                continue
            ok = True
            m = i_add(m, i_mul(d, (x[0], x[1])))
        if ok or all(d is None for d in D):
            V = i_meet(V, fix(m)) if ok else V
        return V, C, D

    def chain(self, D, g):
        return [None if d is None else i_mul(d, g) for d in D]

    def dadd(self, *Ds):
        out = []
        for ds in zip(*Ds):
            r = None
            for d in ds:
                if d is None:
                    continue
                r = d if r is None else i_add(r, d)
            out.append(r)
        return out

    def node(self, u):
        op, a = u.op, [self.memo[x] for x in u.args]
        if u in self.boxes:
            lo, hi = [x[self.lane] for x in self.boxes[u]]
            if u in self.diff:
                i = self.diff.index(u)
                c = self.dX[i][2]
                D = [None] * len(self.diff)
                D[i] = (np.array([1.]), np.array([1.]))
                return (lo, hi), (c, c), D
            return (lo, hi), (lo, hi), [None] * len(self.diff)
        if op == 'c':
            x = float(u.val)
            from fractions import Fraction
            e = 0. if Fraction(x) == u.val else abs(x) * 2.3e-16
            return self.const(x - e, x + e)
        if op == 'pi':
            return self.const(np.pi, np.nextafter(np.pi, 4))
        if op == 'true':
            return ('b', np.array([True]), np.array([False]))
        if op == 'false':
            return ('b', np.array([False]), np.array([True]))
        if op == 'nan':
            raise GiveUp('nan')
        if op == 'inf':
            x = INF * u.val
            return self.const(x, x)
        if op == 'not':
            return ('b', a[0][2], a[0][1])
        if op == 'and':
            t = a[0][1]
            f = a[0][2]
            for x in a[1:]:
                t, f = t & x[1], f | x[2]
            return ('b', t, f)
        if op in ('lt', 'le'):
            if a[0][0] == 'b':
                raise GiveUp('bool compare')
            V = self.gap(u, a)
            if op == 'lt':
                return ('b', V[0] < 0, V[1] >= 0)
            return ('b', V[0] <= 0, V[1] > 0)
        if op == 'eq':
            if a[0][0] == 'b':
                raise GiveUp('bool compare')
            V = self.gap(u, a)
            pt = (V[0] >= -0.) & (V[1] <= 0)
            return ('b', (V[0] <= 0) & (V[1] >= 0), ~pt)
        if op == 'ite':
            _, t, f = a[0]
            und = self.bro(t & f)
            if und.any():
                if len(self.lane) + und.sum() <= self.max:
                    n = len(self.lane)
                    idx = np.concatenate([np.arange(n), np.nonzero(und)[0]])
                    self.memo[u] = None
                    self.reindex(idx)
                    _, t, f = self.memo[u.args[0]]
                    t, f = np.array(self.bro(t)), np.array(self.bro(f))
                    f[:n] = np.where(und, False, f[:n])
                    t[n:] = False
                    self.memo[u.args[0]] = ('b', t, f)
                    a = [self.memo[x] for x in u.args]
                else:
                    raise GiveUp('too many lanes')
            t = self.bro(t)
            f = self.bro(f)
            none = ~t & ~f

            def sel(p, q):
                return np.where(t, self.bro(p), self.bro(q))
            if a[1][0] == 'b':
                return ('b', sel(a[1][1], a[2][1]), sel(a[1][2], a[2][2]))
            (V1, C1, D1), (V2, C2, D2) = a[1], a[2]
            z = np.array([0.])
            D = [None if p is None and q is None else
                 (sel(z if p is None else p[0], z if q is None else q[0]),
                  sel(z if p is None else p[1], z if q is None else q[1])) for p, q in zip(D1, D2)]
            return (sel(V1[0], V2[0]), sel(V1[1], V2[1])), (sel(C1[0], C2[0]), sel(C1[1], C2[1])), D
        if op in STEP:
            return self.step(u)
        if any(x[0] == 'b' for x in a if isinstance(x[0], str)):
            raise GiveUp(op)
        if op == 'add':
            V, C, D = a[0]
            for x in a[1:]:
                V, C, D = i_add(V, x[0]), i_add(C, x[1]), self.dadd(D, x[2])
            return self.mk(V, C, D)
        if op == 'mul':
            r = a[0]
            for k, x in enumerate(a[1:]):
                if u.args[k + 1] is u.args[k] and len(a) == 2:
                    V, C = i_sqr(r[0]), i_sqr(r[1])
                    r = self.mk(V, C, self.chain(r[2], i_scale(r[0], 2.)))
                    continue
                D = self.dadd(self.chain(r[2], x[0]), self.chain(x[2], r[0]))
                r = self.mk(i_mul(r[0], x[0]), i_mul(r[1], x[1]), D)
            return r
        if op == 'div':
            p, q = a
            iq, ic = i_inv(q[0]), i_inv(q[1])
            g = i_neg(i_mul(p[0], i_sqr(iq)))
            D = self.dadd(self.chain(p[2], iq), self.chain(q[2], g))
            return self.mk(i_mul(p[0], iq), i_mul(p[1], ic), D)
        if op == 'pow':
            if not tm.isc(u.args[1]):
                raise GiveUp('pow')
            e = float(u.args[1].val)
            p = a[0]
            return self.mk(i_powc(p[0], e), i_powc(p[1], e),
                           self.chain(p[2], i_scale(i_powc(p[0], e - 1), e)))
        if op == 'mod':
            p, m = a
            if not (tm.isc(u.args[1]) or not tm.free(u.args[1])):
                raise GiveUp('mod')
            return self.node_mod(u)
        F1 = {'sin': (i_sin, lambda x: i_cos(x)), 'cos': (i_cos, lambda x: i_neg(i_sin(x))),
              'tan': (i_tan, lambda x: i_add((np.array([1.]), np.array([1.])), i_sqr(i_tan(x)))),
              'asin': (i_asin, lambda x: i_inv(i_sqrt(i_sub((np.array([1.]), np.array([1.])), i_sqr(x))))),
              'acos': (i_acos, lambda x: i_neg(i_inv(i_sqrt(i_sub((np.array([1.]), np.array([1.])), i_sqr(x)))))),
              'atan': (i_atan, lambda x: i_inv(i_add((np.array([1.]), np.array([1.])), i_sqr(x)))),
              'exp': (i_exp, i_exp), 'log': (i_log, i_inv),
              'sqrt': (i_sqrt, lambda x: i_scale(i_inv(i_sqrt(x)), .5))}
        if op in F1:
            f, g = F1[op]
            p = a[0]
            return self.mk(f(p[0]), f(p[1]), self.chain(p[2], g(p[0])) if any(d is not None for d in p[2]) else p[2])
        if op == 'abs':
            p = a[0]

            def ab(x):
                lo = np.where((x[0] <= 0) & (x[1] >= 0), 0., np.minimum(np.abs(x[0]), np.abs(x[1])))
                return lo, np.maximum(np.abs(x[0]), np.abs(x[1]))
            g = (np.where(p[0][0] >= 0, 1., -1.), np.where(p[0][1] <= 0, -1., 1.))
            return self.mk(ab(p[0]), ab(p[1]), self.chain(p[2], g))
        if op in ('max', 'min'):
            p, q = a
            f = np.maximum if op == 'max' else np.minimum
            V = f(p[0][0], q[0][0]), f(p[0][1], q[0][1])
            C = f(p[1][0], q[1][0]), f(p[1][1], q[1][1])
            d = i_sub(p[0], q[0])
            first = d[0] >= 0 if op == 'max' else d[1] <= 0
            second = d[1] <= 0 if op == 'max' else d[0] >= 0
            D = []
            z = (np.array([0.]), np.array([0.]))
            for x, y in zip(p[2], q[2]):
                if x is None and y is None:
                    D.append(None)
                    continue
                x, y = x or z, y or z
                h = i_hull(x, y)
                D.append((np.where(first, x[0], np.where(second, y[0], h[0])),
                          np.where(first, x[1], np.where(second, y[1], h[1]))))
            return self.mk(V, C, D)
        if op == 'atan2':
            y, x = a
            r2 = i_inv(i_add(i_sqr(y[0]), i_sqr(x[0])))
            D = self.dadd(self.chain(y[2], i_mul(x[0], r2)), self.chain(x[2], i_neg(i_mul(y[0], r2))))
            cut = (x[0][0] <= 0) & (y[0][0] <= 0) & (y[0][1] >= 0)
            V = i_atan2(y[0], x[0])
            C = i_atan2(y[1], x[1])
            simple = self.bro((x[0][1] < 0) & (y[0][0] <= 0) & (y[0][1] >= 0))
            if np.any(simple) and len(self.lane) + simple.sum() <= self.max:
                # across the cut: one lane continues the upper, one the lower branch
                n = len(self.lane)
                side = np.concatenate([np.where(simple, 1., 0.), -np.ones(int(simple.sum()))])
                self.reindex(np.concatenate([np.arange(n), np.nonzero(simple)[0]]))
                y, x = [self.memo[q] for q in u.args]

                def branch(yy, xx):
                    r = i_atan(i_mul(yy, i_inv(xx)))
                    p = side * np.pi
                    return dn(r[0] + p) - 5e-16, up(r[1] + p) + 5e-16
                o = [i_atan2(y[k], x[k]) for k in (0, 1)]
                b = [branch(y[k], x[k]) for k in (0, 1)]
                V, C = [tuple(np.where(side != 0, b[k][j], self.bro(o[k][j])) for j in (0, 1)) for k in (0, 1)]
                r2 = i_inv(i_add(i_sqr(y[0]), i_sqr(x[0])))
                D = self.dadd(self.chain(y[2], i_mul(x[0], r2)), self.chain(x[2], i_neg(i_mul(y[0], r2))))
                cut = self.bro((x[0][0] <= 0) & (y[0][0] <= 0) & (y[0][1] >= 0)) & (side == 0)
            if np.any(cut):     # discontinuous there
                cutb = self.bro(cut)
                D = [None if d is None else (np.where(cutb, -INF, d[0]), np.where(cutb, INF, d[1])) for d in D]
            return self.mk(V, C, D)
        if op == 'mstart':
            V, C = a[0][0], a[0][1]
            f = lambda m: evalnum.np_mstart(np.rint(m))     # noqa: E731
            return (f(V[0]), f(V[1])), (f(V[0]), f(V[1])), [None] * len(self.diff)
        if op == 'lut':
            V = a[0][0]
            k0, k1 = self.bro(np.rint(V[0])).astype(int), self.bro(np.rint(V[1])).astype(int)
            tab = np.array([float(v) for v in u.val])
            n = len(tab)
            if (k0 < 0).any() or (k1 >= n).any():
                raise GiveUp('table index out of range')
            if (k0 != k1).any():
                lo, hi = np.full(len(k0), INF), np.full(len(k0), -INF)
                for j in range(n):
                    m = (k0 <= j) & (j <= k1)
                    lo, hi = np.where(m, np.minimum(lo, tab[j]), lo), np.where(m, np.maximum(hi, tab[j]), hi)
                w = np.where(k0 != k1, INF, 0.)
                return (lo, hi), (lo, hi), [(-w, w) for _ in self.diff]
            v = tab[k0]
            return (dn(v), up(v)), (dn(v), up(v)), [None] * len(self.diff)
        raise GiveUp(op)

    def gap(self, u, a):
        V, _, _ = self.sub(a[0], a[1])
        q = [granularity(x) for x in u.args]
        if None not in q and max(q) < 1e6:       # a multiple of 1/q: only its sign matters
            q = float(np.lcm(q[0], q[1]))
            V = dn(V[0] * q), up(V[1] * q)
            lo, hi = np.ceil(V[0]), np.floor(V[1])
            V = np.where(lo <= hi, lo, np.rint(V[0])), np.where(lo <= hi, hi, np.rint(V[1]))
        return V

    def sub(self, p, q):
        return self.mk(i_sub(p[0], q[0]), i_sub(p[1], q[1]),
                       self.dadd(p[2], [None if d is None else i_neg(d) for d in q[2]]))

    def node_mod(self, u):
        x, m = u.args
        k = self.split_int(x, lambda v, mm: np.floor(v / mm), m)
        p, mm = self.memo[x], self.memo[m]
        k = (k, k)
        V = i_sub(p[0], i_mul(mm[0], k))
        C = i_sub(p[1], i_mul(mm[1], k))
        return self.mk(V, C, p[2])

    def split_int(self, x, f, m=None):
        """lanes on which the integer step f(x) is one value; returns that value"""
        p = self.memo[x]
        lo, hi = [self.bro(v) for v in p[0]]
        q = granularity(x)
        if q is not None and q < 1e7:      # multiples of 1/q: step over the exact values
            lo, hi = [(np.rint(v * q)) for v in (np.maximum(lo, -1e13), np.minimum(hi, 1e13))]
            if q > 1:
                lo, hi = (lo + .25) / q, (hi + .25) / q
        if m is None:
            a, b = f(lo), f(hi)
        else:
            mm = float(self.memo[m][0][0][0])
            mh = float(self.memo[m][0][1][0])
            if mm <= 0:
                raise GiveUp('mod')
            a, b = np.minimum(f(lo, mm), f(lo, mh)), np.maximum(f(hi, mm), f(hi, mh))
        a, b = np.minimum(a, b), np.maximum(a, b)       # a lane no input reaches may have lo > hi
        n = len(self.lane)
        w = b - a
        if not np.all(np.isfinite(w)):
            raise GiveUp('unbounded step')
        if (w == 0).all():
            return a
        extra = w.astype(int)
        if n + extra.sum() > self.max:
            raise GiveUp('too many lanes')
        idx = np.repeat(np.arange(n), extra + 1)
        off = np.arange(len(idx)) - np.repeat(np.cumsum(extra + 1) - (extra + 1), extra + 1)
        self.reindex(idx)
        return a[idx] + off

    def step(self, u):
        op = u.op
        x = u.args[0]
        f = {'floor': np.floor, 'trunc': np.trunc, 'year': evalnum.np_year, 'month': evalnum.np_month}[op]
        if op in ('year', 'month'):
            p = self.memo[x][0]
            if not (np.isfinite(p[0]).all() and np.isfinite(p[1]).all()):
                raise GiveUp(op)
            # calendar steps act on integers: exact ends
            g = f
            f = lambda v: g(np.rint(v))      # noqa: E731
        k = self.split_int(x, f)
        return (k, k), (k, k), [None] * len(self.diff)


def prepare(t, N):
    """an equal term without nested steps (normal form, indicators back to conditionals)"""
    c = N.canon(t)
    return tm.rewrite(c, lambda u: tm.ite(u.args[0], tm.ONE, tm.ZERO) if u.op == 'ind' else None)


def ranges(roots, boxes, diff, chunk=8192, **kw):
    """(lo, hi) of every root over every box, hull over lanes"""
    roots = list(roots)
    n = max(len(np.atleast_1d(v[0])) for v in boxes.values())
    out = [(np.empty(n), np.empty(n)) for _ in roots]
    for i in range(0, n, chunk):
        j = min(n, i + chunk)
        bx = {s: tuple(np.broadcast_to(np.asarray(x, float), (n,))[i:j] for x in v) for s, v in boxes.items()}
        e = Ev(bx, diff, **kw)
        rs = e.run(roots)
        for (lo, hi), r in zip(out, rs):
            if r[0] == 'b':
                raise GiveUp('boolean root')
            a, b = np.full(j - i, INF), np.full(j - i, -INF)
            np.minimum.at(a, e.lane, e.bro(r[0][0]))
            np.maximum.at(b, e.lane, e.bro(r[0][1]))
            lo[i:j], hi[i:j] = a, b
    return out
