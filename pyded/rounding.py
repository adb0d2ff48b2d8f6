"""Bounds on the rounding errors of double arithmetic, for every input at once.

The terms are those of an extraction made one operation at a time (terms.ONE_BY_ONE): each node is one operation of the
code.  Over a set of boxes of inputs every node carries

  U    an interval that contains its exact value,
  E    a bound on |computed - exact|,
  R    an interval that contains both the exact and the computed value,
  P    when not zero, U and E hold modulo P: a wrap (mod, where(x < 0, x + c, x), arctan2) may go one way in doubles and
       another in real arithmetic.

Assumed: IEEE doubles; sums and products are correctly rounded, elementary functions accurate to 4 ulp (2 ulp is granted to
sums and products and 4 to quotients and powers, for the rearrangements numexpr makes)."""
import numpy as np
from . import terms as tm, interval as iv, evalnum

U0 = 2.0 ** -53
FUN = 8 * U0
SIMPLE = 4 * U0
QUOT = 8 * U0
TWO_PI = 2 * np.pi
INF = np.inf


class GiveUp(Exception):
    pass


class S:
    __slots__ = ('U', 'E', 'R', 'P', 'k')

    def __init__(self, U, E, R=None, P=0., k=None):
        self.U, self.E, self.P = U, E, P
        self.R = (iv.dn(U[0] - E), iv.up(U[1] + E)) if R is None else R
        self.k = k              # the value, when it is a constant

    @property
    def M(self):
        return np.maximum(np.abs(self.R[0]), np.abs(self.R[1]))


class B:
    """a condition: where it may hold, where it may fail, where doubles and reals may disagree"""
    __slots__ = ('T', 'F', 'dis', 'why')

    def __init__(self, T, F, dis, why=None):
        self.T, self.F, self.dis, self.why = T, F, dis, why


def multiple(p, q):
    """p is a multiple of q, to rounding"""
    if q == 0:
        return p == 0
    r = p / q
    return abs(r - round(r)) < 1e-12 * max(1, abs(r)) and round(r) != 0 or p == 0


def common(p, q):
    if p == 0 or q == 0:
        return p or q
    if multiple(p, q):
        return q
    if multiple(q, p):
        return p
    raise GiveUp('wraps of %g and %g' % (p, q))


def decimal(n):
    for p in (2, 5):
        while n % p == 0:
            n //= p
    return n == 1


def hull(a, b):
    return np.minimum(a[0], b[0]), np.maximum(a[1], b[1])


def lost(s, at):
    """nothing is known of the boxes `at` (about a pole)"""
    bad = at | ~np.isfinite(s.E) | np.isnan(s.U[0]) | np.isnan(s.U[1])
    if not bad.any():
        return s
    f = lambda x, v: np.where(bad, v, x)
    return S((f(s.U[0], -INF), f(s.U[1], INF)), f(s.E, INF), (f(s.R[0], -INF), f(s.R[1], INF)), s.P, s.k)


def where(c, a, b):
    return np.where(c, a[0], b[0]), np.where(c, a[1], b[1])


class Errors:
    """the states of nodes over n boxes; `given`: states of some nodes (inputs, or abstracted ones)"""

    def __init__(self, n, given, bounds=None, excused=None, reciprocal=False):
        self.n, self.memo = n, dict(given)
        self.excused = excused or (lambda t, a, b: None)
        self.exclusions = []
        self.reciprocal = reciprocal    # quotients by constants may be made products with their reciprocals
        self.bounds = bounds or {}
        self.one = np.ones(n)

    def run(self, roots):
        with np.errstate(all='ignore'):
            todo = list(roots)
            while todo:
                t = todo[-1]
                if t in self.memo:
                    todo.pop()
                    continue
                new = [a for a in t.args if a not in self.memo]
                if new:
                    todo += new
                    continue
                todo.pop()
                try:
                    self.memo[t] = self.node(t, [self.memo[a] for a in t.args])
                except GiveUp as e:
                    raise GiveUp('%s in %s' % (e, tm.show(t, 3)[:150]))
        return [self.memo[r] for r in roots]

    def mk(self, lo, hi, E, **kw):
        o = self.one
        return S((lo * o, hi * o), E * o, **kw)

    def node(self, t, a):
        f = getattr(self, 'n_' + t.op, None)
        if f is None:
            raise GiveUp('operation %s' % t.op)
        r = f(t, *a)
        if isinstance(r, S):
            at = np.zeros(self.n, bool)
            if t.op != 'ite':
                for x in a:
                    if isinstance(x, S):
                        at = at | ~np.isfinite(x.E)
            if t.op not in ('atan', 'max', 'min') and not (t.op == 'div' and self.cotangent(t.args[1])):
                r = lost(r, at)
        if t.op in ('add', 'mul', 'div') and all(x.k is not None for x in a):
            x, y = a[0].k, a[1].k
            r.k = x + y if t.op == 'add' else x * y if t.op == 'mul' else x / y
        return r

    # -- leaves
    def n_c(self, t):
        v = float(t.val)
        exact = t.val.denominator & (t.val.denominator - 1) == 0 and abs(t.val.numerator) < 2 ** 53
        e = 0. if exact else SIMPLE * abs(v)
        if exact:
            o = self.one
            return S((v * o, v * o), 0. * o, (v * o, v * o), k=v)
        return self.mk(iv.dn(v), iv.up(v), e, k=v)

    def n_pi(self, t):
        return self.mk(iv.dn(np.pi), iv.up(np.pi), SIMPLE * np.pi, k=np.pi)

    def n_true(self, t):
        o = self.one > 0
        return B(o, ~o, ~o)

    def n_false(self, t):
        o = self.one > 0
        return B(~o, o, ~o)

    # -- arithmetic
    def n_add(self, t, a, b):
        P = common(a.P, b.P)
        R = iv.i_add(a.R, b.R)
        E = a.E + b.E
        M = np.maximum(np.abs(R[0]), np.abs(R[1]))
        if not (tm.is_int(t) and (M < 2 ** 53).all()):
            E = E + SIMPLE * M
        U = iv.i_add(a.U, b.U)
        return S(U, E, None if P == 0 else (R[0] - E, R[1] + E), P)

    def n_mul(self, t, a, b):
        if a is b and a.P == 0:
            return self.pw(a, 2, t)
        if b.k is not None and a.k is None:
            a, b = b, a
        if a.k is not None:
            P = abs(a.k) * b.P
        elif a.P or b.P:
            raise GiveUp('a wrapped value times another')
        else:
            P = 0.
        R = iv.i_mul(a.R, b.R)
        M = np.maximum(np.abs(R[0]), np.abs(R[1]))
        ma, mb = np.minimum(a.M, np.maximum(np.abs(a.U[0]), np.abs(a.U[1])) if not a.P else INF), b.M
        E = ma * b.E + mb * a.E + (0. if P else a.E * b.E)
        power_of_two = a.k is not None and np.frexp(abs(a.k))[0] == .5
        if not power_of_two and not (tm.is_int(t) and (M < 2 ** 53).all() and (E == 0).all()):
            E = E + SIMPLE * M
        return S(iv.i_mul(a.U, b.U), E, None if P == 0 else (R[0] - E, R[1] + E), P)

    def n_div(self, t, a, b):
        if b.k is not None:
            c = b.k
            inv = self.mk(iv.dn(1 / c), iv.up(1 / c), 0.)
            U, R = iv.i_mul(a.U, inv.U), iv.i_mul(a.R, inv.U)
            M = np.maximum(np.abs(R[0]), np.abs(R[1]))
            E = a.E / abs(c) + M * (b.E / abs(c) * 2) + QUOT * M
            return S(U, E, None if a.P == 0 else (R[0] - E, R[1] + E), a.P / abs(c))
        if a.P or b.P:
            raise GiveUp('a wrapped value divided')
        lo = np.where(b.R[0] > 0, b.R[0], np.where(b.R[1] < 0, -b.R[1], 0.))
        ct = self.cotangent(t.args[1])
        if ct is not None:
            c, x = ct
            V = iv.dn(x.U[0] - x.E), iv.up(x.U[1] + x.E)
            sn, cs, sx = iv.i_sin(V), iv.i_cos(V), iv.i_sin(x.U)
            s = np.where((sn[0] <= 0) & (sn[1] >= 0), 0., np.minimum(np.abs(sn[0]), np.abs(sn[1])))
            g = iv.i_mul(iv.i_cos(x.U), iv.i_inv(sx))
            m = np.where(s > 0, np.maximum(np.abs(cs[0]), np.abs(cs[1])) / np.where(s > 0, s, 1.), INF)
            inv = self.mk(iv.dn(1 / c), iv.up(1 / c), 0.)
            U = iv.i_mul(iv.i_mul(a.U, inv.U), g)
            M = a.M / abs(c) * m
            E = a.E / abs(c) * m + a.M / abs(c) * x.E / np.where(s > 0, s * s, 1.) + 4 * FUN * M + 1e-300
            return lost(S(U, E), ~(s > 0))
        U = iv.i_mul(a.U, iv.i_inv(b.U))
        q = np.maximum(np.abs(U[0]), np.abs(U[1]))
        E = (a.E + q * b.E) / lo
        return lost(S(U, E + QUOT * (q + E)), ~(lo > 0))

    def cotangent(self, t):
        """t = c tan(x): 1/t goes through the pole of the tangent: (c, state of x)"""
        c = 1.
        while t.op == 'mul':
            a, b = [self.memo[q] for q in t.args]
            if a.k is not None:
                c, t = c * a.k, t.args[1]
            elif b.k is not None:
                c, t = c * b.k, t.args[0]
            else:
                return None
        if t.op != 'tan' or self.memo[t.args[0]].P or c == 0:
            return None
        return c, self.memo[t.args[0]]

    def pw(self, a, k, t):
        lo = np.where((a.U[0] <= 0) & (a.U[1] >= 0), 0., np.minimum(np.abs(a.U[0]), np.abs(a.U[1])))
        hi = np.maximum(np.abs(a.U[0]), np.abs(a.U[1]))
        if k % 2 == 0:
            U = iv.dn(lo ** k * (1 - 1e-15)), iv.up(hi ** k * (1 + 1e-15))
            U = np.maximum(U[0], 0.), U[1]
        else:
            U = iv.dn(np.sign(a.U[0]) * np.abs(a.U[0]) ** k * (1 + np.where(a.U[0] > 0, -1e-15, 1e-15))), \
                iv.up(np.sign(a.U[1]) * np.abs(a.U[1]) ** k * (1 + np.where(a.U[1] > 0, 1e-15, -1e-15)))
        E = k * a.M ** (k - 1) * a.E + k * QUOT * a.M ** k
        return S(U, E)

    def n_pow(self, t, a, b):
        k = b.k
        if a.P:
            raise GiveUp('power of a wrapped value')
        if k is not None and k == int(k) and 1 <= k <= 12:
            return self.pw(a, int(k), t)
        if k is not None and k < 0 and k == int(k) and k >= -4:
            return self.n_div(t, self.mk(1., 1., 0.), self.pw(a, int(-k), t))
        lo, hi = a.R
        if k is not None and 0 < k < 1 and not (lo > 0).all() and self.nonneg(t.args[0]):
            # concave: |x^k - y^k| <= |x - y|^k
            lo = np.maximum(lo, 0.)
            u, v, x = lo ** k, hi ** k, np.maximum(a.U[0], 0.)
            E = np.where(lo > 0, np.minimum(a.E ** k, k * np.where(lo > 0, lo, 1.) ** (k - 1) * a.E), a.E ** k)
            return S((iv.dn(x ** k * (1 - 1e-14)), iv.up(a.U[1] ** k * (1 + 1e-14))), E + 64 * U0 * v, (0 * u, v * (1 + 1e-13)))
        if not (lo > 0).all() or k is None:
            raise GiveUp('power')
        u, v = lo ** k, hi ** k
        U = iv.dn(np.minimum(u, v) * (1 - 1e-14)), iv.up(np.maximum(u, v) * (1 + 1e-14))
        d = abs(k) * np.maximum(lo ** (k - 1), hi ** (k - 1))
        return S(U, d * a.E + 64 * U0 * U[1])

    # -- functions
    def n_sin(self, t, a):
        if a.P and not multiple(a.P, TWO_PI):
            raise GiveUp('sine of a value modulo %g' % a.P)
        U = iv.i_sin(a.U)
        return S(U, np.minimum(a.E, 2.) + FUN)

    def n_cos(self, t, a):
        if a.P and not multiple(a.P, TWO_PI):
            raise GiveUp('cosine of a value modulo %g' % a.P)
        return S(iv.i_cos(a.U), np.minimum(a.E, 2.) + FUN)

    def n_tan(self, t, a):
        if a.P and not multiple(a.P, np.pi):
            raise GiveUp('tangent of a value modulo %g' % a.P)
        V = iv.dn(a.U[0] - a.E), iv.up(a.U[1] + a.E)
        T = iv.i_tan(V)
        m = np.maximum(np.abs(T[0]), np.abs(T[1]))
        return lost(S(iv.i_tan(a.U), (1 + m * m) * a.E + FUN * m), ~np.isfinite(m))

    def arc(self, t, a, f, decreasing):
        if a.P:
            raise GiveUp('arc of a wrapped value')
        if not ((a.R[0] >= -1) & (a.R[1] <= 1)).all():
            raise GiveUp('argument of an arc may leave [-1, 1]')
        lo, hi = np.clip(a.U[0], -1, 1), np.clip(a.U[1], -1, 1)
        u, v = f(lo), f(hi)
        U = (iv.dn(v), iv.up(u)) if decreasing else (iv.dn(u), iv.up(v))
        U = U[0] - 4e-15, U[1] + 4e-15
        m = np.minimum(a.M, 1.)
        s = np.sqrt(np.maximum(1 - m * m, 0.))
        e = np.minimum(a.E, 2.)
        # the arcs have the modulus of continuity arccos(1 - e); away from the ends they are Lipschitz
        E = np.minimum(np.where(s > 0, a.E / s, INF), np.arccos(1 - e) * (1 + 1e-6) + np.sqrt(2 * e) * 1e-3)
        return S(U, E + FUN * np.pi)

    def n_asin(self, t, a):
        return self.arc(t, a, np.arcsin, False)

    def n_acos(self, t, a):
        return self.arc(t, a, np.arccos, True)

    def tangent(self, t):
        """c tan(x), x from -90 to 90 degrees in doubles too: (c, x)"""
        c = 1.
        while t.op in ('mul', 'div'):
            if t.op == 'mul' and self.memo[t.args[0]].k is not None:
                c, t = c * self.memo[t.args[0]].k, t.args[1]
            elif self.memo[t.args[1]].k is not None:
                k = self.memo[t.args[1]].k
                c, t = (c * k if t.op == 'mul' else c / k), t.args[0]
            else:
                return None
        if t.op != 'tan' or c <= 0:
            return None
        x = y = t.args[0]
        while y.op in ('mul', 'div'):       # a positive multiple of an input: it grows with the input in doubles too
            a, b = [self.memo[q].k for q in y.args]
            if not (a or b) or (a or b) < 0 or y.op == 'div' and a:
                return None
            y = y.args[1] if a else y.args[0]
        if y.op != 'sym':
            return None
        for end in (float(self.memo[y].U[0].min()), float(self.memo[y].U[1].max())):
            if abs(evalnum.evaluate(x, {y: np.float64(end)})) > 1.5707963267948966:
                return None
        return c, x

    def n_atan(self, t, a):
        q = self.tangent(t.args[0])
        if q is not None:
            c, x = q
            x = self.memo[x]
            o = self.one
            return S((-np.pi / 2 * o, np.pi / 2 * o), max(c, 1 / c) * x.E + 4 * FUN + FUN * np.pi)
        if a.P:
            raise GiveUp('arc of a wrapped value')
        U = np.arctan(a.U[0]) - 4e-15, np.arctan(a.U[1]) + 4e-15
        return S(U, a.E + FUN * np.pi)

    def n_atan2(self, t, y, x):
        if y.P or x.P:
            raise GiveUp('arc of a wrapped value')
        near = [np.where((q.U[0] <= 0) & (q.U[1] >= 0), 0., np.minimum(np.abs(q.U[0]), np.abs(q.U[1]))) for q in (y, x)]
        r = np.hypot(*near) * (1 - 1e-14)
        if t in self.bounds:
            r = np.maximum(r, self.bounds[t])
        e = np.hypot(y.E, x.E)
        ok = r > 2 * e
        self.ok = ok
        E = np.where(ok, np.arcsin(np.where(ok, e / np.where(ok, r, 1.), 0.)), np.pi) + FUN * np.pi
        yc, xc = (y.U[0] + y.U[1]) / 2, (x.U[0] + x.U[1]) / 2
        rad = np.hypot((y.U[1] - y.U[0]) / 2, (x.U[1] - x.U[0]) / 2) * (1 + 1e-14)
        rc = np.hypot(yc, xc)
        c = np.arctan2(yc, xc)
        w = np.where(rc > rad, np.arcsin(np.where(rc > rad, rad / np.where(rc > rad, rc, 1.), 0.)), np.pi) + 1e-14
        U = c - w, c + w
        pos = x.R[0] > 0
        if pos.all():
            return S((np.maximum(U[0], -np.pi), np.minimum(U[1], np.pi)), E)
        return S(U, E, (-np.pi * (1 + 1e-15) * self.one, np.pi * (1 + 1e-15) * self.one), TWO_PI)

    def n_sqrt(self, t, a):
        if a.P or not (a.R[0] >= -1e-300).all() and not (a.U[0] >= 0).all():
            raise GiveUp('square root of a negative number')
        if not (a.R[0] >= 0).all() and not self.nonneg(t.args[0]):
            raise GiveUp('square root of what may be negative')
        lo = np.maximum(a.U[0], 0.)
        s = np.sqrt(lo)
        E = np.minimum(np.sqrt(a.E), np.where(s > 0, a.E / np.where(s > 0, s, 1.), INF))
        U = np.sqrt(lo) * (1 - 1e-15), np.sqrt(np.maximum(a.U[1], 0.)) * (1 + 1e-15)
        return S(U, E + FUN * (U[1] + E))

    def nonneg(self, t):
        """computed as a sum of squares and the like"""
        if t.op == 'c':
            return t.val >= 0
        if t.op == 'pow':
            return tm.isc(t.args[1]) and t.args[1].val % 2 == 0 or self.nonneg(t.args[0])
        if t.op == 'mul':
            return t.args[0] is t.args[1] or all(self.nonneg(x) for x in t.args)
        if t.op in ('add', 'div'):
            return all(self.nonneg(x) for x in t.args)
        if t.op == 'max':
            return any(self.nonneg(x) for x in t.args)
        if t.op == 'sym':
            return bool((self.memo[t].R[0] >= 0).all())
        if t.op == 'pi':
            return True
        return t.op in ('sqrt', 'abs', 'exp')

    def n_exp(self, t, a):
        if a.P:
            raise GiveUp('exponential of a wrapped value')
        hi = np.exp(a.R[1]) * (1 + 1e-14)
        return S((np.exp(a.U[0]) * (1 - 1e-14), np.exp(a.U[1]) * (1 + 1e-14)), hi * (a.E + FUN))

    def n_log(self, t, a):
        if a.P or not (a.R[0] > 0).all():
            raise GiveUp('logarithm')
        U = iv.dn(np.log(a.U[0])) - 1e-15, iv.up(np.log(a.U[1])) + 1e-15
        return S(U, a.E / a.R[0] + FUN * (np.maximum(np.abs(U[0]), np.abs(U[1])) + a.E / a.R[0]))

    def n_abs(self, t, a):
        if a.P:
            raise GiveUp('size of a wrapped value')
        lo = np.where((a.U[0] <= 0) & (a.U[1] >= 0), 0., np.minimum(np.abs(a.U[0]), np.abs(a.U[1])))
        return S((lo, np.maximum(np.abs(a.U[0]), np.abs(a.U[1]))), a.E)

    def pick(self, a, b, f):
        if a.P or b.P:
            raise GiveUp('maximum or minimum of a wrapped value')
        R = f(a.R[0], b.R[0]), f(a.R[1], b.R[1])
        E = np.maximum(a.E, b.E)
        for x, y in ((a, b), (b, a)):       # one of them always, where the other is out of reach
            out = y.R[1] <= x.R[0] if f is np.maximum else x.R[1] <= y.R[0]
            E = np.where(out, x.E, E)
        return S((f(a.U[0], b.U[0]), f(a.U[1], b.U[1])), np.minimum(E, R[1] - R[0]), R)

    def n_max(self, t, a, b):
        return self.pick(a, b, np.maximum)

    def n_min(self, t, a, b):
        return self.pick(a, b, np.minimum)

    def n_r32(self, t, a):
        return S(a.U, a.E + 2.0 ** -23 * a.M + 1e-40, None if a.P == 0 else (a.R[0] - 2.0 ** -23 * a.M, a.R[1] + 2.0 ** -23 * a.M),
                 a.P)

    # -- steps
    def steady(self, x, c, a):
        """x/c reaches an integer in doubles exactly when it does in reals: x a quotient of whole numbers, or whole"""
        if c != int(c):
            return False
        d = 1
        if x.op == 'mul' and tm.isc(x.args[0]) and x.args[0].val.numerator == 1 and not decimal(x.args[0].val.denominator):
            # such a constant is no double: a change of units of whole numbers
            if c == 1 and tm.is_int(x.args[1]):
                return True
        if x.op == 'div' and not self.reciprocal and tm.isc(x.args[1]) and x.args[1].val.denominator == 1:
            d, x = int(x.args[1].val), x.args[0]
        if not tm.is_int(x):
            return False
        return bool((a.E < .5 / abs(c * d)).all()) and bool((a.M < 2 ** 52).all())

    def n_mod(self, t, a, b):
        c = b.k
        if c is None or c == 0:
            raise GiveUp('remainder by what is not a constant')
        R = (0. * self.one, abs(c) * self.one) if c > 0 else (-abs(c) * self.one, 0. * self.one)
        n = np.floor(a.U[0] / c)
        inside = (np.floor(a.U[1] / c) == n)
        if a.P == 0 and self.steady(t.args[0], c, a):
            E = a.E if tm.is_int(t.args[0]) else a.E + 2 * SIMPLE * abs(c)
            return S(where(inside, (iv.dn(a.U[0] - n * c), iv.up(a.U[1] - n * c)), R), E, (R[0], R[1]))
        P = common(a.P, abs(c))
        E = a.E + (a.M / abs(c) + 2) * b.E + 2 * SIMPLE * abs(c)
        sure = (np.floor((a.U[0] - a.E) / c * (1 - 1e-15)) == np.floor((a.U[1] + a.E) / c * (1 + 1e-15))) & inside
        if a.P == 0 and sure.all():
            return S((iv.dn(a.U[0] - n * c) - n * 0, iv.up(a.U[1] - n * c)), E, R)
        return S(a.U, E, R, P)

    def step(self, t, a, f, n_lo, n_hi):
        x = t.args[0]
        if a.P == 0 and (self.steady(x, 1, a) or bool((n_lo(a.U[0] - a.E) == n_hi(a.U[1] + a.E)).all())):
            return S((n_lo(a.U[0]), n_hi(a.U[1])), 0. * self.one)
        if a.P and not multiple(a.P, 1):
            raise GiveUp('whole part of a wrapped value')
        return S((0. * self.one, 0. * self.one), 0. * self.one, (n_lo(a.R[0]), n_hi(a.R[1])), 1.)

    def n_floor(self, t, a):
        return self.step(t, a, np.floor, np.floor, np.floor)

    def n_trunc(self, t, a):
        return self.step(t, a, np.trunc, np.trunc, np.trunc)

    def calendar(self, t, a, f):
        if a.P or (a.E > 0).any():
            raise GiveUp('date of what is not a whole number')
        return S((f(np.floor(a.U[0])), f(np.floor(a.U[1]))), 0. * self.one)

    def n_year(self, t, a):
        return self.calendar(t, a, evalnum.np_year)

    def n_month(self, t, a):
        return self.calendar(t, a, evalnum.np_month)

    def n_mstart(self, t, a):
        return self.calendar(t, a, evalnum.np_mstart)

    def n_lut(self, t, a):
        if a.P or (a.E > 0).any():
            raise GiveUp('table read at what is not a whole number')
        tab = np.array([float(v) for v in t.val])
        lo, hi = np.ceil(a.U[0] - 1e-9), np.floor(a.U[1] + 1e-9)
        lo, hi = np.clip(lo, 0, len(tab) - 1).astype(int), np.clip(hi, 0, len(tab) - 1).astype(int)
        L, H = np.full(self.n, INF), np.full(self.n, -INF)
        for k in range(len(tab)):
            on = (lo <= k) & (k <= hi)
            L, H = np.where(on, np.minimum(L, tab[k]), L), np.where(on, np.maximum(H, tab[k]), H)
        e = 0. if np.all(tab == np.rint(tab)) else SIMPLE * np.abs(tab).max()
        return S((L, H), e * self.one)

    # -- conditions
    def comparison(self, t, a, b, strict):
        if a.P or b.P:
            d = a.R[0] - b.R[1], a.R[1] - b.R[0]
            T, F = d[0] <= 0, d[1] >= 0
            return B(T, F, T & F)
        d = iv.i_sub(a.U, b.U)
        E = a.E + b.E
        T, F = d[0] - E <= 0, d[1] + E >= 0
        exact = E == 0
        dis = T & F & ~exact
        if dis.any():
            why = self.excused(t, a, b)
            if why:
                self.exclusions.append(why)
                return B(T, F, dis & False)
        return B(T, F, dis)

    def n_lt(self, t, a, b):
        return self.comparison(t, a, b, True)

    def n_le(self, t, a, b):
        return self.comparison(t, a, b, False)

    def n_eq(self, t, a, b):
        if a.P or b.P or (a.E > 0).any() or (b.E > 0).any():
            raise GiveUp('equality of inexact numbers')
        d = iv.i_sub(a.U, b.U)
        T, F = (d[0] <= 0) & (d[1] >= 0), self.one > 0
        return B(T, F, T & False)

    def n_not(self, t, a):
        return B(a.F, a.T, a.dis)

    def n_and(self, t, *xs):
        T, F = xs[0].T, xs[0].F
        dis = xs[0].dis
        for x in xs[1:]:
            dis = (dis & x.T) | (x.dis & T)
            T, F = T & x.T, F | x.F
        return B(T, F, dis)

    def n_ite(self, t, c, a, b):
        if isinstance(a, B):
            raise GiveUp('choice of conditions')
        R = where(c.T & c.F, hull(a.R, b.R), where(c.T, a.R, b.R))
        E = where(c.T & c.F, (np.maximum(a.E, b.E),) * 2, where(c.T, (a.E,) * 2, (b.E,) * 2))[0]
        P = common(a.P, b.P)
        if not c.dis.any():
            U = where(c.T & c.F, hull(a.U, b.U), where(c.T, a.U, b.U))
            return S(U, E, R, P)
        k = self.apart(t.args[1], t.args[2])
        if k is not None:       # where(x < 0, x + k, x): the same value modulo k
            P = common(P, abs(k[0]))
            E = E + SIMPLE * abs(k[0]) + k[1]
            m = k[0] / P        # whole
            ua = a.U[0] - k[0], a.U[1] - k[0]
            return S(hull(ua, b.U), E, R, P)
        if P:
            s = np.rint(((a.U[0] + a.U[1]) - (b.U[0] + b.U[1])) / 2 / P) * P
            ua = a.U[0] - s, a.U[1] - s
        else:
            ua = a.U
        gap = np.maximum(np.abs(ua[1] - b.U[0]), np.abs(b.U[1] - ua[0]))
        E = np.where(c.dis, E + gap, E)
        U = where(c.T & c.F, hull(ua, b.U), where(c.T, ua, b.U))
        return S(U, E, R, P)

    def apart(self, x, y):
        """x - y when the terms differ by a constant: (value, its rounding)"""
        def split(t):
            k, e = 0., 0.
            while t.op == 'add':
                a, b = [self.memo[q] for q in t.args]
                if b.k is not None or self.is_k(t.args[1]):
                    t, c = t.args[0], t.args[1]
                elif a.k is not None or self.is_k(t.args[0]):
                    t, c = t.args[1], t.args[0]
                else:
                    break
                s = self.memo[c]
                k += float((s.U[0][0] + s.U[1][0]) / 2)
                e += float(np.max(s.E))
            return t, k, e
        (a, j, e), (b, k, f) = split(x), split(y)
        return (j - k, e + f) if a is b and j != k else None

    def is_k(self, t):
        return not tm.free(t) if t.op not in ('c', 'pi') else True


def summary(s):
    """one box for all"""
    if isinstance(s, B):
        return B(np.array([s.T.any()]), np.array([s.F.any()]), np.array([s.dis.any()]))
    f = lambda lo, hi: (np.array([lo.min()]), np.array([hi.max()]))
    return S(f(*s.U), np.array([s.E.max()]), f(*s.R), s.P, s.k)


def spread(s, n):
    """one box repeated"""
    o = np.ones(n)
    if isinstance(s, B):
        return B(s.T & (o > 0), s.F & (o > 0), s.dis & (o > 0))
    return S((s.U[0] * o, s.U[1] * o), s.E * o, (s.R[0] * o, s.R[1] * o), s.P, s.k)


def join(a, b):
    """the states over two sets of boxes, summarised"""
    if isinstance(a, B):
        return B(a.T | b.T, a.F | b.F, a.dis | b.dis)
    P = common(a.P, b.P)
    return S(hull(a.U, b.U), np.maximum(a.E, b.E), hull(a.R, b.R), P, a.k)
