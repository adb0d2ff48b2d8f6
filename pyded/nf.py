"""Normal forms: real-algebraic equality of terms, decided symbolically.

A term becomes a polynomial over atoms with rational coefficients; atoms are
canonical terms (sin, cos, floor, indicators of conditions...).  Rules used:
ring laws; cos^2 -> 1 - sin^2; tan = sin/cos; periodicity (integer multiples of
2 pi, quarter turns); parity; acos = pi/2 - asin; sin/cos of asin/acos; mod and
floor of integers; ite(c,a,b) = b + [c](a-b), [c]^2 = [c]; positive common
factors of atan2; sqrt of squares."""
from fractions import Fraction
from . import terms as tm

HALF = Fraction(1, 2)
ONE_MONO = ()


class TooBig(Exception):
    pass


LIMIT = 4000


class NF:
    def __init__(self, positive=None):
        self.cache = {}
        self.pcache = {}
        self.positive = positive or (lambda t: False)    # side-condition prover: t > 0 ?
        self.assumed = []

    # ------------------------------------------------------------- polynomials
    def padd(self, p, q, k=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + k * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mono_mul(self, m, n):
        """product of monomials -> polynomial (trig and indicator reductions)"""
        d = dict(m)
        for a, e in n:
            d[a] = d.get(a, 0) + e
            if d[a] == 0:
                del d[a]
        red = None
        for a, e in d.items():
            if a.op == 'ind' and e > 1:
                d[a] = 1
            elif e >= 2 and a.op in ('cos', 'sqrt', 'abs', 'sign'):
                red = a
                break
        if red is None:
            return {tuple(sorted(d.items(), key=lambda x: x[0].id)): Fraction(1)}
        e = d.pop(red)
        if e - 2:
            d[red] = e - 2
        rest = self.mono_mul(tuple(d.items()), ())      # what is left may have more to reduce
        if red.op == 'cos':
            s = tm.mk('sin', red.args)
            sq = {ONE_MONO: Fraction(1), ((s, 2),): Fraction(-1)}
        elif red.op == 'sqrt':
            sq = self.poly(red.args[0])
        else:
            sq = self.pmul(self.poly(red.args[0]), self.poly(red.args[0]))
        return self.pmul(rest, sq)

    def pmul(self, p, q):
        if len(p) * len(q) > LIMIT:
            raise TooBig()
        if len(p) > len(q):
            p, q = q, p
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                if not m or not n:
                    k = m or n
                    r[k] = r.get(k, 0) + c * d
                    continue
                for k, f in self.mono_mul(m, n).items():
                    r[k] = r.get(k, 0) + c * d * f
        return {m: c for m, c in r.items() if c}

    def term(self, p):
        """canonical term of a polynomial"""
        key = tuple(sorted(((tuple((a.id, e) for a, e in m), c) for m, c in p.items())))
        if key in self.pcache:
            return self.pcache[key]
        if not p:
            t = tm.ZERO
        elif list(p) == [ONE_MONO]:
            t = tm.mk('c', (), p[ONE_MONO])
        elif len(p) == 1 and list(p.values())[0] == 1 and len(list(p)[0]) == 1 and list(p)[0][0][1] == 1:
            t = list(p)[0][0][0]
        else:
            parts = []
            for m, c in sorted(p.items(), key=lambda x: tuple((a.id, e) for a, e in x[0])):
                fs = [a if e == 1 else tm.mk('pow', (a, tm.mk('c', (), Fraction(e)))) for a, e in m]
                if c != 1 or not fs:
                    fs = [tm.mk('c', (), c)] + fs
                parts.append(fs[0] if len(fs) == 1 else tm.mk('mul', fs))
            t = parts[0] if len(parts) == 1 else tm.mk('add', parts)
        self.pcache[key] = t
        self.cache.setdefault(t, p)
        return t

    def canon(self, t):
        return self.term(self.poly(t))

    def atom(self, t):
        return {((t, 1),): Fraction(1)}

    def const(self, c):
        return {ONE_MONO: Fraction(c)} if c else {}

    def poly(self, t):
        for u in tm.children_first([t]):
            if u not in self.cache:
                self.cache[u] = self.one(u)
        return self.cache[t]

    def is_intpoly(self, p):
        return all(c.denominator == 1 and all(e >= 0 and (tm.is_int(a) or a.op == 'ind') for a, e in m)
                   for m, c in p.items())

    def one(self, u):
        op = u.op
        P = self.cache
        if op == 'c':
            return self.const(u.val)
        if tm.is_bool(u):
            return None
        a = u.args
        if op == 'add':
            r = {}
            for x in a:
                r = self.padd(r, P[x])
            return r
        if op == 'mul':
            r = self.const(1)
            for x in sorted(a, key=lambda x: len(P[x])):
                r = self.pmul(r, P[x])
            return r
        if op == 'div':
            return self.pmul(P[a[0]], self.inv(P[a[1]]))
        if op == 'pow':
            b = P[a[1]]
            if set(b) <= {ONE_MONO}:
                e = b.get(ONE_MONO, Fraction(0))
                if e.denominator == 1 and abs(e) <= (8 if len(P[a[0]]) > 3 else 24):
                    base = P[a[0]] if e >= 0 else self.inv(P[a[0]])
                    r = self.const(1)
                    for _ in range(abs(int(e))):
                        r = self.pmul(r, base)
                    return r
                if e.denominator == 2 and abs(e) <= 8:
                    k = int(e - HALF)
                    base = P[a[0]] if k >= 0 else self.inv(P[a[0]])
                    r = self.sqrt(P[a[0]])
                    for _ in range(abs(k)):
                        r = self.pmul(r, base)
                    return r
            return self.atom(tm.mk('pow', (self.term(P[a[0]]), self.term(b))))
        if op in ('sin', 'cos'):
            return self.trig(op, P[a[0]])
        if op == 'tan':
            return self.pmul(self.trig('sin', P[a[0]]), self.inv(self.trig('cos', P[a[0]])))
        if op == 'asin':
            return self.asin(P[a[0]])
        if op == 'acos':
            return self.padd(self.pscale(self.atom(tm.PI), HALF), self.asin(P[a[0]]), -1)
        if op == 'atan':
            p, s = self.signed(P[a[0]])
            return self.pscale(self.atom(tm.mk('atan', (self.term(p),))), s)
        if op == 'atan2':
            return self.atan2(P[a[0]], P[a[1]])
        if op == 'sqrt':
            return self.sqrt(P[a[0]])
        if op == 'abs':
            p, _ = self.signed(P[a[0]])
            if self.positive(self.term(p)):
                return p
            return self.atom(tm.mk('abs', (self.term(p),)))
        if op == 'floor':
            return self.floor(P[a[0]])
        if op == 'trunc':
            p = P[a[0]]
            if self.is_intpoly(p):
                return p
            return self.atom(tm.mk('trunc', (self.term(p),)))
        if op == 'mod':
            q = self.floor(self.pmul(P[a[0]], self.inv(P[a[1]])))
            return self.padd(P[a[0]], self.pmul(P[a[1]], q), -1)
        if op in ('max', 'min'):
            return self.maxmin(op, P[a[0]], P[a[1]])
        if op == 'ite':
            c = self.cond(a[0])
            if c is tm.TRUE:
                return P[a[1]]
            if c is tm.FALSE:
                return P[a[2]]
            ind = self.ind(c)
            d = self.padd(P[a[1]], P[a[2]], -1)
            return self.padd(P[a[2]], self.pmul(ind, d))
        if op == 'rnd':
            return self.atom(tm.mk('rnd', (self.term(P[a[0]]),), u.val))
        if not a:
            return self.atom(u)
        return self.atom(tm.mk(op, [self.term(P[x]) if P[x] is not None else self.cond(x) for x in a], u.val))

    def pscale(self, p, k):
        return {m: c * k for m, c in p.items()} if k else {}

    def content(self, p):
        """(monomial-with-coefficient, primitive polynomial), leading coefficient 1"""
        items = sorted(p.items(), key=lambda x: tuple((a.id, e) for a, e in x[0]))
        lead = items[0][1]
        return lead

    def inv(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            r = {tuple(sorted([(a, -e) for a, e in m], key=lambda x: x[0].id)): 1 / c}
            return r
        if not p:
            return self.atom(tm.mk('nan'))
        # common monomial factor
        common = None
        for m in p:
            d = dict(m)
            common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
        mono = {}
        if common:
            mono = common
            im = tuple(sorted([(a, -e) for a, e in common.items()], key=lambda x: x[0].id))
            q = {}
            for m, c in p.items():
                q = self.padd(q, {k: c * f for k, f in self.mono_mul(m, im).items()})
            p = q
        lead = self.content(p)
        t = self.term(self.pscale(p, 1 / lead))
        r = {((t, -1),): 1 / lead}
        if mono:
            r = self.pmul(r, {tuple(sorted([(a, -e) for a, e in mono.items()], key=lambda x: x[0].id)): Fraction(1)})
        return r

    def signed(self, p):
        """(±p with positive leading coefficient, sign)"""
        if not p:
            return p, 1
        return (p, 1) if self.content(p) > 0 else (self.pscale(p, -1), -1)

    # -------------------------------------------------------------------- trig
    def trig(self, op, p):
        pi1 = ((tm.PI, 1),)
        q, quarter = {}, 0
        for m, c in p.items():
            d = dict(m)
            if d.get(tm.PI) == 1:
                rest = [(a, e) for a, e in m if a is not tm.PI]
                if all(e >= 1 and (tm.is_int(a) or a.op == 'ind') for a, e in rest) and rest:
                    if (c / 2).denominator == 1:
                        continue        # multiple of 2 pi
                if m == pi1:
                    k = c / HALF
                    n = k.numerator // k.denominator
                    quarter += n
                    if k - n:
                        q[m] = (k - n) * HALF
                    continue
            q[m] = c
        # compositions with the inverse functions
        q, s = self.signed(q)
        quarter %= 4
        # sin(s*q + quarter*pi/2), s=±1
        def base(f):
            if not q:
                return self.const(0 if f == 'sin' else 1)
            if len(q) == 1:
                (m, c), = q.items()
                if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                    g = m[0][0]
                    if g.op == 'asin':
                        x = self.poly(g.args[0])
                        if f == 'sin':
                            return self.pscale(x, int(c))
                        return self.sqrt(self.padd(self.const(1), self.pmul(x, x), -1))
                    if g.op == 'atan':
                        x = self.poly(g.args[0])
                        h = self.inv(self.sqrt(self.padd(self.const(1), self.pmul(x, x))))
                        return h if f == 'cos' else self.pscale(self.pmul(x, h), int(c))
                    if g.op == 'atan2':
                        y, x = self.poly(g.args[0]), self.poly(g.args[1])
                        h = self.inv(self.sqrt(self.padd(self.pmul(y, y), self.pmul(x, x))))
                        return self.pmul(x, h) if f == 'cos' else self.pscale(self.pmul(y, h), int(c))
            return self.atom(tm.mk(f, (self.term(q),)))
        if op == 'cos':
            tab = [('cos', 1), ('sin', -1), ('cos', -1), ('sin', 1)]
        else:
            tab = [('sin', 1), ('cos', 1), ('sin', -1), ('cos', -1)]
        f, k = tab[quarter]
        r = base(f)
        if f == 'sin':
            k *= s
        return self.pscale(r, k)

    def asin(self, p):
        p, s = self.signed(p)
        if not p:
            return {}
        if list(p) == [ONE_MONO] and p[ONE_MONO] == 1:
            return self.pscale(self.atom(tm.PI), HALF * s)
        return self.pscale(self.atom(tm.mk('asin', (self.term(p),))), s)

    def unit_bounded(self, p):
        """|p| <= 1 by the identity |sin a sin b + cos a cos b cos h| <= 1"""
        if len(p) != 2 or any(abs(c) != 1 for c in p.values()):
            return False
        ms = sorted(p, key=len)
        if len(ms[0]) != 2 or len(ms[1]) != 3 or any(e != 1 for m in ms for _, e in m):
            return False
        A = [a for a, _ in ms[0]]
        B = [a for a, _ in ms[1]]
        sq = [self.pmul(self.atom(a), self.atom(a)) for a in A]
        for h in B:
            if h.op not in ('cos', 'sin'):
                continue
            b1, b2 = [b for b in B if b is not h]
            for x, y in ((b1, b2), (b2, b1)):
                if self.padd(self.padd(sq[0], self.pmul(self.atom(x), self.atom(x))), self.const(1), -1) == {} and \
                        self.padd(self.padd(sq[1], self.pmul(self.atom(y), self.atom(y))), self.const(1), -1) == {}:
                    return True
        return False

    def atan2(self, y, x):
        # clear positive denominators and common positive factors
        for _ in range(6):
            negs = {}
            for p in (y, x):
                for m in p:
                    for a, e in m:
                        if e < 0:
                            negs[a] = min(negs.get(a, 0), e)
            todo = [(a, e) for a, e in negs.items() if a.op == 'sqrt' or self.positive(a) or a is tm.PI]
            if not todo:
                break
            f = {tuple(sorted([(a, -e) for a, e in todo], key=lambda z: z[0].id)): Fraction(1)}
            try:
                f = self.expand_denoms(f)
                y, x = self.pmul(y, f), self.pmul(x, f)
            except TooBig:
                break
        common = None
        for p in (y, x):
            for m in p:
                d = {a: e for a, e in m if e > 0}
                common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
        todo = [(a, e) for a, e in (common or {}).items() if a is tm.PI or a.op == 'sqrt' or self.positive(a)]
        if todo:
            f = {tuple(sorted([(a, -e) for a, e in todo], key=lambda z: z[0].id)): Fraction(1)}
            y, x = self.pmul(y, f), self.pmul(x, f)
        if not y and not x:
            return self.atom(tm.mk('atan2', (tm.ZERO, tm.ZERO)))
        lead = abs(self.content(y if y else x))
        y, x = self.pscale(y, 1 / lead), self.pscale(x, 1 / lead)
        # atan2(-y, x) = -atan2(y, x)  (away from the branch cut)
        y, s = self.signed(y)
        return self.pscale(self.atom(tm.mk('atan2', (self.term(y), self.term(x)))), s)

    def expand_denoms(self, f):
        """atoms that are polynomials with positive exponent -> expanded"""
        r = {}
        for m, c in f.items():
            q = self.const(c)
            for a, e in m:
                b = self.poly(a) if a.op in ('add', 'mul', 'pow') and e > 0 else self.atom(a)
                for _ in range(abs(e)):
                    q = self.pmul(q, b if e > 0 else self.inv(self.atom(a)))
            r = self.padd(r, q)
        return r

    def sqrt(self, p):
        if not p:
            return {}
        if len(p) == 1:
            (m, c), = p.items()
            if all(e % 2 == 0 for _, e in m):
                k = self._csqrt(c)
                if k is not None:
                    r = self.const(k)
                    for a, e in m:
                        b = self.atom(a)
                        if not (a.op == 'sqrt' or a is tm.PI or self.positive(a)):
                            neg = self.positive(tm.neg(a))
                            b = self.pscale(b, -1) if neg else self.atom(tm.mk('abs', (a,)))
                        if e < 0:
                            b = self.inv(b)
                        for _ in range(abs(e) // 2):
                            r = self.pmul(r, b)
                    return r
        # 1 - sin^2 = cos^2
        if len(p) == 2 and ONE_MONO in p:
            (m, c), = [(m, c) for m, c in p.items() if m != ONE_MONO]
            if c == -p[ONE_MONO] and len(m) == 1 and m[0][0].op in ('sin', 'cos') and m[0][1] == 2:
                o = 'cos' if m[0][0].op == 'sin' else 'sin'
                k = self._csqrt(p[ONE_MONO])
                if k is not None:
                    b = tm.mk(o, m[0][0].args)
                    if self.positive(b):
                        return self.pscale(self.atom(b), k)
                    if self.positive(tm.neg(b)):
                        return self.pscale(self.atom(b), -k)
                    return self.pscale(self.atom(tm.mk('abs', (b,))), k)
        lead = abs(self.content(p))
        k = self._csqrt(lead)
        if k is not None and k != 1:
            return self.pscale(self.atom(tm.mk('sqrt', (self.term(self.pscale(p, 1 / lead)),))), k)
        return self.atom(tm.mk('sqrt', (self.term(p),)))

    def _csqrt(self, c):
        import math
        if c < 0:
            return None
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        return Fraction(a, b) if a * a == c.numerator and b * b == c.denominator else None

    def floor(self, p):
        ints = {m: c for m, c in p.items() if m != ONE_MONO and c.denominator == 1 and
                all(e >= 0 and (tm.is_int(a) or a.op == 'ind') for a, e in m)}
        rest = {m: c for m, c in p.items() if m not in ints}
        if ONE_MONO in rest:
            n = rest[ONE_MONO].numerator // rest[ONE_MONO].denominator
            if n:
                ints[ONE_MONO] = Fraction(n)
                rest = self.padd(rest, self.const(-n))
        if set(rest) <= {ONE_MONO}:
            return ints
        # floor(floor(x/m)/n) = floor(x/(m n)) for positive integers
        if len(rest) == 1:
            (m, c), = rest.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'floor' and c > 0 and c.numerator == 1:
                inner = self.pscale(self.poly(m[0][0].args[0]), c)
                return self.padd(ints, self.floor(inner))
        return self.padd(ints, self.atom(tm.mk('floor', (self.term(rest),))))

    def maxmin(self, op, p, q):
        if p == q:
            return p
        d = self.padd(p, q, -1)
        if set(d) <= {ONE_MONO}:
            pos = d.get(ONE_MONO, 0) > 0
            return p if pos == (op == 'max') else q
        # clip(x,-1,1) of a bounded x
        c, x = (p, q) if set(p) <= {ONE_MONO} else (q, p)
        if set(c) <= {ONE_MONO}:
            v = c.get(ONE_MONO, Fraction(0))
            if (op == 'max' and v <= -1 or op == 'min' and v >= 1) and self.unit_bounded(x):
                return x
            # canonical nesting: min(max(x, lo), hi) with lo < hi
            t = self.term(x)
            if op == 'max' and t.op == 'min' and tm.isc(t.args[1]) and t.args[1].val > v:
                hi = t.args[1]
                inner = self.maxmin('max', self.poly(t.args[0]), c)
                return self.maxmin('min', inner, self.const(hi.val))
        a, b = self.term(p), self.term(q)
        if tm.isc(a) or (not tm.isc(b) and a.id > b.id):
            a, b = b, a
        return self.atom(tm.mk(op, (a, b)))

    # -------------------------------------------------------------- conditions
    def cond(self, c):
        if c in (tm.TRUE, tm.FALSE):
            return c
        if c.op == 'not':
            return tm.not_(self.cond(c.args[0]))
        if c.op == 'and':
            return tm.and_(*[self.cond(x) for x in c.args])
        if c.op in ('lt', 'le', 'eq') and not tm.is_bool(c.args[0]):
            p = self.padd(self.poly(c.args[0]), self.poly(c.args[1]), -1)
            if set(p) <= {ONE_MONO}:
                v = p.get(ONE_MONO, 0)
                r = v < 0 if c.op == 'lt' else v <= 0 if c.op == 'le' else v == 0
                return tm.TRUE if r else tm.FALSE
            # integer comparisons: p < 0 <=> p <= -1
            lead = abs(self.content(p))
            p = self.pscale(p, 1 / lead)
            if c.op == 'eq':
                p, _ = self.signed(p)
                return tm.mk('eq', (self.term(p), tm.ZERO))
            if c.op == 'lt':
                # p < 0  ==  not (-p <= 0)
                return tm.mk('lt', (self.term(p), tm.ZERO))
            return tm.not_(tm.mk('lt', (self.term(self.pscale(p, -1)), tm.ZERO)))
        if c.op in ('isnan', 'bsel', 'bsym', 'ptrue', 'forall', 'eq'):
            return c
        return c

    def ind(self, c):
        """indicator polynomial of a condition"""
        if c is tm.TRUE:
            return self.const(1)
        if c is tm.FALSE:
            return {}
        if c.op == 'not':
            return self.padd(self.const(1), self.ind(c.args[0]), -1)
        if c.op == 'and':
            r = self.const(1)
            for x in c.args:
                r = self.pmul(r, self.ind(x))
            return r
        return self.atom(tm.mk('ind', (c,)))

    # --------------------------------------------------------------- equality
    def diff(self, a, b):
        """numerator of a - b after clearing denominators ({} : equal)"""
        d = self.padd(self.poly(a), self.poly(b), -1)
        return self.clear(d)

    def clear(self, d):
        for _ in range(4):
            negs = {}
            for m in d:
                for a, e in m:
                    if e < 0 and (a.op in ('add',)):
                        negs[a] = min(negs.get(a, 0), e)
            if not negs:
                return d
            f = self.expand_denoms({tuple(sorted([(a, -e) for a, e in negs.items()], key=lambda z: z[0].id)):
                                    Fraction(1)})
            # multiply term by term, cancelling
            r = {}
            for m, c in d.items():
                dm = dict(m)
                q = self.const(c)
                rest = {}
                for a, e in dm.items():
                    if a in negs:
                        continue
                    rest[a] = e
                q = {tuple(sorted(rest.items(), key=lambda z: z[0].id)): c}
                for a, e in negs.items():
                    k = dm.get(a, 0) - e
                    for _ in range(k):
                        q = self.pmul(q, self.poly(a))
                r = self.padd(r, q)
            d = r
        return d

    def pivot(self, a):
        """the polynomial whose sign decides the value of the atom, or None"""
        if a.op == 'ind' and a.args[0].op in ('lt', 'le', 'eq') and not tm.is_bool(a.args[0].args[0]):
            x, y = a.args[0].args
        elif a.op in ('max', 'min'):
            x, y = a.args
        elif a.op == 'abs':
            x, y = a.args[0], tm.ZERO
        else:
            return None
        p = self.padd(self.poly(x), self.poly(y), -1)
        if not p or set(p) <= {ONE_MONO}:
            return None
        k = self.content(p)
        return self.term(self.pscale(p, 1 / k)), (1 if k > 0 else -1)

    def put(self, d, sub):
        """d with the atoms of sub replaced by polynomials"""
        r = {}
        for m, c in d.items():
            q, keep = self.const(c), []
            for a, e in m:
                if a in sub and e > 0:
                    for _ in range(e):
                        q = self.pmul(q, sub[a])
                else:
                    keep.append((a, e))
            r = self.padd(r, self.pmul(q, {tuple(keep): Fraction(1)}))
        return r

    def split(self, d, depth=5):
        """d = 0 in each case of the signs that its conditions, maxima, minima and moduli depend on"""
        d = self.clear(d)
        if not d:
            return True
        found = {}
        for m in d:
            for a, e in m:
                pv = self.pivot(a)
                if pv:
                    found.setdefault(pv[0], []).append((a, pv[1]))
        if not found or depth == 0:
            return False
        t = min(found, key=lambda x: x.id)
        q = self.poly(t)
        for sign in (-1, 0, 1):
            sub = {}
            for a, s in found[t]:
                v = s * sign
                if a.op == 'ind':
                    c = a.args[0].op
                    sub[a] = self.const(1 if (v < 0 if c == 'lt' else v <= 0 if c == 'le' else v == 0) else 0)
                elif a.op == 'abs':
                    sub[a] = self.pscale(self.poly(a.args[0]), 1 if v >= 0 else -1)
                else:
                    sub[a] = self.poly(a.args[0 if (v >= 0) == (a.op == 'max') else 1])
            e = self.put(d, sub)
            if sign == 0:
                for m, c in q.items():
                    if len(m) == 1 and m[0][1] == 1 and sum(m[0][0] in dict(n) for n in q) == 1:
                        rest = dict(q)
                        rest.pop(m)
                        e = self.put(e, {m[0][0]: self.pscale(rest, -1 / c)})
                        break
            if not self.split(e, depth - 1):
                return False
        return True

    def equal(self, a, b):
        try:
            d = self.diff(a, b)
            return not d or self.split(d)
        except (TooBig, RecursionError):        # too big to expand: argument by argument
            return (a.op == b.op and a.val == b.val and len(a.args) == len(b.args) > 0 and not tm.is_bool(a)
                    and all(x is y or not tm.is_bool(x) and self.equal(x, y) for x, y in zip(a.args, b.args)))

    def half_turns(self, d):
        """atan2(y, x) = atan2(-y, -x) + pi  modulo 2 pi, off the origin"""
        r = {}
        for m, c in d.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'atan2' and c.denominator == 1:
                y, x = (self.poly(q) for q in m[0][0].args)
                if x and self.content(x) < 0 or not x and self.content(y) < 0:
                    o = self.atan2(self.pscale(y, -1), self.pscale(x, -1))
                    r = self.padd(r, o, c)
                    r = self.padd(r, {((tm.PI, 1),): c})
                    continue
            r = self.padd(r, {m: c})
        return r

    def equal_mod_turn(self, a, b):
        """a = b modulo 2 pi"""
        try:
            d = self.clear(self.half_turns(self.padd(self.poly(a), self.poly(b), -1)))
        except (TooBig, RecursionError):
            return False
        for m, c in d.items():
            dm = dict(m)
            if dm.pop(tm.PI, 0) != 1 or (c / 2).denominator != 1:
                return False
            if not all(e >= 0 and (tm.is_int(x) or x.op == 'ind') for x, e in dm.items()):
                return False
        return True
