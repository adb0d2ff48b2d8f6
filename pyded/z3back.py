"""Z3 back end: path feasibility and quantified validity of contracts."""
import sys
from . import terms as tm
from . import sym

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3   # noqa: E402

QUERIES = {'n': 0, 'time': 0.0}


class Z3Trans:
    def __init__(self):
        self.memo = {}
        self.ufs = {}
        self.axioms = []
        self.counts = set()

    def uf(self, name, n, out):
        key = (name, n, out)
        if key not in self.ufs:
            R = z3.RealSort()
            self.ufs[key] = z3.Function('f%d_%s' % (len(self.ufs), name), *([R] * n), out)
        return self.ufs[key]

    def __call__(self, t):
        for u in tm.children_first([t]):
            if u not in self.memo:
                self.memo[u] = self.one(u)
        return self.memo[t]

    def real(self, e):
        return z3.ToReal(e) if z3.is_int(e) else e

    def one(self, u):
        a = [self.memo[x] for x in u.args]
        op = u.op
        if op == 'c':
            return z3.IntVal(u.val.numerator) if u.val.denominator == 1 else z3.Q(u.val.numerator, u.val.denominator)
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'pi':
            x = z3.Real('pi')
            self.axioms.append(z3.And(x > z3.Q(314159265358, 10**11), x < z3.Q(314159265359, 10**11)))
            return x
        if op == 'nan':
            return z3.Real('nan')
        if op == 'sym':
            x = z3.Int(u.val) if tm.is_int(u) else z3.Real(u.val)
            if u in sym.COUNTS and u not in self.counts:
                self.counts.add(u)
                body, size = sym.COUNTS[u]
                i = z3.Int('q!%d' % u.id)
                b = Z3Trans.sub(self, body, i)
                s = self(size)
                rng = z3.And(i >= 0, i < s)
                self.axioms.append(z3.And(x >= 0, x <= s))
                self.axioms.append((x == s) == z3.ForAll([i], z3.Implies(rng, b)))
                self.axioms.append((x == 0) == z3.ForAll([i], z3.Implies(rng, z3.Not(b))))
            return x
        if op == 'bsym':
            return z3.Bool(u.val)
        if op in ('add',):
            return z3.Sum([self.real(x) for x in a]) if not all(z3.is_int(x) for x in a) else z3.Sum(a)
        if op == 'mul':
            if not all(z3.is_int(x) for x in a):
                a = [self.real(x) for x in a]
            r = a[0]
            for x in a[1:]:
                r = r * x
            return r
        if op == 'div':
            return self.real(a[0]) / self.real(a[1])
        if op in ('lt', 'le', 'eq'):
            x, y = a
            if z3.is_bool(x) or z3.is_bool(y):
                return x == y
            if z3.is_int(x) != z3.is_int(y):
                x, y = self.real(x), self.real(y)
            return x < y if op == 'lt' else x <= y if op == 'le' else x == y
        if op == 'not':
            return z3.Not(a[0])
        if op == 'and':
            return z3.And(a)
        if op == 'ite':
            x, y = a[1], a[2]
            if not z3.is_bool(x) and z3.is_int(x) != z3.is_int(y):
                x, y = self.real(x), self.real(y)
            return z3.If(a[0], x, y)
        if op == 'floor':
            return z3.ToInt(self.real(a[0]))
        if op == 'trunc':
            x = self.real(a[0])
            return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
        if op == 'abs':
            return z3.If(a[0] >= 0, a[0], -a[0])
        if op in ('max', 'min'):
            x, y = a
            if z3.is_int(x) != z3.is_int(y):
                x, y = self.real(x), self.real(y)
            return z3.If(x >= y, x, y) if op == 'max' else z3.If(x <= y, x, y)
        if op == 'mod' and all(z3.is_int(x) for x in a):
            return z3.If(a[1] > 0, a[0] % a[1], -(-a[0] % -a[1]))
        if op == 'mod' and tm.isc(u.args[1]) and u.args[1].val > 0:
            x = self.real(a[0])
            m = self.real(a[1])
            return x - m * z3.ToReal(z3.ToInt(x / m))
        if op == 'forall':
            body, size = u.args
            i = z3.Int('b!%d' % u.id)
            b = Z3Trans.sub(self, body, i, u.val)
            return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a[1]), b))
        if op in ('isnan', 'bsel', 'ptrue'):
            nm = '%s_%s' % (op, u.val)
            if op == 'isnan':
                s = u.args[0]
                nm = 'isnan_%s' % s.val
                a = [self.memo[x] for x in s.args]
            if not a:
                return z3.Bool(nm)
            return self.uf(nm, len(a), z3.BoolSort())(*[self.real(x) for x in a])
        out = z3.IntSort() if tm.is_int(u) else z3.RealSort()
        nm = '%s_%s' % (op, u.val)
        if not a:
            return z3.Const(nm, out)
        return self.uf(nm, len(a), out)(*[self.real(x) for x in a])

    def sub(self, body, i, name='μ'):
        """translate a body whose bound index is the symbol `name`"""
        t2 = Z3Trans()
        t2.ufs, t2.axioms, t2.counts = self.ufs, self.axioms, self.counts
        t2.memo[tm.sym(name)] = i
        return t2(body)


class Model:
    """a Z3 model that evaluates terms"""

    def __init__(self, m, tr):
        self.m, self.tr = m, tr

    def value(self, t, complete=True):
        """value of a term; None where the model leaves it open"""
        e = self.tr(t)
        v = self.m.eval(e, model_completion=complete)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return float(v.numerator_as_long()) / float(v.denominator_as_long())
        if z3.is_algebraic_value(v):
            return float(v.approx(20).as_fraction())
        if z3.is_true(v) or z3.is_false(v):
            return z3.is_true(v)
        return None

    def __getattr__(self, k):
        return getattr(self.m, k)

    def __getitem__(self, d):
        return self.m[d]


class Solver:
    def __init__(self, timeout=3000):
        self.timeout = timeout
        self.cache = {}

    def check(self, terms, timeout=None):
        import time
        key = tuple(sorted(t.id for t in terms))
        if key in self.cache:
            return self.cache[key]
        t0 = time.time()
        tr = Z3Trans()
        s = z3.Solver()
        # once much time has gone by without an answer, the rest is given little
        s.set('timeout', min(timeout or self.timeout, 500 if QUERIES.get('lost', 0) > 60 else 10**6))
        fs = [tr(t) for t in terms]
        # sizes are nonnegative
        for t in tm.children_first(list(terms)):
            if t.op == 'sym' and str(t.val).startswith('#'):
                s.add(tr(t) >= 0)
        for f in fs + tr.axioms:
            s.add(f)
        r = s.check()
        QUERIES['n'] += 1
        QUERIES['time'] += time.time() - t0
        m = Model(s.model(), tr) if r == z3.sat else None
        if r == z3.unknown:
            QUERIES['unknown'] = QUERIES.get('unknown', 0) + 1
            QUERIES['lost'] = QUERIES.get('lost', 0) + time.time() - t0
        self.cache[key] = (str(r), m)
        return self.cache[key]

    def feasible(self, terms):
        return self.check(terms, 1500)[0] != 'unsat'

    def valid(self, hyps, goal, timeout=20000):
        """'proved' | 'refuted' | 'unknown'"""
        r, m = self.check(list(hyps) + [tm.not_(goal)], timeout)
        return {'unsat': 'proved', 'sat': 'refuted'}.get(r, 'unknown'), m
