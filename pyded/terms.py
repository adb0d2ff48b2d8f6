"""Hash-consed first-order terms: the logic in which the contracts, the symbolic
states and the verification conditions are written.

Sorts are implicit: real (incl. integers, indices and instants) and boolean.
Floating-point operations of the code are read as operations on reals (the
`machine arithmetic treated as mathematical` assumption, listed in the
evidence); float32 roundings are kept as explicit `r32` nodes.
"""
from fractions import Fraction
import math
import sys

sys.setrecursionlimit(20000)

_TABLE = {}
_COUNT = [0]


class T:
    __slots__ = ('op', 'args', 'val', 'id', '_fv')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other


def mk(op, args=(), val=None):
    key = (op, tuple(a.id for a in args), val)
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.val, t.id, t._fv = op, tuple(args), val, _COUNT[0], None
        _COUNT[0] += 1
        _TABLE[key] = t
    return t


def show(t, depth=6):
    if t.op == 'c':
        f = t.val
        if f.denominator == 1:
            return str(f.numerator)
        return '%.12g' % float(f)
    if t.op in ('sym', 'bsym'):
        return str(t.val)
    if depth == 0:
        return '…'
    a = [show(x, depth - 1) for x in t.args]
    if t.op == 'add':
        return '(' + ' + '.join(a) + ')'
    if t.op == 'mul':
        return '*'.join(a)
    if t.op == 'div':
        return '%s/%s' % tuple(a)
    if t.op in ('lt', 'le', 'eq'):
        return '(%s %s %s)' % (a[0], {'lt': '<', 'le': '<=', 'eq': '=='}[t.op], a[1])
    if t.op == 'sel':
        return '%s[%s]' % (t.val, ','.join(a))
    nm = t.op if t.val is None else '%s:%s' % (t.op, str(t.val)[:30])
    return '%s(%s)' % (nm, ', '.join(a)) if a else nm


# ---------------------------------------------------------------- constants

_PI_RATIOS = {}
for p in (1, 2, 3, 4, 5, 6, 7, 8, 12, 15, 24, 30, 45, 60, 90, 180, 360):
    for q in (1, 2, 3, 4, 5, 6, 7, 8, 12, 15, 24, 30, 45, 60, 90, 180, 360, 720, 3600, 10800, 43200, 21600, 86400,
              648000):
        r = Fraction(p, q)
        _PI_RATIOS.setdefault(('pi', r), math.pi * p / q)
        _PI_RATIOS.setdefault(('ip', 1 / r), (q / p) / math.pi)
_PI_TAB = sorted((v, k) for k, v in _PI_RATIOS.items())
_PI_VALS = [v for v, _ in _PI_TAB]


def const(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, (int, Fraction)):
        return mk('c', (), Fraction(x))
    x = float(x)
    if x != x:
        return NAN
    if x in (math.inf, -math.inf):
        return mk('inf', (), 1 if x > 0 else -1)
    if x != 0 and not x.is_integer():
        import bisect
        a = abs(x)
        i = bisect.bisect_left(_PI_VALS, a * (1 - 4e-16))
        if i < len(_PI_VALS) and abs(_PI_VALS[i] - a) <= 4e-16 * a:
            kind, r = _PI_TAB[i][1]
            r = r if x > 0 else -r
            if kind == 'pi':
                return mul(mk('c', (), r), PI)
            return div(mk('c', (), r), PI)
    return mk('c', (), Fraction(repr(x)))   # shortest decimal: the literal that was written


TRUE = mk('true')
FALSE = mk('false')
NAN = mk('nan')
PI = mk('pi')
ZERO = mk('c', (), Fraction(0))
ONE = mk('c', (), Fraction(1))


def sym(name):
    return mk('sym', (), name)


def isc(t):
    return t.op == 'c'


# -------------------------------------------------------------- constructors

# In this mode sums, products and quotients are kept one operation at a time, as the code performs them (for the
# rounding-error obligations); otherwise they are flattened and constants are folded.
ONE_BY_ONE = [False]


def add(*ts):
    if ONE_BY_ONE[0]:
        return _chain('add', ts, ZERO)
    out, c = [], Fraction(0)
    for t in ts:
        t = const(t)
        if t.op == 'nan':
            return NAN
        if t.op == 'c':
            c += t.val
        elif t.op == 'add':
            for u in t.args:
                if u.op == 'c':
                    c += u.val
                else:
                    out.append(u)
        else:
            out.append(t)
    if c != 0 or not out:
        out.append(mk('c', (), c))
    return out[0] if len(out) == 1 else mk('add', out)


def _chain(op, ts, unit):
    ts = [const(t) for t in ts]
    if NAN in ts:
        return NAN
    if op == 'mul' and ZERO in ts:
        return ZERO
    r = None
    for t in ts:
        if t is unit:
            continue
        if r is None:
            r = t
        elif isc(r) and isc(t) and (r.val.denominator == t.val.denominator == 1 or r.val in (1, -1) or t.val in (1, -1)):
            r = mk('c', (), r.val + t.val if op == 'add' else r.val * t.val)
        else:
            r = mk(op, (r, t))
    return unit if r is None else r


def mul(*ts):
    if ONE_BY_ONE[0]:
        return _chain('mul', ts, ONE)
    out, c = [], Fraction(1)
    for t in ts:
        t = const(t)
        if t.op == 'nan':
            return NAN
        if t.op == 'c':
            c *= t.val
        elif t.op == 'mul':
            for u in t.args:
                if u.op == 'c':
                    c *= u.val
                else:
                    out.append(u)
        else:
            out.append(t)
    if c == 0:
        return ZERO
    if c != 1 or not out:
        out.insert(0, mk('c', (), c))
    return out[0] if len(out) == 1 else mk('mul', out)


def neg(t):
    return mul(-1, t)


def sub(a, b):
    return add(a, neg(const(b)))


def div(a, b):
    a, b = const(a), const(b)
    if NAN in (a, b):
        return NAN
    if b is ONE and ONE_BY_ONE[0]:
        return a
    if b.op == 'c' and b.val != 0 and not ONE_BY_ONE[0]:
        return mul(mk('c', (), 1 / b.val), a)
    if a is b:
        return ONE if isc(a) else mk('div', (a, b))
    return mk('div', (a, b))


def power(a, b):
    a, b = const(a), const(b)
    if isc(b):
        if b.val == 1:
            return a
        if b.val == 0:
            return ONE
        if isc(a) and b.val.denominator == 1 and abs(b.val) <= 64 and (a.val != 0 or b.val > 0):
            return mk('c', (), a.val ** int(b.val))
        if b.val == Fraction(1, 2):
            return fn('sqrt', a)
    if NAN in (a, b):
        return NAN
    return mk('pow', (a, b))


def fn(name, *args):
    args = tuple(const(a) for a in args)
    if NAN in args:
        return NAN
    if all(isc(a) for a in args):
        v = [a.val for a in args]
        if name == 'floor':
            return mk('c', (), Fraction(math.floor(v[0])))
        if name == 'trunc':
            return mk('c', (), Fraction(math.trunc(v[0])))
        if name == 'abs':
            return mk('c', (), abs(v[0]))
        if name == 'max':
            return mk('c', (), max(v))
        if name == 'min':
            return mk('c', (), min(v))
        if name == 'mod' and v[1] != 0:
            return mk('c', (), v[0] - v[1] * math.floor(v[0] / v[1]))
        if name in ('r32',):
            import numpy
            return mk('c', (), Fraction(float(numpy.float32(float(v[0])))))
        if v[0] == 0 and name in ('sin', 'tan', 'asin', 'atan', 'sqrt'):
            return ZERO
        if v[0] == 0 and name in ('cos', 'exp'):
            return ONE
    if name in ('floor', 'trunc') and is_int(args[0]):
        return args[0]
    if name == 'r32' and args[0].op == 'r32':
        return args[0]
    return mk(name, args)


_INT_OPS = {'floor', 'trunc', 'round0', 'year', 'month', 'mstart', 'rank', 'enum', 'toy'}
_INT_SYMS = set()


def declare_int(name):
    _INT_SYMS.add(name)


def is_int(t):
    if t.op == 'c':
        return t.val.denominator == 1
    if t.op in _INT_OPS:
        return True
    if t.op in ('sym', 'sel') and t.val in _INT_SYMS:
        return True
    if t.op == 'uf' and t.val in _INT_SYMS:
        return True
    if t.op in ('add', 'mul', 'max', 'min', 'mod'):
        return all(is_int(a) for a in t.args)
    if t.op == 'ite':
        return is_int(t.args[1]) and is_int(t.args[2])
    if t.op == 'lut':
        return all(isc(a) and a.val.denominator == 1 for a in t.val_tab) if hasattr(t, 'val_tab') else \
            all(Fraction(v).denominator == 1 for v in t.val)
    return False


# booleans

def lt(a, b):
    a, b = const(a), const(b)
    if isc(a) and isc(b):
        return TRUE if a.val < b.val else FALSE
    if NAN in (a, b) or a is b:
        return FALSE
    return mk('lt', (a, b))


def le(a, b):
    a, b = const(a), const(b)
    if isc(a) and isc(b):
        return TRUE if a.val <= b.val else FALSE
    if NAN in (a, b):
        return FALSE
    return mk('le', (a, b))


def eq(a, b):
    a, b = const(a), const(b)
    if isc(a) and isc(b):
        return TRUE if a.val == b.val else FALSE
    if NAN in (a, b):
        return FALSE
    if a is b and a.op in ('sym', 'c'):
        return TRUE
    if a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b))


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,))


def and_(*ts):
    out = []
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        for u in (t.args if t.op == 'and' else (t,)):
            if u not in out:
                out.append(u)
    if not out:
        return TRUE
    for t in out:
        if not_(t) in out:
            return FALSE
    out.sort(key=lambda t: t.id)
    return out[0] if len(out) == 1 else mk('and', out)


def or_(*ts):
    return not_(and_(*[not_(t) for t in ts]))


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    a, b = const(a), const(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op in BOOLOPS and b.op in BOOLOPS:
        return or_(and_(c, a), and_(not_(c), b))
    # the same condition nested
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    return mk('ite', (c, a, b))


BOOLOPS = {'true', 'false', 'lt', 'le', 'eq', 'not', 'and', 'or', 'bsym', 'isnan', 'forall', 'bsel', 'ptrue'}


def is_bool(t):
    return t.op in BOOLOPS


# ------------------------------------------------------------------- traversal

def children_first(roots):
    seen, out = set(), []
    stack = [(r, False) for r in roots]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for a in t.args:
            if a.id not in seen:
                stack.append((a, False))
    return out


def rebuild(t, args):
    op = t.op
    if op == 'add':
        return add(*args)
    if op == 'mul':
        return mul(*args)
    if op == 'div':
        return div(*args)
    if op == 'pow':
        return power(*args)
    if op == 'ite':
        return ite(*args)
    if op == 'lt':
        return lt(*args)
    if op == 'le':
        return le(*args)
    if op == 'eq':
        return eq(*args)
    if op == 'not':
        return not_(*args)
    if op == 'and':
        return and_(*args)
    if op == 'or':
        return or_(*args)
    if op == 'rank' and args and args[0].op == 'enum' and args[0].val == t.val:
        return args[0].args[0]
    if op == 'enum' and args and args[0].op == 'rank' and args[0].val == t.val:
        return args[0].args[0]
    if op == 'enum' and args and args[0].op == 'rank' and t.val[0] == 'nd' and args[0].val == t.val[:2]:
        return args[0].args[t.val[2]]
    if op in ('sel', 'bsel', 'isnan', 'uf', 'rank', 'enum', 'lut', 'forall', 'reduce'):
        return mk(op, args, t.val)
    if t.val is None and args:
        return fn(op, *args)
    return mk(op, args, t.val)


def subst(roots, mapping):
    """simultaneous substitution; mapping: {T: T}"""
    single = isinstance(roots, T)
    rs = [roots] if single else list(roots)
    memo = dict(mapping)
    for t in children_first(rs):
        if t in memo:
            continue
        if not t.args:
            memo[t] = t
            continue
        new = [memo[a] for a in t.args]
        memo[t] = t if all(x is y for x, y in zip(new, t.args)) else rebuild(t, new)
    return memo[rs[0]] if single else [memo[r] for r in rs]


def rewrite(root, f):
    """bottom-up rewriting; f(op-node with new args) -> T or None"""
    memo = {}
    for t in children_first([root]):
        new = [memo[a] for a in t.args]
        u = t if all(x is y for x, y in zip(new, t.args)) else rebuild(t, new)
        v = f(u)
        memo[t] = u if v is None else v
    return memo[root]


def free(t):
    if t._fv is None:
        for u in children_first([t]):
            if u._fv is None:
                s = frozenset([u]) if u.op in ('sym', 'bsym') else frozenset()
                for a in u.args:
                    s = s | a._fv
                t_ = s
                u._fv = t_
    return t._fv


def size(t):
    return len(children_first([t]))


def atoms(roots, ops):
    return [t for t in children_first(list(roots)) if t.op in ops]
