"""Symbolic execution states: paths, symbolic integers/booleans and symbolic arrays.

A SymArray stands for a numpy array of *any* length along each symbolic axis:
its content is one term per concrete position, a function of the index
variables of the symbolic axes.  The real source runs, unmodified, on these
objects; nothing is bounded."""
from fractions import Fraction
import inspect
import itertools
import linecache
import os
import re
import numpy as np
from . import terms as tm


class Unsupported(Exception):
    """the verifier has no rule for what the code does: never a verdict (the code
    under test cannot swallow it: explore() raises it again)"""

    def __init__(self, *a):
        super().__init__(*a)
        if CTX[0] is not None:
            CTX[0].gave_up = self


class Infeasible(Exception):
    def __init__(self, *a):
        super().__init__(*a)
        if CTX[0] is not None:
            CTX[0].infeasible = True


class PathLimit(Unsupported):
    pass


# --------------------------------------------------------------------- paths

class Ctx:
    def __init__(self, pre=(), solver=None, max_paths=400):
        self.pre = list(pre)
        self.solver = solver
        self.script = []
        self.reset()

    def reset(self):
        self.pc = list(self.pre)
        self.pos = 0
        self.frame_violations = []
        self.fits = {}          # terms of 32-bit integers -> their range
        self.side = []          # side conditions (definedness etc.): (T must hold, why)
        self.calls = []         # contract calls recorded on this path
        self.log = []
        self.gave_up = None
        self.infeasible = False

    def branch(self, cond):
        if cond is tm.TRUE:
            return True
        if cond is tm.FALSE:
            return False
        if cond in self.pc:
            return True
        if tm.not_(cond) in self.pc:
            return False
        if self.pos < len(self.script):
            d = self.script[self.pos][0]
            self.pos += 1
        else:
            t = self.solver.feasible(self.pc + [cond])
            f = self.solver.feasible(self.pc + [tm.not_(cond)])
            if not t and not f:
                raise Infeasible()
            if t and not f:
                d, both = True, False
            elif f and not t:
                d, both = False, False
            else:
                d, both = True, True
            self.script.append([d, both])
            self.pos += 1
        self.pc.append(cond if d else tm.not_(cond))
        return d

    def advance(self):
        """next unexplored path (depth first); False when exhausted"""
        while self.script and not self.script[-1][1]:
            self.script.pop()
        if not self.script:
            return False
        self.script[-1] = [False, False]
        return True


CTX = [None]


def ctx():
    if CTX[0] is None:
        raise Unsupported('symbolic value used outside a symbolic run')
    return CTX[0]


class Outcome:
    def __init__(self, kind, value, pc, c):
        self.kind, self.value, self.pc = kind, value, pc
        self.frame_violations = c.frame_violations
        self.side = c.side
        self.fits = c.fits
        self.calls = c.calls


def with_pc(e, c):
    e.pc = list(c.pc)
    return e


_OWN = re.compile(r"\b(Sym[A-Z]\w*|frames\.\w+)|'(DA|Times|TDelta|Text|Mark|Series|Frame|Axis|T)'")
_HERE = os.path.dirname(os.path.abspath(__file__))


def own_failure(e):
    """did the engine fail, rather than the code it runs?"""
    if isinstance(e, (TypeError, AttributeError)) and _OWN.search(str(e)):
        return True
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is None or os.path.dirname(tb.tb_frame.f_code.co_filename) != _HERE:
        return False
    line = linecache.getline(tb.tb_frame.f_code.co_filename, tb.tb_lineno).strip()
    return not line.startswith('raise') and ' raise ' not in line


def explore(run, pre, solver, max_paths=600):
    """all paths of run(); returns [Outcome('return'|'raise')]. Unsupported propagates."""
    c = Ctx(pre, solver)
    outs = []
    old = CTX[0]
    CTX[0] = c
    try:
        for n in itertools.count():
            if n >= max_paths:
                raise PathLimit('more than %d paths' % max_paths)
            c.reset()
            out = None
            try:
                v = run()
                out = Outcome('return', v, list(c.pc), c)
            except Infeasible:
                pass
            except Unsupported as e:
                e.pc = list(c.pc)
                raise
            except RecursionError:
                raise Unsupported('recursion')
            except Exception as e:
                if own_failure(e):
                    raise with_pc(Unsupported('%s: %s' % (type(e).__name__, str(e)[:120])), c) from e
                out = Outcome('raise', e, list(c.pc), c)
            if c.gave_up is not None:
                c.gave_up.pc = list(c.pc)
                raise c.gave_up
            if out is not None and not c.infeasible:
                outs.append(out)
            if not c.advance():
                break
    finally:
        CTX[0] = old
    return outs


# ------------------------------------------------------------- scalars

MARKS = {}


class Mark(str):
    """the text of a formatted symbolic value; its marks are looked up in MARKS"""

    def capitalize(self):
        return Mark(self)

    title = upper = lower = strip = capitalize

    def split(self, *a):
        return [self]


def mark(t, spec, tz, kind):
    key = '⟦%d⟧' % len(MARKS)
    for k, v in MARKS.items():
        if v[0] is t and v[1:] == (spec, tz, kind):
            key = k
    MARKS[key] = (t, spec, tz, kind)
    return Mark(key)


class SymBool:
    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().branch(self.t)

    def __invert__(self):
        return SymBool(tm.not_(self.t))

    def __and__(self, o):
        return SymBool(tm.and_(self.t, tobool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(tm.or_(self.t, tobool(o)))
    __ror__ = __or__

    def __eq__(self, o):
        o = tobool(o)
        return SymBool(tm.or_(tm.and_(self.t, o), tm.and_(tm.not_(self.t), tm.not_(o))))

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        return id(self)

    def all(self):
        return self

    any = all

    def item(self):
        return self

    def __repr__(self):
        return 'SymBool(%s)' % self.t


def tobool(o):
    if isinstance(o, SymBool):
        return o.t
    if isinstance(o, (bool, np.bool_)):
        return tm.TRUE if o else tm.FALSE
    if isinstance(o, SymArray) and o.ndim == 0:
        return o.data[()]
    raise Unsupported('truth value of %r' % type(o))


def mkbool(t):
    if t is tm.TRUE:
        return True
    if t is tm.FALSE:
        return False
    return SymBool(t)


def nonzero(t):
    if t is tm.ZERO or ctx().branch(tm.eq(t, 0)):
        raise ZeroDivisionError('integer modulo by zero')
    return t


class SymInt:
    """a symbolic (index/size) integer"""

    def __init__(self, t):
        self.t = t

    def _op(f):
        def g(self, o):
            o = toint(o)
            if o is NotImplemented:
                return o
            return mkint(f(self.t, o))
        return g

    def _cmp(f):
        def g(self, o):
            o = toint(o)
            if o is NotImplemented:
                return o
            return mkbool(f(self.t, o))
        return g

    __add__ = __radd__ = _op(tm.add)
    __sub__ = _op(tm.sub)
    __rsub__ = _op(lambda a, b: tm.sub(b, a))
    __mul__ = __rmul__ = _op(tm.mul)
    __floordiv__ = _op(lambda a, b: tm.fn('floor', tm.div(a, nonzero(b))))
    __rfloordiv__ = _op(lambda a, b: tm.fn('floor', tm.div(b, nonzero(a))))
    __mod__ = _op(lambda a, b: tm.fn('mod', a, nonzero(b)))
    __rmod__ = _op(lambda a, b: tm.fn('mod', b, nonzero(a)))
    __eq__ = _cmp(tm.eq)
    __ne__ = _cmp(lambda a, b: tm.not_(tm.eq(a, b)))
    __lt__ = _cmp(tm.lt)
    __le__ = _cmp(tm.le)
    __gt__ = _cmp(lambda a, b: tm.lt(b, a))
    __ge__ = _cmp(lambda a, b: tm.le(b, a))

    def __neg__(self):
        return mkint(tm.neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, k):
        if not isinstance(k, int) or k < 0 or k > 4:
            raise Unsupported('power of a symbolic size')
        return mkint(tm.mul(*[self.t] * k)) if k else 1

    def __hash__(self):
        return hash(self.t)

    def __bool__(self):
        return ctx().branch(tm.not_(tm.eq(self.t, 0)))

    def __int__(self):
        raise Unsupported('int() of a symbolic size')
    __index__ = __int__

    def __truediv__(self, o):
        raise Unsupported('division of a symbolic size')

    def __format__(self, spec):
        return mark(self.t, spec, None, 'i')

    __str__ = lambda self: self.__format__('')      # noqa: E731

    def __repr__(self):
        return 'SymInt(%s)' % self.t


def toint(o):
    if isinstance(o, SymInt):
        return o.t
    if isinstance(o, (int, np.integer)) and not isinstance(o, bool):
        return tm.const(int(o))
    return NotImplemented


def mkint(t):
    return int(t.val) if t.op == 'c' else SymInt(t)


# ------------------------------------------------------------------ NaN / NaT

MAYBE_NAN = set()


def nanof(t, memo=None):
    """the condition under which the float/datetime value t is NaN/NaT, given
    which inputs are missing (comparisons with NaN are False)"""
    memo = {} if memo is None else memo
    for u in tm.children_first([t]):
        if u in memo:
            continue
        memo[u] = _nan1(u, memo)
    return memo[t]


def nancond(c, memo):
    """truth of condition c in the presence of NaN"""
    if c.op in ('lt', 'le', 'eq'):
        n = tm.or_(*[nanof(a, memo) for a in c.args])
        return tm.and_(c, tm.not_(n))
    if c.op == 'not':
        return tm.not_(nancond(c.args[0], memo))
    if c.op == 'and':
        return tm.and_(*[nancond(a, memo) for a in c.args])
    return c


def _nan1(u, memo):
    if u.op == 'nan':
        return tm.TRUE
    if u.op in ('sel', 'sym'):
        return tm.mk('isnan', (u,)) if u.val in MAYBE_NAN else tm.FALSE
    if u.op in ('c', 'pi') or tm.is_bool(u):
        return tm.FALSE
    if u.op == 'ite':
        c = nancond(u.args[0], memo)
        return tm.or_(tm.and_(c, memo[u.args[1]]), tm.and_(tm.not_(c), memo[u.args[2]]))
    if u.op == 'fmaxn':
        return tm.and_(*[memo[a] for a in u.args])
    return tm.or_(*[memo[a] for a in u.args if not tm.is_bool(a)])


# -------------------------------------------------------------------- arrays

_UID = itertools.count(1)


class Axis:
    """a symbolic axis: its size term and its generic index variable"""

    def __init__(self, size, name='i', parent=None, mask=None):
        self.uid = next(_UID)
        self.size = tm.const(size)
        nm = '%s%d' % (name, self.uid)
        tm.declare_int(nm)
        self.idx = tm.sym(nm)
        self.name = name
        self.parent, self.mask = parent, mask    # filtered axes


class Root:
    def __init__(self, name=None, frozen=False):
        self.name, self.frozen, self.views = name, frozen, 0


UNITS = {'Y': None, 'M': None, 'W': Fraction(604800), 'D': Fraction(86400), 'h': Fraction(3600), 'm': Fraction(60),
         's': Fraction(1), 'ms': Fraction(1, 10**3), 'us': Fraction(1, 10**6), 'ns': Fraction(1, 10**9)}
_ORDER = ['Y', 'M', 'W', 'D', 'h', 'm', 's', 'ms', 'us', 'ns']


def unit_of(dt):
    u, n = np.datetime_data(dt)
    if n != 1 or u not in UNITS:
        raise Unsupported('datetime unit %s' % dt)
    return u


def month_of(sec):
    if sec.op == 'mul' and len(sec.args) == 2 and tm.isc(sec.args[0]) and sec.args[0].val == 86400 \
            and sec.args[1].op == 'floor':
        pass
    return tm.mk('month', (sec,))


def convert_unit(t, u, v, kind='M'):
    """count t of unit u -> count of unit v (floor when coarsening)"""
    if u == v:
        return t
    if u in ('Y', 'M') or v in ('Y', 'M'):
        if kind == 'm':
            raise Unsupported('timedelta %s->%s' % (u, v))
        if u == 'Y':
            t, u = tm.mul(12, t), 'M'
            if v == 'M':
                return t
        if u == 'M' and v == 'Y':
            return tm.fn('floor', tm.div(t, 12))
        if u == 'M':
            return convert_unit(tm.mk('mstart', (t,)), 'D', v, kind)
        sec = tm.mul(tm.mk('c', (), UNITS[u]), t)
        return tm.mk('year' if v == 'Y' else 'month', (sec,))
    f = UNITS[u] / UNITS[v]
    r = tm.mul(tm.mk('c', (), f), t)
    return r if f.denominator == 1 else tm.fn('floor', r)


class SymArray:
    __array_priority__ = 1000
    __hash__ = None

    def __init__(self, data, axes, dtype, root=None):
        if not isinstance(data, np.ndarray) or data.dtype != object:
            d = np.empty(np.shape(data), dtype=object)
            d[...] = data
            data = d
        self.data, self.axes, self._dtype = data, list(axes), np.dtype(dtype)
        assert len(self.axes) == data.ndim, (self.axes, data.shape)
        self.root = root if root is not None else Root()
        self.root.views += 1

    # ---- attributes
    @property
    def dtype(self):
        return self._dtype

    @property
    def ndim(self):
        return self.data.ndim

    @property
    def shape(self):
        return tuple(int(n) if ax is None else mkint(ax.size) for ax, n in zip(self.axes, self.data.shape))

    @property
    def size(self):
        r = tm.ONE
        for ax, n in zip(self.axes, self.data.shape):
            r = tm.mul(r, ax.size if ax is not None else tm.const(n))
        return mkint(r)

    @property
    def T(self):
        return SymArray(self.data.T, self.axes[::-1], self.dtype, self.root)

    def __len__(self):
        raise Unsupported('len() returned to the interpreter')

    def sym_len(self):
        if self.ndim == 0:
            raise TypeError('len() of unsized object')
        return self.shape[0]

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        if self.axes[0] is not None:
            raise Unsupported('iteration over a symbolic axis')
        return iter([self[i] for i in range(self.data.shape[0])])

    def lane(self):
        if self.data.size != 1:
            raise Unsupported('lane of a concrete array')
        return self.data.reshape(-1)[0]

    def __repr__(self):
        return 'SymArray(%s, %s, %s)' % (self.shape, self.dtype, self.data.reshape(-1)[:2])

    def __bool__(self):
        if self.ndim == 0 or (self.data.size == 1 and all(a is None for a in self.axes)):
            t = self.data.reshape(-1)[0]
            return ctx().branch(t if tm.is_bool(t) else tm.not_(tm.eq(t, 0)))
        raise Unsupported('truth value of an array')

    def __float__(self):
        raise Unsupported('float() of a symbolic value')
    __int__ = __index__ = __float__

    def __format__(self, spec):
        if self.data.size != 1 or any(a is not None for a in self.axes):
            return '<array>'
        return mark(self.lane(), spec, None, self.dtype.kind)

    def __getattr__(self, k):
        if k.startswith('_') or not hasattr(np.ndarray, k):
            raise AttributeError(k)
        raise Unsupported('array.%s' % k)

    # ---- structure
    def copy(self, order=None, deep=True):
        return SymArray(self.data.copy(), self.axes, self.dtype)

    def view(self, *a):
        return SymArray(self.data, self.axes, self.dtype, self.root)

    def ravel(self, order='C'):
        plain('ravel', {'order': order})
        if self.ndim == 1:
            return self.view()
        if self.ndim == 0:
            return SymArray(self.data.reshape(1), [None], self.dtype, self.root)
        return self.reshape(-1)

    def flatten(self):
        return self.ravel().copy()

    def reshape(self, *shape, **kw):
        plain('reshape', kw)
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def squeeze(self, axis=None):
        return squeeze(self, axis)

    def astype(self, dtype, **kw):
        return astype(self, dtype, **kw)

    def item(self, *a):
        if self.data.size == 1 and all(x is None for x in self.axes):
            return SymArray(self.data.reshape(()), [], self.dtype)
        raise Unsupported('item')

    def transpose(self, *axes):
        if not axes or axes == (None,):
            return self.T
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = axes[0]
        return SymArray(self.data.transpose(axes), [self.axes[a] for a in axes], self.dtype, self.root)

    def tolist(self):
        raise Unsupported('tolist')

    # ---- mutation
    def _mutate(self, what):
        if self.root.frozen:
            ctx().frame_violations.append('%s of %s' % (what, self.root.name))
        elif self.root.views > 1 and not getattr(self.root, 'ok', False):
            raise Unsupported('in-place change of an array with other views')

    def __setitem__(self, key, value):
        self._mutate('item assignment')
        setitem(self, key, value)

    def __getitem__(self, key):
        return getitem(self, key)

    def fill(self, v):
        self[...] = v

    def _inplace(name):
        def g(self, o):
            self._mutate('in-place operation')
            r = binop(name, self, o)
            if len(r.axes) != len(self.axes):
                raise ValueError('non-broadcastable output operand')
            for a, b in zip(r.axes, self.axes):
                if a is not b:
                    raise Unsupported('in-place broadcast')
            if r.data.shape != self.data.shape:
                raise Unsupported('in-place broadcast')
            if r.dtype.kind != self.dtype.kind and not (r.dtype.kind in 'iu' and self.dtype.kind == 'f'):
                raise TypeError('cannot cast in-place result')
            self.data = r.data
            return self
        return g

    __iadd__ = _inplace('add')
    __isub__ = _inplace('subtract')
    __imul__ = _inplace('multiply')
    __itruediv__ = _inplace('divide')
    __imod__ = _inplace('remainder')
    __ipow__ = _inplace('power')

    # ---- operators
    def _b(name):
        def g(self, o):
            if is_container(o):
                return NotImplemented
            return binop(name, self, o)
        return g

    def _r(name):
        def g(self, o):
            if is_container(o):
                return NotImplemented
            return binop(name, o, self)
        return g

    for _n, _u in (('add', 'add'), ('sub', 'subtract'), ('mul', 'multiply'), ('truediv', 'divide'),
                   ('floordiv', 'floor_divide'), ('mod', 'remainder'), ('pow', 'power'),
                   ('and', 'bitwise_and'), ('or', 'bitwise_or'), ('xor', 'bitwise_xor')):
        locals()['__%s__' % _n] = _b(_u)
        locals()['__r%s__' % _n] = _r(_u)
    for _n, _u in (('lt', 'less'), ('le', 'less_equal'), ('gt', 'greater'), ('ge', 'greater_equal'),
                   ('eq', 'equal'), ('ne', 'not_equal')):
        locals()['__%s__' % _n] = _b(_u)

    def __neg__(self):
        return unop('negative', self)

    def __pos__(self):
        return self.copy()

    def __invert__(self):
        return unop('logical_not', self) if self.dtype.kind == 'b' else unop('invert', self)

    def __abs__(self):
        return unop('absolute', self)

    def __round__(self, n=0):
        return round_(self, n)

    def round(self, decimals=0):
        return round_(self, decimals)

    def clip(self, min=None, max=None):
        return clip(self, min, max)

    # ---- reductions
    def sum(self, *a, **kw):
        return reducer('sum')(self, *a, **kw)

    def all(self, *a, **kw):
        return reducer('all')(self, *a, **kw)

    def any(self, *a, **kw):
        return reducer('any')(self, *a, **kw)

    def min(self, *a, **kw):
        return reducer('min')(self, *a, **kw)

    def max(self, *a, **kw):
        return reducer('max')(self, *a, **kw)

    def mean(self, *a, **kw):
        return reducer('mean')(self, *a, **kw)

    def prod(self, *a, **kw):
        return reducer('prod')(self, *a, **kw)

    def nonzero(self):
        return positions_of(self),

    def take(self, i, axis=None, **k):
        return np_take(self, i, axis, **k)

    # ---- numpy protocols
    def __array__(self, dtype=None, copy=None):
        raise Unsupported('conversion of a symbolic array to a real one')

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if any(is_container(x) for x in inputs):
            return NotImplemented
        if method == 'outer' and not kw:
            return outer(ufunc.__name__, *inputs)
        if method == 'reduce' and ufunc.__name__ in ('add', 'multiply', 'maximum', 'minimum', 'logical_and', 'logical_or'):
            kw = dict({'axis': 0}, **{k: v for k, v in kw.items() if k in ('axis', 'keepdims') or v is not None})
            return call_numpy({'add': 'sum', 'multiply': 'prod', 'maximum': 'max', 'minimum': 'min',
                               'logical_and': 'all', 'logical_or': 'any'}[ufunc.__name__], inputs, kw)
        if method != '__call__':
            raise Unsupported('ufunc method %s.%s' % (ufunc.__name__, method))
        return call_numpy(ufunc.__name__, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        return call_numpy(func.__name__, args, kw)


_CONTAINERS = []


def is_container(o):
    return any(isinstance(o, c) for c in _CONTAINERS)


# ------------------------------------------------------------------- options of numpy functions

_PLAIN = {'copy': None, 'subok': None, 'order': (None, 'C', 'K', 'A'), 'casting': ('unsafe',), 'like': (None,), 'device': (None, 'cpu'),
          'initial': (), 'where': (True,), 'shape': (None,), 'out': (None,), 'dtype': (None,), 'correction': (), 'axis': (None,),
          'keepdims': (False,)}


def plain(name, kw):
    """options that change nothing; any other is out of reach"""
    for k, v in kw.items():
        ok = _PLAIN.get(k, ())
        if ok is None:
            continue
        if not any(v is x or type(v) is type(x) and not isinstance(v, SymArray) and v == x for x in ok):
            raise Unsupported('option %s of numpy.%s' % (k, name))


def reducer(op):
    def f(a, axis=None, dtype=None, keepdims=False, where=None, **k):
        plain(op, k)
        a = asarr(a)
        if dtype is not None:
            a = astype(a, dtype)
        if where is not None and where is not True:
            if op not in ('all', 'any'):
                raise Unsupported('where= argument of numpy.%s' % op)
            return np_all(op, a, axis, where, keepdims)
        return reduce_(op, a, axis, bool(keepdims))
    return f


# ------------------------------------------------------------------- coercion

def np_dtype(d):
    if d is None:
        return None
    if hasattr(d, '_np_real'):
        d = d._np_real
    if isinstance(d, np.generic):          # e.g. np.datetime64(1, 's') used as a dtype
        d = d.dtype
    return np.dtype(d)


def asarr(x, dtype=None):
    """anything -> SymArray (shares the root if already one)"""
    if isinstance(x, SymArray):
        r = x
    elif isinstance(x, SymBool):
        r = SymArray(np.array(x.t, dtype=object), [], bool)
    elif isinstance(x, SymInt):
        r = SymArray(np.array(x.t, dtype=object), [], np.int64)
    elif isinstance(x, tm.T):
        r = SymArray(np.array(x, dtype=object), [], bool if tm.is_bool(x) else np.float64)
    elif isinstance(x, (list, tuple)) and has_sym(x):
        parts = [asarr(v) for v in x]
        r = stack(parts, 0)
    elif hasattr(x, '_sym_to_array'):
        r = x._sym_to_array()
    else:
        a = np.asarray(x)
        if a.dtype.kind == 'O':
            raise Unsupported('object array')
        d = np.empty(a.shape, dtype=object)
        if a.dtype.kind in 'Mm':
            ints = a.astype('int64')
            nat = np.isnat(a)
            for i in np.ndindex(*a.shape):
                d[i] = tm.NAN if nat[i] else tm.const(int(ints[i]))
        elif a.dtype.kind == 'c' or a.dtype.kind in 'SUV':
            raise Unsupported('array of %s' % a.dtype)
        else:
            for i in np.ndindex(*a.shape):
                v = a[i]
                d[i] = tm.const(bool(v) if a.dtype.kind == 'b' else int(v) if a.dtype.kind in 'iu' else float(v))
        r = SymArray(d, [None] * a.ndim, a.dtype)
        r._weak = isinstance(x, (int, float)) and not isinstance(x, (bool, np.generic))
    if dtype is not None and r.dtype != dtype:
        r = astype(r, dtype)
    return r


def has_sym(x):
    if isinstance(x, (SymArray, SymInt, SymBool)) or hasattr(x, '_is_sym'):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    if isinstance(x, dict):
        return any(has_sym(v) for v in x.values())
    if isinstance(x, slice):
        return any(has_sym(v) for v in (x.start, x.stop, x.step))
    return False


def astype(a, dtype, copy=True, **kw):
    plain('astype', kw)
    dt = np_dtype(dtype)
    src = a.dtype
    if dt == src:
        return SymArray(a.data.copy() if copy else a.data, a.axes, dt, None if copy else a.root)
    k, j = src.kind, dt.kind
    if j == 'f' and dt.itemsize < 4 or j in 'iu' and dt.itemsize < 4 and k != 'b' and not (k in 'iu' and src.itemsize <= dt.itemsize):
        raise Unsupported('cast %s->%s' % (src, dt))
    if j in 'Mm' and np.datetime_data(dt)[0] == 'generic':
        dt = src if k == j else dt
        if k != j:
            raise TypeError('datetime64 values must have a unit specified')

    def f(t):
        if k in 'Mm' and j in 'Mm':
            if k != j:
                raise TypeError('Cannot cast %s to %s' % (src, dt))
            return convert_unit(t, unit_of(src), unit_of(dt), k)
        if k in 'Mm':
            if j in 'iuf':
                return tm.fn('r32', t) if j == 'f' and dt.itemsize == 4 else t
            raise Unsupported('cast %s->%s' % (src, dt))
        if j in 'Mm':
            if k == 'b':
                raise Unsupported('bool->datetime')
            return tm.fn('trunc', t)
        if k == 'b':
            if j == 'b':
                return t
            return tm.ite(t, tm.ONE, tm.ZERO)
        if j == 'b':
            return tm.not_(tm.eq(t, 0))
        if j in 'iu' and k == 'f':
            return tm.fn('trunc', t)
        if j == 'f' and dt.itemsize == 4 and not (k in 'iu' and src.itemsize <= 2):
            return tm.fn('r32', t)
        return t
    r = emap(f, a, dt)
    fits(r)
    return r


def emap(f, a, dtype):
    d = np.empty(a.data.shape, dtype=object)
    memo = {}
    for i in np.ndindex(*a.data.shape):
        t = a.data[i]
        if t not in memo:
            memo[t] = f(t)
        d[i] = memo[t]
    return SymArray(d, a.axes, dtype)


# ------------------------------------------------------------------- broadcast

def align(arrs):
    nd = max(a.ndim for a in arrs)
    datas = [a.data.reshape((1,) * (nd - a.ndim) + a.data.shape) for a in arrs]
    axs = [[None] * (nd - a.ndim) + list(a.axes) for a in arrs]
    subs = [dict() for _ in arrs]
    out = [None] * nd
    used = set()
    c = ctx
    for k in range(nd):
        cur, who, cdim = None, [], 1
        for n in range(len(arrs)):
            ax, ext = axs[n][k], datas[n].shape[k]
            if ax is None:
                if ext == 1:
                    continue
                if cur is not None:
                    if c().branch(tm.eq(cur.size, tm.const(ext))):
                        raise Unsupported('symbolic axis of concrete size')
                    if c().branch(tm.eq(cur.size, tm.ONE)):
                        raise Unsupported('symbolic axis of size 1 against concrete')
                    raise ValueError('operands could not be broadcast together')
                if cdim not in (1, ext):
                    raise ValueError('operands could not be broadcast together')
                cdim = ext
            else:
                if cdim != 1:
                    if c().branch(tm.eq(ax.size, tm.const(cdim))):
                        raise Unsupported('symbolic axis of concrete size')
                    if c().branch(tm.eq(ax.size, tm.ONE)):
                        subs[n][ax.idx] = tm.ZERO
                        continue
                    raise ValueError('operands could not be broadcast together')
                if cur is None:
                    cur, who = ax, [n]
                elif ax is cur:
                    who.append(n)
                elif c().branch(tm.eq(cur.size, ax.size)):
                    subs[n][ax.idx] = cur.idx
                    who.append(n)
                elif c().branch(tm.eq(ax.size, tm.ONE)):
                    subs[n][ax.idx] = tm.ZERO
                elif c().branch(tm.eq(cur.size, tm.ONE)):
                    for m in who:
                        subs[m][axs[m][k].idx] = tm.ZERO
                    cur, who = ax, [n]
                else:
                    raise ValueError('operands could not be broadcast together with shapes')
        if cur is not None and cur.uid in used:
            new = Axis(cur.size, cur.name)
            for m in who:
                subs[m][axs[m][k].idx] = new.idx
            cur = new
        if cur is not None:
            used.add(cur.uid)
        out[k] = cur
    res = []
    for d, s in zip(datas, subs):
        if s:
            e = np.empty(d.shape, dtype=object)
            flat = tm.subst(list(d.reshape(-1)), s)
            e.reshape(-1)[:] = flat
            d = e
        res.append(d)
    return res, out


def elementwise(f, arrs, dtype):
    datas, axes = align(arrs)
    shp = np.broadcast_shapes(*[d.shape for d in datas])
    bs = [np.broadcast_to(d, shp) for d in datas]
    r = np.empty(shp, dtype=object)
    memo = {}
    for i in np.ndindex(*shp):
        key = tuple(b[i] for b in bs)
        if key not in memo:
            memo[key] = f(*key)
        r[i] = memo[key]
    return SymArray(r, axes, dtype)


def resolve(*arrs):
    """numpy's result dtype (numeric), weak python scalars included"""
    ts = []
    for a in arrs:
        if getattr(a, '_weak', False):
            ts.append(1 if a.dtype.kind in 'iu' else 1.0)
        else:
            ts.append(a.dtype)
    try:
        r = np.result_type(*ts)
    except TypeError as e:
        raise TypeError(str(e))
    return np.dtype(r)


def num(t):
    return tm.ite(t, tm.ONE, tm.ZERO) if tm.is_bool(t) else t


_ARITH = {
    'add': tm.add, 'subtract': tm.sub, 'multiply': tm.mul, 'divide': tm.div, 'true_divide': tm.div,
    'floor_divide': lambda a, b: tm.fn('floor', tm.div(a, b)),
    'remainder': lambda a, b: tm.fn('mod', a, b), 'mod': lambda a, b: tm.fn('mod', a, b),
    'fmod': lambda a, b: tm.sub(a, tm.mul(b, tm.fn('trunc', tm.div(a, b)))),
    'power': tm.power, 'float_power': tm.power, 'pow': tm.power,
    'maximum': lambda a, b: tm.fn('max', a, b), 'minimum': lambda a, b: tm.fn('min', a, b),
    'arctan2': lambda a, b: tm.fn('atan2', a, b), 'atan2': lambda a, b: tm.fn('atan2', a, b),
    'hypot': lambda a, b: tm.fn('sqrt', tm.add(tm.mul(a, a), tm.mul(b, b))),
}
_CMP = {
    'less': tm.lt, 'less_equal': tm.le, 'greater': lambda a, b: tm.lt(b, a),
    'greater_equal': lambda a, b: tm.le(b, a), 'equal': tm.eq, 'not_equal': lambda a, b: tm.not_(tm.eq(a, b)),
}
_LOGIC = {'bitwise_and': tm.and_, 'bitwise_or': tm.or_, 'logical_and': tm.and_, 'logical_or': tm.or_,
          'bitwise_xor': lambda a, b: tm.or_(tm.and_(a, tm.not_(b)), tm.and_(tm.not_(a), b)),
          'logical_xor': lambda a, b: tm.or_(tm.and_(a, tm.not_(b)), tm.and_(tm.not_(a), b))}


def nan_cmp(f):
    """comparisons are False when an operand is NaN (only tracked for maybe-NaN inputs)"""
    def g(a, b):
        na, nb = nanof(a), nanof(b)
        r = f(a, b)
        if na is tm.FALSE and nb is tm.FALSE:
            return r
        if f is _CMP['not_equal']:
            return tm.or_(na, nb, r)
        return tm.and_(r, tm.not_(na), tm.not_(nb))
    return g


OPAQUE = ('ptp', 'std', 'var', 'median', 'nansum', 'nanmean', 'nanmedian', 'nanstd')     # reductions of which nothing is known
EXTREME = {}        # minimum and maximum over an axis of any length: (op, element, axis)
_FLIP = {'less': 'greater', 'less_equal': 'greater_equal', 'greater': 'less', 'greater_equal': 'less_equal',
         'equal': 'equal', 'not_equal': 'not_equal'}


def nan_extreme(t):
    """the condition under which t, perhaps a minimum or maximum over an axis, is NaN"""
    if t not in EXTREME:
        return nanof(t)
    op, u, ax = EXTREME[t]
    n = nan_extreme(u)
    return forall(ax, n) if op.startswith('nan') else tm.FALSE if n is tm.FALSE else tm.not_(forall(ax, tm.not_(n)))


def cmp_extreme(name, x, y):
    """comparison where an operand is the minimum or maximum over an axis, as a statement on every element; else None"""
    if x not in EXTREME:
        if y not in EXTREME:
            return None
        x, y, name = y, x, _FLIP[name]
    op, t, ax = EXTREME[x]
    if y in EXTREME or ax.idx in tm.free(y):
        return None
    if name == 'equal':
        return tm.and_(cmp_extreme('less_equal', x, y), cmp_extreme('greater_equal', x, y))
    if name == 'not_equal':
        return tm.not_(cmp_extreme('equal', x, y))
    r = cmp_extreme(name, t, y) if t in EXTREME else nan_cmp(_CMP[name])(t, y)      # false of NaN
    if op.endswith('min') == name.startswith('greater'):        # min >= y: every element; min < y: some element
        if not op.startswith('nan'):
            return forall(ax, r)
        n = nan_extreme(t)
        return tm.and_(forall(ax, tm.or_(n, r)), tm.not_(forall(ax, n)))
    some = tm.not_(forall(ax, tm.not_(r)))
    n = nan_extreme(x)
    return some if op.startswith('nan') or n is tm.FALSE else tm.and_(some, tm.not_(n))


def binop(name, a, b):
    for x in (a, b):
        if isinstance(x, (str, bytes)) or x is None:
            if name == 'equal':
                return False
            if name == 'not_equal':
                return True
            if isinstance(x, str):
                try:
                    np.datetime64(x)
                except ValueError:
                    raise TypeError('unsupported operand')
                raise Unsupported('string operand')
            raise TypeError('unsupported operand type(s)')
    a, b = asarr(a), asarr(b)
    if 'M' in (a.dtype.kind, b.dtype.kind) or 'm' in (a.dtype.kind, b.dtype.kind):
        return dtop(name, a, b)
    if name in _ARITH:
        dt = resolve(a, b)
        if name in ('divide', 'true_divide') and dt.kind in 'iub':
            dt = np.dtype('float64')
        if name in ('arctan2', 'atan2', 'hypot', 'float_power') and dt.kind in 'iub':
            dt = np.dtype('float64')
        f = _ARITH[name]
        r = elementwise(lambda x, y: f(num(x), num(y)), [a, b], dt)
        fits(r)
        return r
    if name in _CMP:
        if a.dtype.kind == 'b' and b.dtype.kind == 'b' and name in ('equal', 'not_equal'):
            g = _LOGIC['bitwise_xor']
            return elementwise(g if name == 'not_equal' else (lambda x, y: tm.not_(g(x, y))), [a, b], bool)
        g = nan_cmp(_CMP[name])

        def cmp(x, y):
            r = cmp_extreme(name, x, y) if EXTREME else None
            return g(num(x), num(y)) if r is None else r
        return elementwise(cmp, [a, b], bool)
    if name in _LOGIC:
        if a.dtype.kind != 'b' or b.dtype.kind != 'b':
            if name.startswith('logical'):
                a, b = astype(a, bool), astype(b, bool)
            else:
                raise Unsupported('bitwise operation on integers')
        return elementwise(_LOGIC[name], [a, b], bool)
    raise Unsupported('operation %s' % name)


def fits(r):
    """side condition: no element overflows its 32-bit integer type"""
    if r.dtype.kind in 'iu' and r.dtype.itemsize == 4 and CTX[0] is not None:
        lo, hi = (-2**31, 2**31 - 1) if r.dtype.kind == 'i' else (0, 2**32 - 1)
        for t in r.data.reshape(-1):
            if not tm.isc(t):
                CTX[0].fits[t] = (lo, hi)
            elif not lo <= t.val <= hi:
                raise Unsupported('integer overflow')


def finer(u, v):
    return u if _ORDER.index(u) > _ORDER.index(v) else v


def dtop(name, a, b):
    ka, kb = a.dtype.kind, b.dtype.kind

    def common(kindA, kindB):
        u, v = unit_of(a.dtype), unit_of(b.dtype)
        w = finer(u, v)
        if w not in ('Y', 'M') and (kindA == 'm' and u in 'YM' or kindB == 'm' and v in 'YM'):
            raise TypeError('cannot combine units')
        return w

    if name in _CMP:
        if ka == kb:
            w = common(ka, kb)
            u, v = unit_of(a.dtype), unit_of(b.dtype)
            f = nan_cmp(_CMP[name])
            return elementwise(lambda x, y: f(convert_unit(x, u, w, ka), convert_unit(y, v, w, kb)), [a, b], bool)
        raise Unsupported('comparison %s' % name)
    if name in ('add', 'subtract'):
        f = tm.add if name == 'add' else tm.sub
        if ka in 'Mm' and kb in 'Mm':
            if ka == 'M' and kb == 'M' and name == 'add' or ka == 'm' and kb == 'M' and name == 'subtract':
                raise TypeError('unsupported datetime operation')
            w = common(ka, kb)
            u, v = unit_of(a.dtype), unit_of(b.dtype)
            kind = 'm' if ka == kb else 'M'
            if w in ('Y', 'M') or True:
                r = elementwise(lambda x, y: f(convert_unit(x, u, w, ka), convert_unit(y, v, w, kb)), [a, b],
                                np.dtype('%s8[%s]' % (kind, w)))
            return r
        # integer with a datetime: counts in the datetime's unit
        d = a if ka in 'Mm' else b
        o = b if ka in 'Mm' else a
        if o.dtype.kind not in 'iu':
            raise TypeError('ufunc cannot use operands with types %s and %s' % (a.dtype, b.dtype))
        if kb in 'Mm' and name == 'subtract' and kb == 'M':
            raise TypeError('unsupported')
        return elementwise(f, [a, b], d.dtype)
    if name in ('multiply',):
        d = a if ka in 'Mm' else b
        o = b if ka in 'Mm' else a
        if d.dtype.kind == 'M' or o.dtype.kind in 'Mm':
            raise TypeError('unsupported')
        r = elementwise(tm.mul, [a, b], d.dtype)
        return r if o.dtype.kind in 'iu' else emap(lambda t: tm.fn('trunc', t), r, d.dtype)
    if name in ('divide', 'true_divide', 'floor_divide', 'remainder', 'mod'):
        if ka == 'm' and kb == 'm':
            w = common('m', 'm')
            u, v = unit_of(a.dtype), unit_of(b.dtype)
            g = {'divide': tm.div, 'true_divide': tm.div,
                 'floor_divide': lambda x, y: tm.fn('floor', tm.div(x, y)),
                 'remainder': lambda x, y: tm.fn('mod', x, y), 'mod': lambda x, y: tm.fn('mod', x, y)}[name]
            dt = np.dtype('f8') if 'divide' in name and name != 'floor_divide' else \
                np.dtype('i8') if name == 'floor_divide' else np.dtype('m8[%s]' % w)
            return elementwise(lambda x, y: g(convert_unit(x, u, w, 'm'), convert_unit(y, v, w, 'm')), [a, b], dt)
        if ka == 'm' and name in ('divide', 'true_divide', 'floor_divide') and kb in 'iuf':
            return elementwise(lambda x, y: tm.fn('trunc', tm.div(x, y)), [a, b], a.dtype)
    raise Unsupported('datetime operation %s(%s, %s)' % (name, a.dtype, b.dtype))


_DEG = None
_UN = {
    'sin': lambda t: tm.fn('sin', t), 'cos': lambda t: tm.fn('cos', t), 'tan': lambda t: tm.fn('tan', t),
    'arcsin': lambda t: tm.fn('asin', t), 'arccos': lambda t: tm.fn('acos', t), 'arctan': lambda t: tm.fn('atan', t),
    'asin': lambda t: tm.fn('asin', t), 'acos': lambda t: tm.fn('acos', t), 'atan': lambda t: tm.fn('atan', t),
    'sqrt': lambda t: tm.fn('sqrt', t), 'exp': lambda t: tm.fn('exp', t), 'log': lambda t: tm.fn('log', t),
    'log10': lambda t: tm.div(tm.fn('log', t), tm.fn('log', tm.const(10))),
    'radians': lambda t: tm.div(tm.mul(t, tm.PI), 180), 'deg2rad': lambda t: tm.div(tm.mul(t, tm.PI), 180),
    'degrees': lambda t: tm.div(tm.mul(t, 180), tm.PI), 'rad2deg': lambda t: tm.div(tm.mul(t, 180), tm.PI),
    'negative': tm.neg, 'positive': lambda t: t, 'square': lambda t: tm.power(t, 2),
    'reciprocal': lambda t: tm.div(1, t),
    'floor': lambda t: tm.fn('floor', t), 'trunc': lambda t: tm.fn('trunc', t), 'fix': lambda t: tm.fn('trunc', t),
    'ceil': lambda t: tm.neg(tm.fn('floor', tm.neg(t))),
    'rint': lambda t: tm.mk('rnd', (t,), 0),
    'sign': lambda t: tm.ite(tm.lt(0, t), tm.ONE, tm.ite(tm.lt(t, 0), tm.const(-1), tm.ZERO)),
}


def unop(name, a):
    a = asarr(a)
    k = a.dtype.kind
    if name in ('absolute', 'abs', 'fabs'):
        return emap(lambda t: tm.fn('abs', num(t)), a, a.dtype)
    if name in ('logical_not',) or (name == 'invert' and k == 'b'):
        if k != 'b':
            a = astype(a, bool)
        return emap(tm.not_, a, bool)
    if name in ('isnan', 'isnat'):
        if name == 'isnat' and k not in 'Mm':
            raise TypeError('ufunc isnat is only defined for datetime and timedelta')
        return emap(nanof, a, bool)
    if name == 'isfinite':
        return emap(lambda t: tm.not_(nanof(t)), a, bool)
    if name == 'isinf':
        return emap(lambda t: tm.FALSE, a, bool)
    if name in _UN:
        if k in 'Mm':
            if name in ('negative', 'positive') and k == 'm':
                return emap(_UN[name], a, a.dtype)
            raise TypeError('ufunc %s not supported for %s' % (name, a.dtype))
        dt = a.dtype
        if dt.kind in 'iub' and name not in ('negative', 'positive', 'square', 'sign', 'floor', 'trunc', 'ceil'):
            dt = np.dtype('float64')
        f = _UN[name]
        return emap(lambda t: f(num(t)), a, dt)
    raise Unsupported('function %s' % name)


def round_(a, decimals=0, out=None):
    if out is not None:
        raise Unsupported('out=')
    a = asarr(a)
    if a.dtype.kind in 'iu' and decimals >= 0:
        return a.copy()
    return emap(lambda t: tm.mk('rnd', (t,), int(decimals)), a, a.dtype)


def clip(a, lo=None, hi=None, out=None, **kw):
    lo = kw.pop('min', lo) if lo is None else lo
    hi = kw.pop('max', hi) if hi is None else hi
    if out is not None or kw:
        raise Unsupported('clip options')
    r = asarr(a)
    if lo is not None and not (isinstance(lo, float) and lo == -np.inf):
        r = binop('maximum', r, lo)
    if hi is not None and not (isinstance(hi, float) and hi == np.inf):
        r = binop('minimum', r, hi)
    return r if r is not a else r.copy()


def where(cond, *xy):
    if not xy:
        return positions_of(cond),
    if len(xy) != 2:
        raise Unsupported('where with two arguments')
    c, x, y = asarr(cond), asarr(xy[0]), asarr(xy[1])
    if c.dtype.kind != 'b':
        c = astype(c, bool)
    if x.dtype.kind in 'Mm' or y.dtype.kind in 'Mm':
        if x.dtype.kind != y.dtype.kind:
            raise Unsupported('where of mixed datetimes')
        w = finer(unit_of(x.dtype), unit_of(y.dtype))
        dt = np.dtype('%s8[%s]' % (x.dtype.kind, w))
        x, y = astype(x, dt), astype(y, dt)
    else:
        dt = resolve(x, y)
    if dt.kind == 'b':
        return elementwise(tm.ite, [c, x, y], dt)
    return elementwise(lambda p, u, v: tm.ite(p, num(u), num(v)), [c, x, y], dt)


def reduce_(op, a, axis, keepdims, **kw):
    a = asarr(a)
    nd = a.ndim
    axes = tuple(range(nd)) if axis is None else (axis,) if not isinstance(axis, tuple) else axis
    axes = tuple(x + nd if x < 0 else x for x in axes)
    if any(x >= nd for x in axes):
        raise ValueError('axis out of bounds')
    data, axl = a.data, list(a.axes)
    for k in sorted(axes, reverse=True):
        if axl[k] is not None:
            ax = axl[k]
            if op in ('all', 'any'):
                def f(t):
                    t = t if tm.is_bool(t) else tm.not_(tm.eq(t, 0))
                    body = t if op == 'all' else tm.not_(t)
                    q = forall(ax, body)
                    return q if op == 'all' else tm.not_(q)
            else:
                if op[-3:] in ('min', 'max') and (ax.size is tm.ZERO or ctx().branch(tm.eq(ax.size, 0))):
                    raise ValueError('zero-size array to reduction operation %simum which has no identity' % op[-3:])

                def f(t):
                    r = tm.mk('reduce', (t, ax.size), (op, ax.idx.val))
                    if op[-3:] in ('min', 'max'):
                        EXTREME[r] = (op, t, ax)
                    return r
            d = np.empty(data.shape, dtype=object)
            for i in np.ndindex(*data.shape):
                d[i] = f(data[i])
            data = np.take(d, 0, axis=k)
            if not isinstance(data, np.ndarray):
                w = np.empty((), dtype=object)
                w[()] = data
                data = w
        else:
            n = data.shape[k]
            if op in OPAQUE:
                raise Unsupported('%s over a concrete axis' % op)
            g = {'sum': lambda ts: tm.add(*[num(t) for t in ts]) if ts else tm.ZERO,
                 'prod': lambda ts: tm.mul(*ts) if ts else tm.ONE,
                 'all': lambda ts: tm.and_(*ts), 'any': lambda ts: tm.or_(*ts),
                 'mean': lambda ts: tm.div(tm.add(*ts), len(ts)),
                 'max': lambda ts: _fold('max', ts), 'min': lambda ts: _fold('min', ts),
                 'nanmax': lambda ts: _fold_nan('max', ts), 'nanmin': lambda ts: _fold_nan('min', ts)}[op]
            if n == 0 and op[-3:] in ('min', 'max'):
                raise ValueError('zero-size array to reduction operation which has no identity')
            moved = np.moveaxis(data, k, -1)
            d = np.empty(moved.shape[:-1], dtype=object)
            for i in np.ndindex(*moved.shape[:-1]):
                d[i] = g([moved[i + (j,)] for j in range(n)])
            data = d
        axl.pop(k)
    dt = a.dtype if op not in ('all', 'any') else np.dtype(bool)
    if op in ('sum', 'prod') and dt.kind == 'b':
        dt = np.dtype('i8')
    if op in ('mean',) + OPAQUE and dt.kind in 'iub':
        dt = np.dtype('f8')
    if op in OPAQUE and dt.kind != 'f':
        raise Unsupported('%s of %s' % (op, dt))
    r = SymArray(data, axl, dt)
    if keepdims:
        for k in sorted(axes):
            r = expand_dims(r, k)
    if r.ndim == 0 and dt.kind == 'b':
        return mkbool(r.data[()])
    return r


def _fold_nan(n, ts):
    if len(ts) == 1:
        return ts[0]
    if any(t in EXTREME or nanof(t) is not tm.FALSE for t in ts):
        raise Unsupported('nan%s' % n)
    return _fold(n, ts)


def _fold(n, ts):
    r = ts[0]
    for t in ts[1:]:
        r = tm.fn(n, r, t)
    return r


def forall(ax, body):
    """for every position of the axis: body; filtered axes are unfolded to their parent"""
    if body is tm.TRUE:
        return tm.TRUE
    while ax.parent is not None:
        m = ax.mask_term(ax.parent.idx) if callable(getattr(ax, 'mask_term', None)) else ax.mask
        body = tm.subst(body, {ax.idx: tm.mk('rank', (ax.parent.idx,), ax.maskkey)})
        body = tm.implies(m, body)
        ax = ax.parent
    if ax.idx not in tm.free(body):
        # constant over the axis: true if empty
        return tm.or_(tm.eq(ax.size, 0), body)
    if body.op == 'and':
        return tm.and_(*[forall(ax, b) for b in body.args])
    canon = tm.sym('∀%s' % tm.show(ax.size))
    if tm.atoms([body], ('forall',)) and any(u.op == 'forall' and u.val == canon.val for u in tm.children_first([body])):
        raise Unsupported('nested quantifiers over axes of one size')
    return tm.mk('forall', (tm.subst(body, {ax.idx: canon}), ax.size), canon.val)


# ------------------------------------------------------------------- structure

def expand_dims(a, axis):
    a = asarr(a)
    axes = axis if isinstance(axis, (tuple, list)) else (axis,)
    nd = a.ndim + len(axes)
    axes = sorted(x + nd if x < 0 else x for x in axes)
    r = a
    for k in axes:
        d = np.expand_dims(r.data, k)
        r = SymArray(d, r.axes[:k] + [None] + r.axes[k:], r.dtype, r.root)
    return r


def squeeze(a, axis=None):
    a = asarr(a)
    keep = []
    for k, ax in enumerate(a.axes):
        if axis is not None and k != axis and (not isinstance(axis, tuple) or k not in axis):
            keep.append(k)
            continue
        if ax is None:
            if a.data.shape[k] != 1:
                keep.append(k)
        elif not ctx().branch(tm.eq(ax.size, tm.ONE)):
            keep.append(k)
        else:
            a = SymArray(_sub(a.data, {ax.idx: tm.ZERO}), a.axes[:k] + [None] + a.axes[k + 1:], a.dtype, a.root)
    d = a.data.reshape([a.data.shape[k] for k in keep])
    return SymArray(d, [a.axes[k] for k in keep], a.dtype, a.root)


def _sub(data, m):
    e = np.empty(data.shape, dtype=object)
    if data.size:
        e.reshape(-1)[:] = tm.subst(list(data.reshape(-1)), m)
    return e


def reshape(a, shape):
    """insertion/removal of unit dimensions, and the identity"""
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    cur = [(ax, n) for ax, n in zip(a.axes, a.data.shape) if not (ax is None and n == 1)]
    want = list(shape)
    if all(ax is None for ax in a.axes) and all(isinstance(w, int) for w in want):
        d = a.data.reshape(want)
        return SymArray(d, [None] * d.ndim, a.dtype, a.root)
    out_axes, out_shape = [], []
    it = iter(cur)
    for w in want:
        if isinstance(w, (int, np.integer)) and w == 1:
            out_axes.append(None)
            out_shape.append(1)
            continue
        try:
            ax, n = next(it)
        except StopIteration:
            raise Unsupported('reshape')
        if isinstance(w, (int, np.integer)) and w == -1:
            pass
        elif ax is not None:
            if not ctx().branch(tm.eq(ax.size, w.t if isinstance(w, SymInt) else tm.const(int(w)))):
                raise Unsupported('reshape of symbolic axes')
        elif n != w:
            raise Unsupported('reshape')
        out_axes.append(ax)
        out_shape.append(n)
    if list(it):
        raise Unsupported('reshape flattens axes')
    return SymArray(a.data.reshape(out_shape), out_axes, a.dtype, a.root)


def stack(parts, axis=0):
    datas, axes = align(parts)
    shp = np.broadcast_shapes(*[d.shape for d in datas])
    for p in parts:
        if p.ndim != len(axes):
            raise ValueError('all input arrays must have the same shape')
    dt = resolve(*parts) if parts[0].dtype.kind not in 'Mm' else parts[0].dtype
    nd = len(axes) + 1
    axis = axis + nd if axis < 0 else axis
    d = np.stack([np.broadcast_to(x, shp) for x in datas], axis=axis)
    axes = list(axes)
    axes.insert(axis, None)
    return SymArray(d, axes, dt)


def getitem(a, key):
    keys = key if isinstance(key, tuple) else (key,)
    if keys and as_mask(a, keys[0]) is not None:
        keys = (as_mask(a, keys[0]),) + keys[1:]
    # boolean mask on the first axis
    if keys and isinstance(keys[0], SymArray) and keys[0].dtype.kind == 'b' and keys[0].ndim == 1 \
            and all(k is Ellipsis or k == slice(None) for k in keys[1:]):
        return mask_select(a, keys[0])
    if len(keys) == 1 and isinstance(keys[0], SymArray) and keys[0].dtype.kind in 'iu':
        return take(a, keys[0])
    if len(keys) == 1 and isinstance(keys[0], SymArray) and keys[0].dtype.kind == 'b' and keys[0].ndim == a.ndim > 1:
        f, _, subm, _ = mask_nd(a, keys[0])
        return SymArray(_sub(a.data.reshape(-1), subm), [f], a.dtype)
    if any(isinstance(k, (SymArray, np.ndarray, list)) for k in keys):
        if not has_sym(keys) and all(ax is None for ax in a.axes):
            d = a.data[key]
            return SymArray(d, [None] * d.ndim, a.dtype)
        raise Unsupported('fancy indexing')
    n_idx = sum(1 for k in keys if k is not None and k is not Ellipsis)
    if n_idx > a.ndim:
        raise IndexError('too many indices for array')
    if not any(k is Ellipsis for k in keys):
        keys = keys + (Ellipsis,)
    pos = 0
    data, out = a.data, []
    sel, subm = [], {}
    for k in keys:
        if k is None:
            sel.append(None)
            out.append(None)
        elif k is Ellipsis:
            m = a.ndim - n_idx
            sel += [slice(None)] * m
            out += a.axes[pos:pos + m]
            pos += m
        else:
            ax = a.axes[pos]
            pos += 1
            if isinstance(k, slice):
                if k == slice(None) or k == slice(None, None, 1):
                    sel.append(slice(None))
                    out.append(ax)
                elif ax is None:
                    if has_sym(k):
                        raise Unsupported('symbolic slice')
                    sel.append(k)
                    out.append(None)
                elif k.start is None and k.stop is None and k.step == -1:
                    new = Axis(ax.size, ax.name)
                    subm[ax.idx] = tm.sub(tm.sub(ax.size, 1), new.idx)
                    sel.append(slice(None))
                    out.append(new)
                else:
                    raise Unsupported('slice of a symbolic axis')
            elif isinstance(k, (int, np.integer)):
                if ax is None:
                    sel.append(int(k))
                else:
                    size_ok = tm.lt(int(k), ax.size) if k >= 0 else tm.le(-int(k), ax.size)
                    if not ctx().branch(size_ok):
                        raise IndexError('index out of bounds')
                    subm[ax.idx] = tm.const(int(k)) if k >= 0 else tm.add(ax.size, int(k))
                    sel.append(0)
            else:
                raise Unsupported('index %r' % (k,))
    d = data[tuple(sel)]
    if not isinstance(d, np.ndarray):
        w = np.empty((), dtype=object)
        w[()] = d
        d = w
    if subm:
        d = _sub(d, subm)
    return SymArray(d, out, a.dtype, a.root)


_MASKS = {}


def mask_key(mask_arr):
    """canonical identity of a boolean mask over an axis"""
    ax = mask_arr.axes[0]
    canon = tm.sym('μ')
    body = tm.subst(mask_arr.lane(), {ax.idx: canon})
    return body, (body.id, ax.size.id)


def filtered_axis(mask_arr):
    ax = mask_arr.axes[0]
    body, key = mask_key(mask_arr)
    if body is tm.TRUE:
        return None, key
    k = (key, ax.uid)
    if k not in _MASKS:
        size = tm.sym('count⟨%d,%d⟩' % key)
        tm.declare_int(size.val)
        f = Axis(size, ax.name + 'f')
        f.parent, f.mask, f.maskkey = ax, mask_arr.lane(), key
        f.body = body
        _MASKS[k] = f
        COUNTS[size] = (body, ax.size)
    return _MASKS[k], key


def choose(c, x, y):
    """x where c holds, y elsewhere; each simplified by what is known of c there"""
    if c.op == 'not':
        return choose(c.args[0], y, x)
    if tm.isc(c) or c in (tm.TRUE, tm.FALSE):
        return tm.ite(c, x, y)
    return tm.ite(c, tm.subst(x, {c: tm.TRUE}), tm.subst(y, {c: tm.FALSE}))


def mask_nd(a, m):
    """the elements of a at a mask of all of its dimensions, in a row: their axis, the rank in it of a's position, the
    position of its k-th element, and the mask at a's position"""
    if a.data.size != 1 or m.data.size != 1 or not any(ax is not None for ax in a.axes):
        raise Unsupported('mask of a concrete array')
    sub = {}
    for x, y in zip(a.axes, m.axes):
        if x is not y:
            if x is None or y is None:
                raise Unsupported('mask of another shape')
            if not ctx().branch(tm.eq(x.size, y.size)):
                raise IndexError('boolean index did not match indexed array')
            sub[y.idx] = x.idx
    mt = tm.subst(m.lane(), sub)
    axes = [x for x in a.axes if x is not None]
    body = tm.subst(mt, {x.idx: tm.sym('μ%d' % i) for i, x in enumerate(axes)})
    key = ('nd', (body.id,) + tuple(x.size.id for x in axes))
    if key not in _MASKS:
        size = tm.sym('count⟨%s⟩' % ','.join(map(str, key[1])))
        tm.declare_int(size.val)
        _MASKS[key] = Axis(size, 'nd')
    f = _MASKS[key]
    return f, tm.mk('rank', tuple(x.idx for x in axes), key), \
        {x.idx: tm.mk('enum', (f.idx,), key + (i,)) for i, x in enumerate(axes)}, mt


COUNTS = {}      # count symbols: 0 <= count <= size ; count == size iff all


def mask_select(a, m):
    ax = a.axes[0] if a.ndim else None
    if a.ndim == 0:
        raise IndexError('too many indices')
    if m.axes[0] is None:
        if ax is not None:
            n = m.data.shape[0]
            if not ctx().branch(tm.eq(ax.size, tm.const(n))):
                raise IndexError('boolean index did not match indexed array')
            d = np.concatenate([_sub(a.data, {ax.idx: tm.const(i)}) for i in range(n)], axis=0)
            a = SymArray(d, [None] + a.axes[1:], a.dtype)
        if m.data.shape[0] != a.data.shape[0]:
            raise IndexError('boolean index did not match indexed array')
        bits = [ctx().branch(t) for t in m.data]
        return SymArray(a.data[np.array(bits, dtype=bool)], a.axes, a.dtype)
    if ax is None:
        raise Unsupported('mask of a concrete axis')
    data = a.data
    if ax is not m.axes[0]:
        if not ctx().branch(tm.eq(ax.size, m.axes[0].size)):
            raise IndexError('boolean index did not match indexed array')
        data = _sub(data, {ax.idx: m.axes[0].idx})
        ax = m.axes[0]
    f, key = filtered_axis(m)
    if f is None:
        return SymArray(data.copy(), [ax] + a.axes[1:], a.dtype)
    d = _sub(data, {ax.idx: tm.mk('enum', (f.idx,), key)})
    return SymArray(d, [f] + a.axes[1:], a.dtype)


def take(a, idx):
    m = as_mask(a, idx)
    if m is not None:
        return mask_select(a, m)
    if a.ndim == 1 and a.axes[0] is None:
        tab = a.data
        if not all(tm.isc(t) for t in tab):
            raise Unsupported('lookup in a symbolic table')
        val = tuple(t.val for t in tab)

        def f(i):
            if tm.isc(i):
                return tab[int(i.val)]
            ctx().side.append((tm.and_(tm.le(-len(val), i), tm.lt(i, len(val))), 'index within the table'))
            return tm.mk('lut', (i,), val)
        return emap(f, idx, a.dtype)
    if a.ndim >= 1 and a.axes[0] is not None and idx.ndim == 1 and a.data.shape[0] == 1:
        ax = a.axes[0]
        t = idx.lane()
        ctx().side.append((tm.and_(tm.le(tm.neg(ax.size), t), tm.lt(t, ax.size)), 'index within the axis'))
        new_ax = idx.axes[0]
        d = _sub(a.data, {ax.idx: t})
        return SymArray(d, [new_ax] + a.axes[1:], a.dtype)
    raise Unsupported('integer-array indexing')


def positions_of(m):
    """the positions at which a one-dimensional array is not zero, in ascending order"""
    m = asarr(m)
    if m.dtype.kind != 'b':
        m = astype(m, bool)
    if m.ndim != 1:
        raise Unsupported('nonzero of %d dimensions' % m.ndim)
    ax = m.axes[0]
    if ax is None:
        bits = np.array([ctx().branch(t) for t in m.data], dtype=bool)
        d = np.empty(int(bits.sum()), dtype=object)
        d[:] = [tm.const(int(i)) for i in np.flatnonzero(bits)]
        r = SymArray(d, [None], np.int64)
        m = SymArray(np.array([tm.TRUE if b else tm.FALSE for b in bits], dtype=object), [None], bool)
        r.mask = m, m.data, r.data
        return r
    r = mask_select(SymArray(np.array([ax.idx], dtype=object), [ax], np.int64), m)
    r.mask = m, m.data, r.data
    return r


def as_mask(a, i):
    """the mask whose positions the index array i holds, where it is one over the first axis of a; else None"""
    m = getattr(i, 'mask', None)
    if m is None or m[1] is not m[0].data or m[2] is not i.data or not a.ndim:
        return None
    x, y = a.axes[0], m[0].axes[0]
    same = a.data.shape[0] == m[0].data.shape[0] if x is None or y is None else x.size is y.size
    return m[0] if same and (x is None) == (y is None) else None


def narrow(v, tgt):
    """a value assigned to an array of size one along an axis has size one along it"""
    off = tgt.ndim - v.ndim
    if off < 0:
        return v
    data, axes = v.data, list(v.axes)
    for k, ax in enumerate(axes):
        if ax is not None and tgt.axes[k + off] is None and tgt.data.shape[k + off] == 1:
            if not ctx().branch(tm.eq(ax.size, tm.ONE)):
                raise ValueError('could not broadcast input array')
            data, axes[k] = _sub(data, {ax.idx: tm.ZERO}), None
    return v if axes == list(v.axes) else SymArray(data, axes, v.dtype)


def setitem(a, key, value):
    keys = key if isinstance(key, tuple) else (key,)
    if keys and as_mask(a, keys[0]) is not None:
        keys = (as_mask(a, keys[0]),) + keys[1:]
    v = asarr(value)
    full = all(k is Ellipsis or (isinstance(k, slice) and k == slice(None)) for k in keys)

    def conv(t):
        if a.dtype.kind == 'f' and a.dtype.itemsize == 4:
            return tm.fn('r32', num(t))
        if a.dtype.kind in 'iu' and v.dtype.kind == 'f':
            return tm.fn('trunc', t)
        if a.dtype.kind == 'M' and v.dtype.kind == 'M':
            return convert_unit(t, unit_of(v.dtype), unit_of(a.dtype))
        if a.dtype.kind != v.dtype.kind and a.dtype.kind in 'fiu' and v.dtype.kind in 'fiub':
            return num(t)
        if a.dtype.kind != v.dtype.kind:
            raise Unsupported('assignment of %s to %s' % (v.dtype, a.dtype))
        return t
    if full:
        r = elementwise(lambda old, new: conv(new), [a, narrow(v, a)], a.dtype)
        if len(r.axes) != len(a.axes) or any(x is not y for x, y in zip(r.axes, a.axes)):
            raise ValueError('could not broadcast input array')
        a.data = r.data
        return
    if isinstance(keys[0], SymArray) and keys[0].dtype.kind == 'b' and keys[0].ndim == 1 and \
            all(k is Ellipsis or (isinstance(k, slice) and k == slice(None)) for k in keys[1:]):
        m = keys[0]
        ax = a.axes[0]
        if ax is None and m.axes[0] is None and m.data.shape[0] == a.data.shape[0]:
            bits = np.array([ctx().branch(t) for t in m.data], dtype=bool)
            tgt = SymArray(a.data[bits], a.axes, a.dtype)
            r = elementwise(lambda old, new: conv(new), [tgt, narrow(v, tgt)], a.dtype)
            if r.data.shape != tgt.data.shape or any(x is not y for x, y in zip(r.axes, tgt.axes)):
                raise ValueError('could not broadcast input array')
            d = a.data.copy()
            d[bits] = r.data
            a.data = d
            return
        if ax is None or m.axes[0] is None:
            raise Unsupported('masked assignment over a concrete axis')
        mt = m.lane()
        if m.axes[0] is not ax:
            if not ctx().branch(tm.eq(ax.size, m.axes[0].size)):
                raise IndexError('boolean index did not match')
            m = SymArray(_sub(m.data, {m.axes[0].idx: ax.idx}), [ax], bool)
            mt = m.lane()
        f, mkey = filtered_axis(m)
        selfax = ax if f is None else f
        # the values, broadcast against (filtered axis, other axes)
        tgt = SymArray(np.full(a.data.shape, tm.ZERO, dtype=object), [selfax] + a.axes[1:], a.dtype)
        if v.ndim > a.ndim:
            raise ValueError('shape mismatch')
        if v.ndim == a.ndim and v.axes[0] is not None and v.axes[0] is not selfax and not \
                ctx().branch(tm.eq(v.axes[0].size, selfax.size)):
            if not ctx().branch(tm.eq(v.axes[0].size, tm.ONE)):
                raise ValueError('shape mismatch: NumPy boolean array indexing assignment')
        r = elementwise(lambda old, new: conv(new), [tgt, narrow(v, tgt)], a.dtype)
        if any(x is not y for x, y in zip(r.axes, tgt.axes)):
            raise ValueError('could not broadcast input array')
        d = r.data
        if f is not None:
            d = _sub(d, {f.idx: tm.mk('rank', (ax.idx,), mkey)})
        out = np.empty(a.data.shape, dtype=object)
        for i in np.ndindex(*a.data.shape):
            out[i] = choose(mt, d[i], a.data[i])
        a.data = out
        return
    if all(ax is None for ax in a.axes) and not has_sym(key) and all(ax is None for ax in v.axes):
        d = a.data.copy()
        d[key] = v.data if v.ndim else v.data[()]
        a.data = d
        return
    if isinstance(keys[0], SymArray) and keys[0].dtype.kind == 'b' and keys[0].ndim == a.ndim and len(keys) == 1 \
            and v.ndim == 0:
        r = elementwise(lambda old, m, new: choose(m, conv(new), old), [a, keys[0], v], a.dtype)
        if any(x is not y for x, y in zip(r.axes, a.axes)):
            raise Unsupported('masked assignment')
        a.data = r.data
        return
    if isinstance(keys[0], SymArray) and keys[0].dtype.kind == 'b' and keys[0].ndim == a.ndim > 1 and len(keys) == 1 \
            and v.ndim == 1:
        f, rank, _, mt = mask_nd(a, keys[0])
        r = elementwise(lambda old, new: conv(new), [SymArray(np.full((1,), tm.ZERO, dtype=object), [f], a.dtype), v],
                        a.dtype)
        if r.axes != [f]:
            raise ValueError('shape mismatch')
        new = _sub(r.data, {f.idx: rank})[0]
        out = np.empty(a.data.shape, dtype=object)
        for i in np.ndindex(*a.data.shape):
            out[i] = choose(mt, new, a.data[i])
        a.data = out
        return
    raise Unsupported('item assignment')


# --------------------------------------------------------------- numpy by name

def np_array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False, like=None):
    dt = np_dtype(dtype)
    a = x._sym_to_array(dt) if hasattr(x, '_sym_to_array') else asarr(x)
    if isinstance(x, SymArray) or hasattr(x, '_sym_to_array'):
        a = a.copy() if copy or copy is None else a
    if dt is not None:
        if a.dtype.kind == 'O':
            raise Unsupported('object')
        a = astype(a, dt)
    while a.ndim < ndmin:
        a = SymArray(a.data[None], [None] + a.axes, a.dtype)
    return a


def np_asarray(x, dtype=None, **kw):
    dt = np_dtype(dtype)
    a = x._sym_to_array(dt) if hasattr(x, '_sym_to_array') else asarr(x)
    return a if dt is None or dt == a.dtype else astype(a, dt)


def np_full(shape, value, dtype=None, **kw):
    shape = shape if isinstance(shape, (tuple, list)) else (shape,)
    v = asarr(value)
    dt = np_dtype(dtype) or v.dtype
    axes, ext = [], []
    for s in shape:
        if isinstance(s, SymInt):
            axes.append(axis_of_size(s.t))
            ext.append(1)
        else:
            axes.append(None)
            ext.append(int(s))
    # two dimensions of the same symbolic size are distinct axes
    seen = set()
    for i, ax in enumerate(axes):
        if ax is not None:
            if ax.uid in seen:
                axes[i] = Axis(ax.size, ax.name)
            seen.add(axes[i].uid)
    if v.ndim:
        raise Unsupported('full with an array')
    t = astype(v, dt).data[()]
    d = np.empty(ext, dtype=object)
    d[...] = t
    return SymArray(d, axes, dt)


_AXIS_BY_SIZE = {}


def register_axis(ax):
    _AXIS_BY_SIZE.setdefault(ax.size, ax)
    return ax


def axis_of_size(t):
    if t not in _AXIS_BY_SIZE:
        _AXIS_BY_SIZE[t] = Axis(t)
    return _AXIS_BY_SIZE[t]


def like(a, value, dtype=None):
    a = asarr(a)
    dt = np_dtype(dtype) or a.dtype
    t = astype(asarr(value), dt).data[()]
    d = np.empty(a.data.shape, dtype=object)
    d[...] = t
    return SymArray(d, a.axes, dt)


def broadcast_to(a, shape, **kw):
    a = asarr(a)
    tgt = np_full(shape, 0., dtype='f8')
    r = elementwise(lambda o, n: n, [tgt, a], a.dtype)
    if len(r.axes) != len(tgt.axes):
        raise ValueError('broadcast')
    return r


def np_moveaxis(a, s, d):
    order = list(range(a.ndim))
    x = order.pop(s)
    order.insert(d if d >= 0 else a.ndim + d, x)
    return a.transpose(tuple(order))


_UNINIT = itertools.count()


def uninit(a):
    """what numpy.empty returns: values of which nothing is known"""
    if a.data.size == 0 or any(tm.isc(ax.size) and ax.size.val == 0 for ax in a.axes if ax is not None):
        return a
    n = next(_UNINIT)
    idx = tuple(ax.idx for ax in a.axes if ax is not None) or (tm.ZERO,)
    d = np.empty(a.data.shape, dtype=object)
    for k, i in enumerate(np.ndindex(*d.shape)):
        d[i] = tm.mk('uf', idx, 'uninit%d_%d' % (n, k))
        if a.dtype.kind == 'b':
            raise Unsupported('uninitialised booleans')
    a.data = d
    return a


def np_take(a, i, axis=None, **k):
    plain('take', k)
    a = asarr(a)
    if not (axis == 0 or axis is None and a.ndim == 1):
        raise Unsupported('axis of numpy.take')
    return take(a, asarr(i))


def select(condlist, choicelist, default=0):
    r = default
    for c, x in reversed(list(zip(condlist, choicelist, strict=True))):
        r = where(c, x, r)
    return asarr(r)


def piecewise(x, condlist, funclist, *args, **kw):
    x = asarr(x)
    fs, cs = list(funclist), list(condlist) if isinstance(condlist, (list, tuple)) else [condlist]
    val = lambda f: f(x, *args, **kw) if callable(f) else f      # noqa: E731
    r = val(fs.pop()) if len(fs) == len(cs) + 1 else 0.
    for c, f in zip(cs, fs, strict=True):
        r = where(c, val(f), r)
    return astype(asarr(r), x.dtype)


def polyval(p, x):
    p = list(p)
    r = 0.
    for c in p:
        r = binop('add', binop('multiply', r, x), c)
    return asarr(r)


def outer(name, a, b):
    a, b = asarr(a), asarr(b)
    return call_numpy(name, (getitem(a, (Ellipsis,) + (None,) * b.ndim), b), {})


def swapaxes(a, i, j):
    o = list(range(a.ndim))
    o[i], o[j] = o[j], o[i]
    return a.transpose(tuple(o))


def concatenate(arrs, axis=0):
    nd = arrs[0].ndim
    if nd == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    axis %= nd
    if any(a.ndim != nd for a in arrs):
        raise ValueError('all the input array dimensions must match')
    if any(a.axes[axis] is not None for a in arrs):
        raise Unsupported('concatenation along a symbolic axis')
    for k in range(nd):
        if k != axis and any(a.axes[k] is not arrs[0].axes[k] or a.data.shape[k] != arrs[0].data.shape[k] for a in arrs):
            raise Unsupported('concatenation of arrays of several shapes')
    return SymArray(np.concatenate([a.data for a in arrs], axis), arrs[0].axes, resolve(*arrs))


def hstack(arrs):
    arrs = [np_array(a, copy=False, ndmin=1) for a in arrs]
    return concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


def vstack(arrs):
    return concatenate([np_array(a, copy=False, ndmin=2) for a in arrs], 0)


FUNCS = {
    'array': np_array, 'asarray': np_asarray, 'asanyarray': np_asarray, 'ascontiguousarray': np_asarray,
    'atleast_1d': lambda x: np_array(x, copy=False, ndmin=1), 'copy': lambda x, **k: asarr(x).copy(),
    'full': np_full,
    'zeros': lambda shape, dtype='f8', **k: np_full(shape, 0., dtype),
    'ones': lambda shape, dtype='f8', **k: np_full(shape, 1., dtype),
    'empty': lambda shape, dtype='f8', **k: uninit(np_full(shape, 0., dtype)),
    'zeros_like': lambda a, dtype=None, **k: like(a, 0., dtype),
    'ones_like': lambda a, dtype=None, **k: like(a, 1., dtype),
    'empty_like': lambda a, dtype=None, **k: uninit(like(a, 0., dtype)),
    'select': select, 'piecewise': piecewise, 'polyval': polyval,
    'concatenate': lambda arrs, axis=0, **k: concatenate([asarr(x) for x in arrs], axis),
    'hstack': lambda arrs, **k: hstack([asarr(x) for x in arrs]),
    'vstack': lambda arrs, **k: vstack([asarr(x) for x in arrs]),
    'atleast_2d': lambda x: np_array(x, copy=False, ndmin=2),
    'swapaxes': lambda a, i, j: swapaxes(asarr(a), i, j),
    'outer': lambda a, b, **k: outer('multiply', asarr(a).ravel(), asarr(b).ravel()),
    'copysign': lambda a, b: where(binop('less', b, 0.), unop('negative', unop('absolute', a)), unop('absolute', a)),
    'heaviside': lambda a, h: where(binop('equal', a, 0.), h, where(binop('less', a, 0.), 0., 1.)),
    'full_like': lambda a, v, dtype=None, **k: like(a, v, dtype),
    'where': where, 'round': round_, 'around': round_, 'clip': clip,
    'expand_dims': expand_dims, 'squeeze': squeeze, 'reshape': lambda a, shape=None, **k: reshape(
        asarr(a), shape if shape is not None else k['newshape']),
    'ravel': lambda a, **k: asarr(a).ravel(), 'transpose': lambda a, axes=None: asarr(a).transpose(axes),
    'stack': lambda arrs, axis=0, **k: stack([asarr(x) for x in arrs], axis),
    'sum': reducer('sum'),
    'prod': reducer('prod'),
    'mean': reducer('mean'),
    'all': lambda a, axis=None, **k: np_all('all', a, axis, **k),
    'any': lambda a, axis=None, **k: np_all('any', a, axis, **k),
    'max': reducer('max'),
    'min': reducer('min'),
    'amax': reducer('max'),
    'amin': reducer('min'),
    **{n: reducer(n) for n in OPAQUE},
    'nanmin': reducer('nanmin'), 'nanmax': reducer('nanmax'),
    'broadcast_to': broadcast_to, 'moveaxis': np_moveaxis,
    'size': lambda a, axis=None: asarr(a).size, 'ndim': lambda a: asarr(a).ndim, 'shape': lambda a: asarr(a).shape,
    'astype': lambda a, d, **k: astype(asarr(a), d),
    'einsum': None, 'take': np_take, 'nonzero': lambda a: (positions_of(a),), 'flatnonzero': lambda a: positions_of(asarr(a).ravel()),
    'count_nonzero': lambda a: reduce_('sum', astype(asarr(a), bool), None, False),
    'isscalar': lambda a: isinstance(a, (SymInt, SymBool)),
    'divmod': lambda a, b: (binop('floor_divide', a, b), binop('remainder', a, b)),
    'modf': lambda a: (binop('subtract', a, unop('trunc', a)), unop('trunc', a)),
    'copyto': lambda dst, src, where=True, **k: (into(dst, src, where), None)[1],
    'putmask': lambda a, mask, values: (into(a, values, mask), None)[1],
    'nan_to_num': lambda a, copy=True, nan=0.0: where(unop('isnan', a), nan, a),
    'broadcast_arrays': lambda *a: _broadcast_arrays(a),
}


_PARAMS = {n: {p.name for p in inspect.signature(f).parameters.values()
               if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)} | ({'where'} if n in ('all', 'any') else set())
           for n, f in FUNCS.items() if f is not None}
for _n, _k in (('clip', {'min', 'max'}), ('reshape', {'newshape'}), ('nanmin', {'axis'})):
    _PARAMS.get(_n, set()).update(_k)


def _broadcast_arrays(arrs):
    arrs = [asarr(a) for a in arrs]
    datas, axes = align(arrs)
    shp = np.broadcast_shapes(*[d.shape for d in datas])
    return [SymArray(np.broadcast_to(d, shp).copy(), axes, a.dtype) for d, a in zip(datas, arrs)]


def np_all(op, a, axis=None, where=None, keepdims=False, **k):
    plain(op, k)
    if isinstance(a, (SymBool,)):
        return a
    a = asarr(a)
    if where is not None:
        w = asarr(where)
        a = elementwise((lambda x, m: tm.implies(m, x)) if op == 'all' else (lambda x, m: tm.and_(m, x)),
                        [astype(a, bool), w], bool)
    return reduce_(op, a, axis, bool(keepdims))


def into(out, r, mask=True):
    """the values r written in the array out, where the mask holds"""
    r = asarr(r)
    if r.dtype.kind != out.dtype.kind and not (r.dtype.kind in 'biu' and out.dtype.kind == 'f'):
        raise TypeError('Cannot cast output')
    if mask is not True:
        m = asarr(mask)
        r = elementwise(choose, [astype(m, bool), astype(r, out.dtype), out], out.dtype)
    out[...] = r
    return out


def call_numpy(name, args, kw):
    kw = dict(kw)
    out = kw.pop('out', None)
    if isinstance(out, tuple) and len(out) == 1:
        out = out[0]
    if out is not None:
        if not isinstance(out, SymArray) or name in ('sum', 'mean', 'prod', 'any', 'all', 'min', 'max', 'matmul', 'dot'):
            raise Unsupported('out= argument')
        return into(out, call_numpy(name, args, {k: x for k, x in kw.items() if k != 'where'}), kw.get('where', True))
    if name in FUNCS and FUNCS[name] is not None:
        plain(name, {k: v for k, v in kw.items() if k not in _PARAMS[name]})
        return FUNCS[name](*args, **kw)
    wh = kw.pop('where', True)
    if wh is not True:
        raise Unsupported('where= argument')
    kw.pop('casting', None)
    dt = kw.pop('dtype', None)
    if kw:
        raise Unsupported('options of numpy.%s: %s' % (name, list(kw)))
    if name in _ARITH or name in _CMP or name in _LOGIC:
        r = binop(name, *args)
    elif name in _UN or name in ('absolute', 'abs', 'fabs', 'logical_not', 'invert', 'isnan', 'isnat', 'isfinite',
                                 'isinf'):
        r = unop(name, *args)
    else:
        raise Unsupported('numpy.%s' % name)
    return r if dt is None else astype(r, dt)
