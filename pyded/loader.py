"""Runs the real source of /repo/src/sunwhere symbolically.

The source text of each module is compiled and executed as it is (nothing is
dropped, copied or rewritten); what is replaced are the *libraries* it imports
(numpy, numexpr, pandas, xarray, loguru), by models with their contracts over
symbolic arrays, and the few builtins that insist on concrete values (len,
range, isinstance...)."""
import ast
import builtins
import os
import sys
import types
import numpy as _np
from . import terms as tm
from . import sym
from .sym import SymArray, SymInt, SymBool, Unsupported, asarr, has_sym

SRC = os.environ.get('VERIF_REPO', '/repo') + '/src'


# ------------------------------------------------------------------ numpy proxy

class NPType:
    """a numpy scalar type: usable as a dtype, as a cast and in isinstance"""

    def __init__(self, real):
        self._np_real = real
        self.__name__ = real.__name__
        self.__qualname__ = real.__name__

    def __call__(self, *args, **kw):
        if self._np_real is _np.ndarray:
            raise Unsupported('ndarray()')
        if has_sym(args):
            if len(args) != 1 or kw:
                raise Unsupported('cast with options')
            return sym.astype(asarr(args[0]), self._np_real)
        return self._np_real(*unwrap(args), **unwrap(kw))

    def __instancecheck__(self, obj):
        if isinstance(obj, SymArray):
            if self._np_real is _np.ndarray:
                return True
            if obj.ndim == 0:
                return issubclass(obj.dtype.type, self._np_real)
            return False
        return isinstance(obj, self._np_real)

    def __eq__(self, o):
        return getattr(o, '_np_real', o) is self._np_real or o == self._np_real

    def __hash__(self):
        return hash(self._np_real)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return getattr(self._np_real, k)

    def __repr__(self):
        return repr(self._np_real)


def unwrap(x):
    if isinstance(x, NPType):
        return x._np_real
    if isinstance(x, NPFunc):
        return x._real
    if isinstance(x, _BuiltinType):
        return x.real
    if isinstance(x, tuple):
        return tuple(unwrap(v) for v in x)
    if isinstance(x, list):
        return [unwrap(v) for v in x]
    if isinstance(x, dict):
        return {k: unwrap(v) for k, v in x.items()}
    return x


class CArr(_np.ndarray):
    """a concrete array that may be indexed symbolically"""

    def __getitem__(self, key):
        if has_sym(key):
            return sym.getitem(asarr(_np.asarray(self)), key)
        return super().__getitem__(key)

    def __setitem__(self, key, value):
        if has_sym(key) or has_sym(value):
            raise Unsupported('symbolic item assignment to a concrete array')
        super().__setitem__(key, value)


def cwrap(r):
    if type(r) is _np.ndarray and r.ndim and r.dtype.kind in 'fiub':
        c = CArr(r.shape, r.dtype)
        c[...] = r
        return c
    return r


class NPFunc:
    def __init__(self, real, name):
        self._real, self.__name__, self._name = real, name.split('.')[-1], name

    def __call__(self, *args, **kw):
        conts = [a for a in list(args) + list(kw.values()) if sym.is_container(a)]
        if conts:
            return conts[0]._np_call(self._name, args, kw)
        if has_sym(args) or has_sym(kw):
            return sym.call_numpy(self._name, args, kw)
        if self._name in ('full', 'zeros', 'ones', 'empty') and sym.CTX[0] is not None:
            return sym.call_numpy(self._name, unwrap(args), unwrap(kw))      # may be assigned symbolic values later
        return cwrap(self._real(*unwrap(args), **unwrap(kw)))

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if k in ('outer', 'reduce', 'accumulate', 'at') and isinstance(self._real, _np.ufunc):
            return self._method(k)
        raise Unsupported('numpy.%s.%s' % (self._name, k))

    def _method(self, k):
        def method(*args, **kw):
            if not has_sym(args) and not has_sym(kw):
                return cwrap(getattr(self._real, k)(*unwrap(args), **unwrap(kw)))
            if any(sym.is_container(a) for a in args):
                raise Unsupported('numpy.%s.%s of a container' % (self._name, k))
            return sym.asarr(args[0]).__array_ufunc__(self._real, k, *args, **kw)
        return method


class NPModule(types.ModuleType):
    _cache = {}

    def __init__(self, real, path):
        super().__init__(real.__name__)
        self.__dict__['_real'], self.__dict__['_path'] = real, path

    def __getattr__(self, k):
        if k.startswith('__') and k != '__version__':
            raise AttributeError(k)
        key = self._path + k
        if key in self._cache:
            return self._cache[key]
        v = getattr(self._real, k)
        if isinstance(v, type):
            r = NPType(v) if issubclass(v, (_np.generic, _np.ndarray)) else \
                v if k in ('errstate',) else NPFunc(v, k)
            if k == 'dtype':
                r = lambda d, **kw: _np.dtype(unwrap(d))     # noqa: E731
        elif isinstance(v, types.ModuleType):
            r = NPModule(v, key + '.')
        elif callable(v):
            r = NPFunc(v, key)
        else:
            r = v
        self._cache[key] = r
        return r


NP = NPModule(_np, '')


# --------------------------------------------------------------- numexpr proxy

_NE_FUNCS = {'where': None, 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'arcsin': 'arcsin', 'arccos': 'arccos',
             'arctan': 'arctan', 'arctan2': 'arctan2', 'sinh': 'sinh', 'cosh': 'cosh', 'tanh': 'tanh', 'exp': 'exp',
             'log': 'log', 'log10': 'log10', 'log1p': 'log1p', 'expm1': 'expm1', 'sqrt': 'sqrt', 'abs': 'absolute',
             'absolute': 'absolute', 'floor': 'floor', 'ceil': 'ceil', 'fmod': 'fmod', 'maximum': 'maximum',
             'minimum': 'minimum', 'trunc': 'trunc', 'isnan': 'isnan', 'isfinite': 'isfinite', 'round': 'rint',
             'sum': 'sum', 'prod': 'prod', 'min': 'min', 'max': 'max'}
_NE_BIN = {ast.Add: 'add', ast.Sub: 'subtract', ast.Mult: 'multiply', ast.Mod: 'remainder', ast.Pow: 'power',
           ast.BitAnd: 'bitwise_and', ast.BitOr: 'bitwise_or', ast.BitXor: 'bitwise_xor', ast.Div: 'divide',
           ast.FloorDiv: 'floor_divide'}
_NE_CMP = {ast.Lt: 'less', ast.LtE: 'less_equal', ast.Gt: 'greater', ast.GtE: 'greater_equal', ast.Eq: 'equal',
           ast.NotEq: 'not_equal'}


def ne_kind(v):
    if isinstance(v, (bool, _np.bool_)):
        return 'b'
    if isinstance(v, (int, _np.integer, SymInt)):
        return 'i'
    if isinstance(v, (float, _np.floating)):
        return 'f'
    a = asarr(v)
    return a.dtype.kind


def ne_eval(node, env):
    if isinstance(node, ast.Expression):
        return ne_eval(node.body, env)
    if isinstance(node, ast.Constant):
        if isinstance(node.value, (int, float)):
            return node.value
        raise Unsupported('numexpr constant')
    if isinstance(node, ast.Name):
        v = env(node.id)
        if isinstance(v, SymArray) and v.dtype.kind in 'Mm':
            raise ValueError('unknown type datetime64')     # as numexpr
        return v
    if isinstance(node, ast.BinOp):
        a, b = ne_eval(node.left, env), ne_eval(node.right, env)
        op = _NE_BIN[type(node.op)]
        ka, kb = ne_kind(a), ne_kind(b)
        if op == 'divide' and ka in 'iub' and kb in 'iub':      # C integer division
            return sym.elementwise(lambda x, y: tm.fn('trunc', tm.div(sym.num(x), sym.num(y))),
                                   [asarr(a), asarr(b)], _np.int64)
        if op == 'power' and ka in 'iub' and kb in 'iub' and not has_sym((a, b)):
            return a ** b
        if not has_sym((a, b)):
            if op in ('add', 'subtract', 'multiply', 'divide') and 'f' in (ka, kb) and _np.ndim(a) == _np.ndim(b) == 0:
                f = {'add': tm.add, 'subtract': tm.sub, 'multiply': tm.mul, 'divide': tm.div}[op]
                if op != 'divide' or float(b) != 0:      # real arithmetic, as for arrays
                    return sym.elementwise(f, [asarr(a), asarr(b)], _np.float64)
            return getattr(_np, op)(a, b)
        r = sym.binop(op, a, b)
        if op in ('add', 'subtract', 'multiply') and 'f' in (ka, kb):
            r._dtype = _np.dtype('f8') if r.dtype.kind != 'f' else r.dtype
        return r
    if isinstance(node, ast.UnaryOp):
        a = ne_eval(node.operand, env)
        if isinstance(node.op, ast.USub):
            return -a
        if isinstance(node.op, ast.UAdd):
            return a
        if isinstance(node.op, ast.Invert):
            return sym.unop('logical_not', a) if has_sym(a) else _np.logical_not(a)
        raise Unsupported('numexpr operator')
    if isinstance(node, ast.Compare):
        if len(node.ops) != 1:
            raise Unsupported('chained comparison in numexpr')
        a, b = ne_eval(node.left, env), ne_eval(node.comparators[0], env)
        op = _NE_CMP[type(node.ops[0])]
        return sym.binop(op, a, b) if has_sym((a, b)) else getattr(_np, op)(a, b)
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
        f = node.func.id
        if f not in _NE_FUNCS:
            raise Unsupported('numexpr function %s' % f)
        args = [ne_eval(a, env) for a in node.args]
        kw = {k.arg: ne_eval(k.value, env) for k in node.keywords}
        if f == 'where':
            return sym.where(*args)
        if not has_sym(args):
            return getattr(_np, _NE_FUNCS[f])(*args, **kw)
        return sym.call_numpy(_NE_FUNCS[f], args, kw)
    raise Unsupported('numexpr expression %s' % ast.dump(node)[:60])


def ne_evaluate(ex, local_dict=None, global_dict=None, **kw):
    fr = sys._getframe(1)
    loc = local_dict if local_dict is not None else fr.f_locals
    glo = global_dict if global_dict is not None else fr.f_globals
    for k in kw:
        if k not in ('order', 'casting', 'truediv', 'sanitize', 'optimization'):
            raise Unsupported('numexpr option %s' % k)
    tree = ast.parse(ex.strip(), mode='eval')

    def env(name):
        v = loc[name] if name in loc else glo[name]
        return v
    names = [n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and n.id not in _NE_FUNCS]
    if not any(has_sym(env(n)) for n in names):
        import numexpr
        return numexpr.evaluate(ex, {n: unwrap(env(n)) for n in names}, {})
    r = ne_eval(tree, env)
    return r.copy() if isinstance(r, SymArray) else r


class NEModule(types.ModuleType):
    def __init__(self):
        super().__init__('numexpr')
        self.evaluate = ne_evaluate

    def set_num_threads(self, n):
        return n

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if k in ('re_evaluate', 'NumExpr', 'validate'):
            raise Unsupported('numexpr.' + k)
        import numexpr
        return getattr(numexpr, k)


# ------------------------------------------------------------------- builtins

class SymRange:
    _is_sym = True

    def __init__(self, *a):
        if len(a) != 1:
            raise Unsupported('range with a start')
        self.stop = a[0]

    def __iter__(self):
        raise Unsupported('iteration of symbolic length')

    def _sym_to_array(self, dtype=None):
        ax = sym.axis_of_size(self.stop.t)
        return SymArray(_np.array([ax.idx], dtype=object), [ax], _np.int64)


def _len(x):
    if hasattr(x, 'sym_len'):
        return x.sym_len()
    return builtins.len(x)


def _range(*a):
    return SymRange(*a) if has_sym(a) else builtins.range(*a)


def _isinstance(obj, cls):
    if isinstance(cls, tuple):
        return any(_isinstance(obj, c) for c in cls)
    if isinstance(obj, (SymArray,)):
        if cls is bool:
            return False
        if cls in (float, int) and obj.ndim == 0:
            return False
    if isinstance(obj, SymInt) and cls is int:
        return True
    if isinstance(obj, SymBool) and cls is bool:
        return True
    return builtins.isinstance(obj, cls)


def _int(x=0, *a):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymArray):
        if x.ndim == 0 or x.data.size == 1:
            return sym.astype(x.reshape(()) if x.ndim else x, 'i8')
    if isinstance(x, SymBool):
        return SymInt(sym.num(x.t))
    return int(x, *a) if a else int(x)


def _float(x=0.):
    if isinstance(x, SymArray) and x.ndim == 0:
        return sym.astype(x, 'f8')
    if isinstance(x, SymInt):
        return asarr(x)
    if hasattr(x, '_sym_float'):
        return x._sym_float()
    return float(x)


def _abs(x):
    return x.__abs__() if hasattr(x, '__abs__') else builtins.abs(x)


def _minmax(name, f):
    def g(*a, **kw):
        if has_sym(a):
            if kw or len(a) < 2:
                raise Unsupported(name)
            r = a[0]
            for v in a[1:]:
                r = sym.binop('minimum' if name == 'min' else 'maximum', r, v)
            return r
        return f(*a, **kw)
    return g


def _sum(x, start=0):
    r = start
    for v in x:
        r = r + v
    return r


class _BuiltinType:
    """int/float as both type and cast"""

    def __init__(self, real, f):
        self.real, self.f = real, f
        self._np_real = real

    def __call__(self, *a):
        return self.f(*a)

    def __instancecheck__(self, o):
        return _isinstance(o, self.real)

    def __eq__(self, o):
        return o is self or o is self.real

    def __hash__(self):
        return hash(self.real)


INT, FLOAT = _BuiltinType(int, _int), _BuiltinType(float, _float)


class _Logger:
    def __getattr__(self, k):
        return lambda *a, **kw: self


class World:
    """a fresh symbolic universe in which the modules of sunwhere are loaded"""

    def __init__(self, pandas=None, xarray=None, stubs=None, src=None, ext=None):
        self.src = src or SRC
        self.mods = {}
        self.pandas, self.xarray = pandas, xarray
        self.ext = ext or {}            # stand-ins for packages outside sunwhere
        self.stubs = stubs or {}        # module name -> module stand-in (contract)
        self.sources = {}
        b = dict(vars(builtins))
        b.update({'__import__': self._import, 'len': _len, 'range': _range, 'isinstance': _isinstance,
                  'int': INT, 'float': FLOAT, 'abs': _abs, 'min': _minmax('min', min), 'max': _minmax('max', max),
                  'sum': _sum})
        b.update((ext or {}).get('builtins', {}))
        self.builtins = b

    def find(self, name):
        p = os.path.join(self.src, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        return p + '.py', False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.stubs:
            self.mods[name] = self.stubs[name]
            return self.stubs[name]
        path, pkg = self.find(name)
        if not os.path.exists(path):
            raise ModuleNotFoundError(name)
        parent = name.rpartition('.')[0]
        if parent:
            self.load(parent) if parent != 'sunwhere' else None
        with open(path, encoding='utf-8') as f:
            text = f.read()
        self.sources[path] = text
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else parent
        m.__builtins__ = self.builtins
        self.mods[name] = m
        exec(compile(text, path, 'exec'), m.__dict__)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            base = pkg.rsplit('.', level - 1)[0] if level > 1 else pkg
            full = base + ('.' + name if name else '')
            return self._import_own(full, fromlist, name, base)
        top = name.split('.')[0]
        if name in self.ext:
            return self.ext[name]
        if top == 'numpy':
            return NP if name == 'numpy' or not fromlist else getattr(NP, name.split('.')[1])
        if top == 'numexpr':
            return NEModule()
        if top == 'pandas':
            if self.pandas is None:
                raise Unsupported('pandas')
            return self.pandas
        if top == 'xarray':
            if self.xarray is None:
                raise Unsupported('xarray')
            return self.xarray
        if top == 'loguru':
            m = types.ModuleType('loguru')
            m.logger = _Logger()
            return m
        if top == 'importlib':
            m = types.ModuleType('importlib')
            m.import_module = self.import_module
            m.metadata = builtins.__import__('importlib.metadata').metadata
            return m
        if top == 'sunwhere':
            m = self._import_own(name, fromlist, name, '')
            return m if fromlist else self.mods['sunwhere']
        if top in ('math', 'sys', 'os', 'functools', 'itertools', 'datetime', 'warnings', 'typing', 'operator',
                   'collections', 'contextlib', 'dataclasses', 'abc', '__future__', 'locale', 're', 'enum',
                   'numbers', 'copy', 'inspect', 'logging', 'types', 'threading', 'time', 'tabulate', 'click',
                   'fractions', 'decimal', 'zoneinfo', 'pytz', 'dateutil', 'calendar', 'pathlib'):
            return builtins.__import__(name, globals, locals, fromlist, 0)
        raise Unsupported('import of %s' % name)

    def import_module(self, name, package=None):
        if name.startswith('.'):
            return self.load((package or '') + name)
        return self._import(name, None, None, ('x',), 0)

    def _import_own(self, full, fromlist, name, base):
        m = self.load(full) if full != 'sunwhere' else self._pkg()
        for f in fromlist or ():
            if not hasattr(m, f):
                try:
                    setattr(m, f, self.load(full + '.' + f))
                except ModuleNotFoundError:
                    pass
        if not fromlist and base and name:
            return self.load(base) if base != 'sunwhere' else self._pkg()
        return m

    def _pkg(self):
        if 'sunwhere' not in self.mods:
            self.load('sunwhere')
        return self.mods['sunwhere']


# ------------------------------------------------------------ symbolic arguments

def new_axis(name, size):
    ax = sym.Axis(tm.sym(size), name)
    tm.declare_int(size)
    sym.register_axis(ax)
    return ax


def new_array(name, ax, dtype, frozen=True, maybe_nan=False):
    t = tm.mk('sel', (ax.idx,), name)
    if maybe_nan:
        sym.MAYBE_NAN.add(name)
    if _np.dtype(dtype).kind in 'iuMm':
        tm.declare_int(name)
    return SymArray(_np.array([t], dtype=object), [ax], dtype, sym.Root(name, frozen))
