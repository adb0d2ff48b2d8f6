"""Contracts assumed for the parts of pandas and xarray that sunwhere's API layer
uses, over symbolic arrays of any size.

A DatetimeIndex/Timestamp is an array/scalar of UTC instants (naive ones: of
wall-clock instants) and a time zone; a time zone is an arbitrary function from
instants to UTC offsets.  A DataArray is an array with named dimensions,
coordinates, name and attributes; operations align by dimension name."""
import datetime as _dt
import types
import numpy as _np
from . import terms as tm
from . import sym, loader
from .sym import SymArray, SymInt, Unsupported, asarr, ctx

UTC = _dt.timezone.utc


class Name(str):
    """the (arbitrary) name of a time zone"""


class SymTZ:
    """an arbitrary time zone; pytz-like ones have an attribute `zone`"""

    def __init__(self, label, zone=None):
        self.label = label
        self._zone = zone
        self._str = Name('⟨str of tz %s⟩' % label)
        tm.declare_int('off_' + label)

    def __getattr__(self, k):
        if k == 'zone' and self.__dict__.get('_zone', 0) != 0 and self._zone is not False:
            return self._zone
        raise AttributeError(k)

    def __str__(self):
        return self._str

    def off(self, t):
        """UTC offset (ns) at the instant t (ns)"""
        return tm.mk('uf', (t,), 'off_' + self.label)


NAMED = {}


def as_tz(tz):
    if tz is None or isinstance(tz, SymTZ):
        return tz
    if isinstance(tz, Name):
        if str(tz) not in NAMED:
            NAMED[str(tz)] = SymTZ('n%d' % len(NAMED), tz)
        return NAMED[str(tz)]
    if isinstance(tz, str) and tz.upper() == 'UTC' or tz is UTC or str(tz) == 'UTC':
        return UTC
    raise Unsupported('time zone %r' % (tz,))


def off_ns(tz, t):
    return tm.ZERO if tz is UTC else tz.off(t)


class Times:
    """DatetimeIndex (1-dim) or Timestamp (0-dim): instants in UTC, or naive wall-clock instants"""
    _is_sym = True

    def __init__(self, arr, tz=None):
        if arr.dtype.kind != 'M':
            raise Unsupported('times of %s' % arr.dtype)
        self._a, self.tz = arr, tz

    tzinfo = property(lambda s: s.tz)
    ndim = property(lambda s: s._a.ndim)
    shape = property(lambda s: s._a.shape)
    size = property(lambda s: s._a.size)
    dtype = property(lambda s: s._a.dtype)
    unit = property(lambda s: _np.datetime_data(s._a.dtype)[0])
    empty = property(lambda s: s.size == 0)

    def sym_len(self):
        return self._a.sym_len()

    def _wall(self):
        if self.tz is None or self.tz is UTC:
            return self._a.copy()
        a = sym.astype(self._a, 'M8[ns]')
        loc = 'loc_' + self.tz.label
        return sym.emap(lambda t: t.args[0] if t.op == 'uf' and t.val == loc else tm.add(t, off_ns(self.tz, t)), a, a.dtype)

    def tz_localize(self, tz, ambiguous='raise', nonexistent='raise'):
        tz = as_tz(tz)
        if tz is None:
            return Times(self._wall())
        if self.tz is not None:
            raise TypeError('Already tz-aware, use tz_convert to convert.')
        if tz is not UTC:
            # ambiguous and nonexistent wall-clock times raise: not modelled as a path; a contract for those that do not
            if ambiguous != 'raise' or nonexistent != 'raise' or self.ndim and not self.size == 1:
                raise Unsupported('localizing wall-clock times (ambiguous or nonexistent in DST changes)')
            loc = 'loc_' + tz.label
            tm.declare_int(loc)
            back = lambda t: next((x for x in t.args if t.op == 'add' and t is tm.add(x, tz.off(x))), None)   # noqa: E731
            a = sym.astype(self._a, 'M8[ns]')
            return Times(sym.emap(lambda t: back(t) or tm.mk('uf', (t,), loc), a, a.dtype), tz)
        return Times(self._a.copy(), UTC)

    def tz_convert(self, tz):
        if self.tz is None:
            raise TypeError('Cannot convert tz-naive timestamps, use tz_localize to localize')
        return Times(self._a.copy(), as_tz(tz))

    def _sym_to_array(self, dtype=None):
        if self.tz is not None and dtype is None:
            raise Unsupported('array of aware timestamps')
        return self._a.copy()          # aware: UTC instants

    def to_numpy(self, dtype=None, **kw):
        a = self._sym_to_array(dtype)
        return a if dtype is None else sym.astype(a, dtype)

    values = property(lambda s: s._a.copy())
    asi8 = property(lambda s: sym.astype(s._a, 'i8'))

    def view(self, d):
        return sym.astype(self._a, d)

    def astype(self, d):
        return Times(sym.astype(self._a, d), self.tz)

    def as_unit(self, u, **kw):
        return Times(sym.astype(self._a, 'M8[%s]' % u), self.tz)

    def copy(self, deep=True):
        return Times(self._a.copy(), self.tz)

    def isna(self):
        return sym.unop('isnat', self._a)

    isnull = isna

    def notna(self):
        return sym.unop('logical_not', self.isna())

    def __sub__(self, o):
        if isinstance(o, Times):
            if (self.tz is None) != (o.tz is None):
                raise TypeError('Cannot subtract tz-naive and tz-aware datetime-like objects.')
            return TDelta(sym.binop('subtract', self._a, o._a))
        raise Unsupported('subtraction from times')

    def strftime(self, fmt):
        return mark(self._wall(), fmt, tz=self.tz)

    def __format__(self, spec):
        return mark(self._wall(), spec, tz=self.tz)

    def __getitem__(self, key):
        return Times(self._a[key], self.tz)

    hasnans = property(lambda s: sym.np_all('any', sym.unop('isnat', s._a)))

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if k in ('is_monotonic_increasing', 'is_monotonic_decreasing', 'is_unique', 'has_duplicates') and self.ndim == 1 \
                and self._a.axes[0] is not None:
            # of which nothing is known but that they depend on the instants alone
            neg, k = k == 'has_duplicates', 'is_unique' if k == 'has_duplicates' else k
            b = tm.mk('bsym', (), '%s of %d' % (k, tm.subst(self._a.lane(), {self._a.axes[0].idx: tm.sym('μ')}).id))
            return sym.mkbool(tm.not_(b) if neg else b)
        if k in ('is_unique', 'has_duplicates') and self.ndim == 1 and self.size == 1:
            return k == 'is_unique'
        raise Unsupported('times.%s' % k)

    def __repr__(self):
        return 'Times(%r, %r)' % (self._a, self.tz)

    def __bool__(self):
        raise Unsupported('truth value of times')

    def __eq__(self, o):
        raise Unsupported('comparison of times')
    __hash__ = object.__hash__


class TDelta:
    _is_sym = True

    def __init__(self, arr):
        self._a = arr

    def _sym_to_array(self, dtype=None):
        return self._a

    def to_numpy(self, **kw):
        return self._a.copy()

    values = property(lambda s: s._a.copy())

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('timedeltas.%s' % k)


MARKS, Mark = sym.MARKS, sym.Mark


def mark(a, spec, tz=None):
    """the text of a formatted symbolic value"""
    a = asarr(a)
    if a.data.size != 1 or any(ax is not None for ax in a.axes):
        raise Unsupported('format of an array')
    return sym.mark(a.lane(), spec, tz, a.dtype.kind)


class Text(str):
    """text that denotes an instant: naive (tz None) or with a UTC offset"""
    def __new__(cls, times):
        r = str.__new__(cls, '⟨time⟩')
        r.times = times
        return r


class DateList:
    """a list of datetimes, all naive or all of one time zone"""
    __class__ = property(lambda self: list)
    __hash__ = None
    _is_sym = True

    def __init__(self, times):
        self.times = times

    def _sym_to_array(self, dtype=None):
        if dtype is None or self.times.tz is not None:
            raise Unsupported('array of datetime objects')
        return sym.astype(self.times._a, dtype)

    def _no(self, *a, **kw):
        raise Unsupported('use of a list of datetimes other than as times')
    __len__ = __iter__ = __getitem__ = __eq__ = __add__ = __mul__ = __bool__ = __contains__ = __setitem__ = append = _no


def to_datetime(arg, utc=False, errors='raise', **kw):
    if kw or errors != 'raise':
        raise Unsupported('options of to_datetime')
    if isinstance(arg, Times):
        r = Times(arg._a.copy(), arg.tz)
    elif isinstance(arg, SymArray):
        if arg.ndim > 1:
            raise TypeError('arg must be a string, datetime, list, tuple, 1-d array, or Series')
        r = Times(arg.copy())
    elif type(arg) in (Text, DateList):
        r = Times(arg.times._a.copy(), arg.times.tz)
    else:
        raise Unsupported('to_datetime of %s' % type(arg).__name__)
    if utc:
        r = r.tz_localize('UTC') if r.tz is None else r.tz_convert('UTC')
    return r


def isna(x):
    if isinstance(x, Times):
        r = x.isna()
    elif isinstance(x, DA):
        return x.isnull()
    else:
        r = sym.unop('isnan', asarr(x))
    return sym.mkbool(r.data[()]) if r.ndim == 0 else r


class _IdxMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, Times) and (o.ndim == 1) == (cls is DatetimeIndex)


class DatetimeIndex(metaclass=_IdxMeta):
    def __new__(cls, data, tz=None, **kw):
        if kw:
            raise Unsupported('DatetimeIndex options')
        r = to_datetime(data)
        if r.ndim == 0:
            raise TypeError('DatetimeIndex(...) must be called with a collection')
        return r if tz is None else r.tz_localize(tz) if r.tz is None else r.tz_convert(tz)


class Timestamp(metaclass=_IdxMeta):
    def __new__(cls, data, tz=None, **kw):
        if kw:
            raise Unsupported('Timestamp options')
        if isinstance(data, SymArray) and data.dtype.kind in 'if':
            data = SymArray(data.data, data.axes, 'M8[ns]')
        r = to_datetime(data)
        return r if tz is None else r.tz_localize(tz) if r.tz is None else r.tz_convert(tz)


NOW = tm.sym('NOW')
tm.declare_int('NOW')


def _now(tz=None):
    if tz is None:
        raise Unsupported('the local clock')
    return Times(SymArray(_np.array(NOW, dtype=object), [], 'M8[ns]'), as_tz(tz))


Timestamp.now = staticmethod(_now)


class Series:
    _is_sym = True

    def __init__(self, data=None, **kw):
        if not isinstance(data, dict) or kw:
            raise Unsupported('Series')
        self.d = dict(data)

    def to_frame(self, name=None):
        return Frame(self.d, name)


class Frame:
    _is_sym = True

    def __init__(self, d, name):
        self.d, self.name = d, name


def pandas_model():
    m = types.ModuleType('pandas')
    m.to_datetime, m.DatetimeIndex, m.Timestamp = to_datetime, DatetimeIndex, Timestamp
    m.isna = m.isnull = isna
    m.notna = m.notnull = lambda x: ~isna(x) if not isinstance(isna(x), bool) else not isna(x)
    m.Series, m.NaT, m.Index = Series, _np.datetime64('NaT', 'ns'), Times
    m.__getattr__ = _missing('pandas')
    return m


def _missing(mod):
    def f(k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('%s.%s' % (mod, k))
    return f


# ------------------------------------------------------------------- xarray

class DA:
    """DataArray"""
    _is_sym = True
    __array_priority__ = 2000
    __hash__ = None

    def __init__(self, data=None, coords=None, dims=None, name=None, attrs=None):
        if isinstance(data, DA):
            d, dims = data._d, data.dims if dims is None else dims
            coords = data._c if coords is None else coords
        else:
            d = data._sym_to_array() if hasattr(data, '_sym_to_array') else asarr(data)
        if isinstance(dims, str):
            dims = (dims,)
        if dims is None:
            if isinstance(coords, dict) and all(not isinstance(v, tuple) for v in coords.values()) and \
                    len(coords) == d.ndim:
                dims = tuple(coords)
            elif d.ndim == 0:
                dims = ()
            else:
                raise Unsupported('DataArray without dims')
        dims = tuple(dims)
        if len(dims) != d.ndim:
            raise ValueError('different number of dimensions on data and dims: %d vs %d' % (d.ndim, len(dims)))
        if len(set(dims)) != len(dims):
            raise Unsupported('duplicate dims')
        self._d, self.dims = d, dims
        self._c = {}
        for k, v in (dict(coords).items() if coords is not None else ()):
            self._set_coord(k, v)
        self.name = name
        self.attrs = dict(attrs or {})

    def _set_coord(self, k, v):
        if isinstance(v, tuple) and len(v) >= 2 and isinstance(v[0], (str, tuple, list)):
            cd, a = v[0], v[1]
            cd = (cd,) if isinstance(cd, str) else tuple(cd)
            a = a._d if isinstance(a, DA) else asarr(a)
        elif isinstance(v, DA):
            cd, a = v.dims, v._d
        else:
            a = v._sym_to_array() if hasattr(v, '_sym_to_array') else asarr(v)
            cd = (k,) if a.ndim == 1 else ()
            if a.ndim > 1:
                raise ValueError('coordinate %s must be 1-dim' % k)
        if len(cd) != a.ndim:
            raise ValueError('coordinate %s has %d dims' % (k, a.ndim))
        for dim, n in zip(cd, a.shape):
            if dim not in self.dims:
                raise ValueError('coordinate %s has dimension %s, not one of the array' % (k, dim))
            if not (n == self.sizes[dim]):
                raise ValueError('conflicting sizes for dimension %r' % dim)
        self._c[k] = (cd, a)

    # -------------------------------------------------------------- views
    shape = property(lambda s: s._d.shape)
    ndim = property(lambda s: s._d.ndim)
    size = property(lambda s: s._d.size)
    dtype = property(lambda s: s._d.dtype)
    sizes = property(lambda s: dict(zip(s.dims, s._d.shape)))
    values = property(lambda s: s._d)
    data = property(lambda s: s._d)
    coords = property(lambda s: _Coords(s))
    indexes = property(lambda s: s._missing_attr('indexes'))

    def _missing_attr(self, k):
        raise Unsupported('DataArray.%s' % k)

    def to_numpy(self):
        return self._d

    def _sym_to_array(self, dtype=None):
        return self._d

    def sym_len(self):
        return self._d.sym_len()

    def item(self, *a):
        r = self._d.item(*a)
        if r.dtype.kind in 'mM':
            return SymArray(r.data, [], 'i8')
        return r

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        c = self.__dict__.get('_c', {})
        if k in c:
            return self._coord(k)
        raise Unsupported('DataArray.%s' % k)

    def _coord(self, k):
        cd, a = self._c[k]
        return DA(a, {n: v for n, v in self._c.items() if set(v[0]) <= set(cd)}, cd, k)

    def __getitem__(self, k):
        if isinstance(k, str):
            if k in self._c:
                return self._coord(k)
            raise KeyError(k)
        if isinstance(k, dict):
            return self.isel(k)
        raise Unsupported('positional indexing of a DataArray')

    def _new(self, d, dims=None, c=None, name=0, attrs=None):
        r = DA.__new__(DA)
        r.__dict__.update(_d=d, dims=self.dims if dims is None else tuple(dims), _c=dict(self._c if c is None else c),
                          name=self.name if name == 0 else name, attrs=dict(self.attrs if attrs is None else attrs))
        return r

    def rename(self, name=None, **kw):
        if kw or isinstance(name, dict):
            raise Unsupported('rename of dimensions')
        return self._new(self._d, name=name)

    def assign_attrs(self, *a, **kw):
        at = dict(self.attrs)
        for x in a:
            at.update(x)
        at.update(kw)
        return self._new(self._d, attrs=at)

    def assign_coords(self, coords=None, **kw):
        r = self._new(self._d)
        for k, v in {**(coords or {}), **kw}.items():
            r._set_coord(k, v)
        return r

    def drop_vars(self, names, **kw):
        names = [names] if isinstance(names, str) else list(names)
        return self._new(self._d, c={k: v for k, v in self._c.items() if k not in names})

    def copy(self, deep=True, data=None):
        if data is None:
            return self._new(self._d.copy())
        d = data._sym_to_array() if hasattr(data, '_sym_to_array') else asarr(data)
        if d.ndim != self._d.ndim or not (d.shape == self._d.shape):
            raise ValueError('Data shape must match shape of object')
        return self._new(d)

    def astype(self, dtype, **kw):
        return self._new(sym.astype(self._d, dtype))

    def transpose(self, *dims, **kw):
        if not dims:
            dims = self.dims[::-1]
        if set(dims) != set(self.dims):
            raise Unsupported('transpose')
        return self._new(self._d.transpose(tuple(self.dims.index(x) for x in dims)), dims=dims)

    T = property(lambda s: s.transpose())

    def isel(self, indexers=None, drop=False, **kw):
        ix = {**(indexers or {}), **kw}
        if any(not isinstance(v, (int, _np.integer)) for v in ix.values()) or any(k not in self.dims for k in ix):
            raise Unsupported('isel')
        d = self._d[tuple(ix.get(k, slice(None)) for k in self.dims)]
        c = {}
        for k, (cd, a) in self._c.items():
            a2 = a[tuple(ix.get(x, slice(None)) for x in cd)] if cd else a
            c[k] = (tuple(x for x in cd if x not in ix), a2)
        return self._new(d, dims=[k for k in self.dims if k not in ix], c=c)

    def squeeze(self, dim=None, **kw):
        raise Unsupported('squeeze')

    def where(self, cond, other=None, drop=False):
        if drop:
            raise Unsupported('where(drop)')
        if other is None:
            other = _np.datetime64('NaT', 'ns') if self.dtype.kind == 'M' else \
                _np.timedelta64('NaT', 'ns') if self.dtype.kind == 'm' else _np.nan
        return apply_(lambda x, c, o: sym.where(c, x, o), [self, cond, other], keep=self)

    def clip(self, min=None, max=None, keep_attrs=None):
        return self._new(sym.clip(self._d, min, max))

    def fillna(self, v):
        return apply_(lambda x, o: sym.where(sym.unop('isnan', x), o, x), [self, v], keep=self)

    def isnull(self, **kw):
        return self._new(sym.unop('isnan', self._d), attrs={})

    def notnull(self, **kw):
        return self._new(sym.unop('logical_not', sym.unop('isnan', self._d)), attrs={})

    def round(self, decimals=0, **kw):
        return self._new(sym.round_(self._d, decimals))

    def pipe(self, f, *a, **kw):
        return f(self, *a, **kw)

    def load(self, **kw):
        return self

    compute = load

    def broadcast_like(self, other, **kw):
        return apply_(lambda x, o: sym.elementwise(lambda u, v: u, [x, o], x.dtype), [self, other], keep=self)

    def expand_dims(self, *a, **kw):
        raise Unsupported('expand_dims')

    def __format__(self, spec):
        return mark(self._d, spec)

    def __float__(self):
        raise Unsupported('float() of a DataArray')

    def __bool__(self):
        return bool(self._d)

    def _sym_float(self):
        return sym.astype(self._d, 'f8') if self._d.ndim == 0 else self.__float__()

    def _reduce(self, op, dim=None, axis=None, skipna=None, keep_attrs=None, **kw):
        if kw or keep_attrs or axis is not None and dim is not None:
            raise Unsupported('options of DataArray.%s' % op)
        ds = list(self.dims) if dim is None or dim is Ellipsis else [dim] if isinstance(dim, str) else list(dim)
        if axis is not None:
            ds = [self.dims[k] for k in (axis if isinstance(axis, tuple) else (axis,))]
        if any(d not in self.dims for d in ds):
            raise ValueError('not dimensions: %s' % ds)
        if op in ('min', 'max', 'sum', 'mean', 'std', 'var', 'median') and skipna is not False and self.dtype.kind in 'fmM':
            op = {'var': 'nanstd'}.get(op, 'nan' + op)
        r = sym.reducer(op)(self._d, tuple(self.dims.index(d) for d in ds)) if ds else self._d
        return self._new(asarr(r), [d for d in self.dims if d not in ds],
                         {k: v for k, v in self._c.items() if not set(v[0]) & set(ds)}, attrs={})

    def any(self, *a, **kw):
        return self._reduce('any', *a, **kw)

    def all(self, *a, **kw):
        return self._reduce('all', *a, **kw)

    def sum(self, *a, **kw):
        return self._reduce('sum', *a, **kw)

    def mean(self, *a, **kw):
        return self._reduce('mean', *a, **kw)

    def std(self, *a, **kw):
        return self._reduce('std', *a, **kw)

    def median(self, *a, **kw):
        return self._reduce('median', *a, **kw)

    def min(self, *a, **kw):
        return self._reduce('min', *a, **kw)

    def max(self, *a, **kw):
        return self._reduce('max', *a, **kw)

    def __iter__(self):
        raise Unsupported('iteration of a DataArray')

    def __setitem__(self, k, v):
        if isinstance(k, str):
            raise Unsupported('coordinate assignment')
        if isinstance(k, DA) or isinstance(v, DA):
            raise Unsupported('DataArray assignment')
        self._d[k] = v

    def __repr__(self):
        return 'DA(%s, %s, %s)' % (self.name, self.dims, self._d)

    # ---------------------------------------------------------- operators
    def _b(name, swap=False):
        def g(self, o):
            f = (lambda a, b: sym.binop(name, b, a)) if swap else (lambda a, b: sym.binop(name, a, b))
            return apply_(f, [self, o], 'drop_conflicts')
        return g

    for _n, _u in (('add', 'add'), ('sub', 'subtract'), ('mul', 'multiply'), ('truediv', 'divide'),
                   ('floordiv', 'floor_divide'), ('mod', 'remainder'), ('pow', 'power'),
                   ('and', 'bitwise_and'), ('or', 'bitwise_or'), ('xor', 'bitwise_xor')):
        locals()['__%s__' % _n] = _b(_u)
        locals()['__r%s__' % _n] = _b(_u, True)
    for _n, _u in (('lt', 'less'), ('le', 'less_equal'), ('gt', 'greater'), ('ge', 'greater_equal'),
                   ('eq', 'equal'), ('ne', 'not_equal')):
        locals()['__%s__' % _n] = _b(_u)

    def _i(name):
        def g(self, o):
            r = apply_(lambda a, b: sym.binop(name, a, b), [self, o])
            if r.dims != self.dims:
                raise ValueError('in-place operation changes dimensions')
            self._d._mutate('in-place operation')
            self._d.data = r._d.data
            return self
        return g

    for _n, _u in (('add', 'add'), ('sub', 'subtract'), ('mul', 'multiply'), ('truediv', 'divide')):
        locals()['__i%s__' % _n] = _i(_u)

    def __neg__(self):
        return self._new(sym.unop('negative', self._d))

    def __pos__(self):
        return self._new(self._d)

    def __invert__(self):
        return self._new(sym.unop('logical_not', self._d))

    def __abs__(self):
        return self._new(sym.unop('absolute', self._d))

    def _np_call(self, name, args, kw):
        n = name.split('.')[-1]
        if n in UFUNCS and not kw:
            return apply_(lambda *xs: sym.call_numpy(n, xs, {}), args, [x for x in args if isinstance(x, DA)][0])
        if n in ('array', 'asarray', 'size', 'ndim', 'shape', 'asanyarray'):
            return sym.call_numpy(n, [x._d if isinstance(x, DA) else x for x in args], kw)
        if n in ('min', 'max', 'amin', 'amax') and len(args) == 1 and isinstance(args[0], DA):
            return args[0]._reduce(n[-3:], **kw)
        if n == 'where' and len(args) == 3 or n in ('all', 'any', 'squeeze', 'ravel'):
            return sym.call_numpy(n, [x._d if isinstance(x, DA) else x for x in args], kw)
        if n == 'clip' and args and isinstance(args[0], DA) and not kw:
            return args[0].clip(*args[1:])
        raise Unsupported('numpy.%s of a DataArray' % name)


sym._CONTAINERS.append(DA)
UFUNCS = set(sym._ARITH) | set(sym._CMP) | set(sym._LOGIC) | set(sym._UN) | {
    'absolute', 'abs', 'fabs', 'logical_not', 'invert', 'isnan', 'isnat', 'isfinite', 'isinf'}


class _Coords:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, k):
        if k not in self.a._c:
            raise KeyError(k)
        return self.a._coord(k)

    def __contains__(self, k):
        return k in self.a._c

    def __iter__(self):
        return iter(self.a._c)

    def keys(self):
        return self.a._c.keys()

    def items(self):
        return [(k, self[k]) for k in self.a._c]

    def get(self, k, d=None):
        return self[k] if k in self else d


def lane_over(a, dims, canon):
    """the element term of an array with its axes renamed"""
    if a.data.size != 1:
        raise Unsupported('concrete axis')
    m = {ax.idx: canon[d] for ax, d in zip(a.axes, dims) if ax is not None and ax.idx is not canon[d]}
    t = a.data.reshape(-1)[0]
    return tm.subst(t, m) if m else t


def _canon(dims):
    return {d: tm.sym('κ' + d) for d in dims}


def same_coord(u, v):
    """do two coordinates hold the same labels?"""
    (du, a), (dv, b) = u, v
    if du != dv:
        return False
    if a is b:
        return True
    for x, y in zip(a.shape, b.shape):
        if not (x == y):
            return False
    if a.data.size != 1 or b.data.size != 1:
        return False
    c = _canon(du)
    ta, tb = lane_over(a, du, c), lane_over(b, dv, c)
    if a.dtype.kind == 'M' and b.dtype.kind == 'M' and a.dtype != b.dtype:
        ta, tb = [sym.convert_unit(t, sym.unit_of(x.dtype), 'ns') for t, x in ((ta, a), (tb, b))]
    return ta is tb


def apply_(f, args, keep=None):
    """elementwise operation on DataArrays, aligned by dimension name"""
    das = [x for x in args if isinstance(x, DA)]
    dims = []
    for x in das:
        dims += [d for d in x.dims if d not in dims]
    index = {}
    for x in das:
        for d in x.dims:
            if d in x._c and x._c[d][0] == (d,):
                if d in index and not same_coord(index[d], x._c[d]):
                    raise Unsupported('alignment of different coordinates along %s' % d)
                index.setdefault(d, x._c[d])
    xs = []
    for x in args:
        if isinstance(x, DA):
            order = [d for d in dims if d in x.dims]
            a = x._d.transpose(tuple(x.dims.index(d) for d in order)) if order != list(x.dims) else x._d
            key = tuple(slice(None) if d in order else None for d in dims)
            a = sym.getitem(a, key) if len(order) != len(dims) else a
            xs.append(a)
        else:
            if isinstance(x, (SymArray, _np.ndarray)) and getattr(x, 'ndim', 0) > 0:
                if x.ndim != len(dims):
                    raise Unsupported('operation of a DataArray and an array')
            xs.append(x._sym_to_array() if hasattr(x, '_sym_to_array') else x)
    # a dimension that several arrays have must have one size
    for d in dims:
        sizes = [x.sizes[d] for x in das if d in x.dims]
        for s in sizes[1:]:
            if not (s == sizes[0]):
                raise ValueError('conflicting sizes for dimension %r' % d)
    r = f(*xs)
    if isinstance(r, tuple) or not isinstance(r, SymArray):
        r = asarr(r)
    if r.ndim != len(dims):
        raise Unsupported('operation changes dimensions')
    coords, dropped = {}, set()
    for x in das:
        for k, v in x._c.items():
            if k in dropped:
                continue
            if k in coords and k not in dims and not same_coord(coords[k], v):
                del coords[k]
                dropped.add(k)
            else:
                coords.setdefault(k, v)
    names = {x.name for x in das}
    out = DA.__new__(DA)
    attrs = {}
    if isinstance(keep, str):           # binary operators
        bad = set()
        for x in das:
            for k, v in x.attrs.items():
                if k in bad:
                    continue
                if k in attrs and attrs[k] != v:
                    del attrs[k]
                    bad.add(k)
                else:
                    attrs[k] = v
        keep = None
    elif keep is not None:              # universal functions: those of the first
        attrs = dict(keep.attrs)
    out.__dict__.update(_d=r, dims=tuple(dims), _c=coords, name=names.pop() if len(names) == 1 else None, attrs=attrs)
    if keep is not None:
        out.name = keep.name
    return out


def xr_where(cond, x, y, keep_attrs=None):
    return apply_(lambda c, u, v: sym.where(c, u, v), [cond, x, y],
                  [v for v in (x, y, cond) if isinstance(v, DA)][0])


def xarray_model():
    m = types.ModuleType('xarray')
    m.DataArray, m.where = DA, xr_where
    m.__getattr__ = _missing('xarray')
    return m
