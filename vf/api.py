"""The contracts' view of the API layer: what sites, regular_grid, transect, the
derived quantities, the time conversions and the CLI compute, as terms.

The real source of usecases.py, _core.py, _base.py, utils/ and _cli/ is run
symbolically for arrays of any size; calls of sunpos are checked against its
contract (each element is a function of its own instant, latitude and longitude;
NaN-strict; requires valid locations, whole non-missing seconds and consistent
sizes), not its body, which is proved separately (C01...C07)."""
import ast
import inspect
import os
import types
import numpy as np
from pyded import terms as tm, sym, loader, frames, z3back, extract

SOLVER = extract.SOLVER
LOC = ('zenith', 'azimuth')
ALL = ('T', 'LAT', 'LON')
OUT = extract.OUT
MODULES = extract.MODULES

# flat symbols of the obligations
T_ = tm.sym('Tns')          # the instant: UTC ns (or the input unit)
LAT_, LON_ = extract.lat_, extract.lon_
OFF_ = tm.sym('off')        # UTC offset of the input time zone at T: ns
tm.declare_int('Tns')
tm.declare_int('off')
J_ = tm.sym('κj')           # position along the sites
tm.declare_int('κj')
V = {v: tm.sym(v) for v in OUT}          # sunpos's outputs at (T, lat, lon), refraction as asked for
V0 = {v: tm.sym(v + '0') for v in LOC}
SEC = tm.fn('floor', tm.mul(tm.div(1, 10**9), T_))
MISS = {'T': tm.mk('bsym', (), 'missing instant'), 'LAT': tm.mk('bsym', (), 'missing latitude'),
        'LON': tm.mk('bsym', (), 'missing longitude')}

DIMS = {'sites': ('time', 'location'), 'regular_grid': ('time', 'latitude', 'longitude'), 'transect': ('time',)}
ND = {'sites': 1, 'regular_grid': 2, 'transect': 0}
KINDS = ('naive array', 'naive index', 'aware index (pytz)', 'aware index (zoneinfo)', 'UTC index', 'naive scalar',
         'aware scalar')


def signature(mod):
    with open(os.path.join(loader.SRC, 'sunwhere', 'libspa', mod + '.py'), encoding='utf-8') as f:
        tree = ast.parse(f.read())
    for n in tree.body:
        if isinstance(n, ast.FunctionDef) and n.name == 'sunpos':
            a = n.args
            if a.vararg or a.kwarg or a.kwonlyargs or len(a.args) < 5:
                raise sym.Unsupported('signature of sunpos')
            d = [inspect.Parameter.empty] * (len(a.args) - len(a.defaults)) + [ast.literal_eval(x) for x in a.defaults]
            return inspect.Signature([inspect.Parameter(x.arg, inspect.Parameter.POSITIONAL_OR_KEYWORD, default=v)
                                      for x, v in zip(a.args, d)])
    raise sym.Unsupported('no sunpos in %s' % mod)


def idx_hyps(*arrs):
    """what holds of the generic positions of arrays"""
    h = []
    for a in arrs:
        for ax in a.axes:
            while ax is not None:
                h += [tm.le(0, ax.idx), tm.lt(ax.idx, ax.size), tm.le(0, ax.size)]
                if ax.parent is None:
                    break
                e = tm.mk('enum', (ax.idx,), ax.maskkey)
                h += [tm.subst(ax.body, {tm.sym('μ'): e}), tm.le(0, e), tm.lt(e, ax.parent.size)]
                ax = ax.parent
    return h


def sunpos_stub(mod):
    sig = signature(mod)
    names = list(sig.parameters)

    def sunpos(*a, **kw):
        b = sig.bind(*a, **kw)
        b.apply_defaults()
        times, lon, lat, nd, ref = [b.arguments[n] for n in names[:5]]
        if len(names) > 5:
            raise sym.Unsupported('sunpos takes more arguments')
        c = sym.ctx()
        times, lon, lat = sym.asarr(times), sym.asarr(lon), sym.asarr(lat)
        ref = bool(ref)
        nd = int(nd)
        c.calls.append((mod, nd, ref))

        def req(cond, why):
            c.side.append((cond, 'requires of sunpos: ' + why))
        if (times.ndim, lon.ndim, lat.ndim) != (1, 1, 1) or times.dtype.kind != 'M' or lon.dtype.kind not in 'fiu' \
                or lat.dtype.kind not in 'fiu':
            req(tm.FALSE, '1-dim arrays of times and degrees')
            raise sym.Unsupported('sunpos called outside its contract')
        if times.dtype != np.dtype('M8[s]') or lat.dtype != np.dtype('f8') or lon.dtype != np.dtype('f8'):
            raise sym.Unsupported('sunpos called with %s, %s, %s' % (times.dtype, lon.dtype, lat.dtype))
        if nd not in (0, 1, 2):
            req(tm.FALSE, 'ndim in 0, 1, 2')
            raise sym.Unsupported('ndim')
        sz = [sym.toint(x.shape[0]) for x in (times, lat, lon)]
        if nd == 0:
            req(tm.and_(tm.eq(sz[0], sz[1]), tm.eq(sz[1], sz[2])), 'equal sizes')
        elif nd == 1:
            req(tm.eq(sz[1], sz[2]), 'equal sizes of latitude and longitude')
        h = idx_hyps(times, lat, lon)

        def all_(a, cond):
            for t in a.data.reshape(-1):
                req(tm.implies(tm.and_(*h), cond(t)), 'no missing instants' if a is times else 'valid locations')
        all_(times, lambda t: tm.not_(sym.nanof(t)))
        all_(lat, lambda t: tm.or_(sym.nanof(t), tm.and_(tm.le(-90, t), tm.le(t, 90))))
        all_(lon, lambda t: tm.or_(sym.nanof(t), tm.and_(tm.le(-180, t), tm.lt(t, 180))))
        if nd == 0:
            A = [times, lat, lon]
        elif nd == 1:
            A = [times[:, None], lat[None, :], lon[None, :]]
        else:
            A = [times[:, None, None], lat[None, :, None], lon[None, None, :]]
        r = {}
        for v in OUT:
            nm = '%s@%s@%s' % (v, mod, ref if v == 'zenith' else '-')
            if v in LOC:
                r[v] = sym.elementwise(lambda t, la, lo: tm.mk('uf', (t, la, lo), nm), A, 'f8')
            else:
                r[v] = sym.elementwise(lambda t: tm.mk('uf', (t,), nm), [times], 'f8')
        return r
    sunpos.__module__ = 'sunwhere.libspa.' + mod
    m = types.ModuleType('sunwhere.libspa.' + mod)
    m.sunpos = sunpos
    return m


_W = {}


def world(src=None, cli=False):
    k = (src, cli)
    if k not in _W:
        stubs = {'sunwhere.libspa.' + m: sunpos_stub(m) for m in MODULES.values()}
        w = loader.World(pandas=frames.pandas_model(), xarray=frames.xarray_model(), stubs=stubs, src=src)
        w.load('sunwhere')
        w.load('sunwhere.usecases')
        _W[k] = w
    return _W[k]


class Seq:
    """a Python list of symbolic length: what it is turned into an array is known"""
    __class__ = property(lambda self: list)
    __hash__ = None
    _is_sym = True

    def __init__(self, arr):
        self._arr = arr

    def _sym_to_array(self, dtype=None):
        return self._arr if dtype is None else sym.astype(self._arr, dtype)

    def _no(self, *a, **kw):
        raise sym.Unsupported('use of a list other than as an array')
    __len__ = __iter__ = __getitem__ = __eq__ = __add__ = __mul__ = __bool__ = __contains__ = __setitem__ = append = _no


WRITTEN = ('naive list', 'aware list', 'naive text scalar', 'aware text scalar')
LOCS = ('float32', 'int', 'list', 'list of int')


class Args:
    """symbolic times, latitude, longitude"""

    def __init__(self, kind='naive array', lat='array', lon='array', tz=None, unit='ns', ndim=(1, 1, 1)):
        self.kind = kind
        sym._AXIS_BY_SIZE.clear()
        self.K = self._axis('k', '#K')
        self.J = self._axis('j', '#J')
        self.I = self._axis('i', '#I')
        self.scalar_time = 'scalar' in kind
        self.frozen = []
        if self.scalar_time:
            t = sym.SymArray(np.array(tm.mk('sel', (), 'T'), dtype=object), [], 'M8[%s]' % unit, sym.Root('times', True))
        else:
            t = self._arr('T', self.K, 'M8[%s]' % unit, ndim[0])
        self.zone = None
        if kind.startswith('aware'):
            self.tz = tz or frames.SymTZ('z', frames.Name('⟨zone⟩') if 'pytz' in kind or kind == 'aware scalar' else None)
            self.zone = self.tz._zone if self.tz._zone else str(self.tz)
            self.times = frames.Times(t, self.tz)
        else:
            self.tz = frames.UTC
            self.zone = 'UTC'
            self.times = t if kind == 'naive array' else frames.Times(t, frames.UTC if kind == 'UTC index' else None)
        if 'text' in kind or 'list' in kind:
            self.times = (frames.Text if 'text' in kind else frames.DateList)(self.times)
        tm.declare_int('T')
        self.lat = self._loc('LAT', self.J, lat, ndim[1])
        self.lon = self._loc('LON', self.I, lon, ndim[2])
        self.vlat, self.vlon = [x._arr if type(x) is Seq else x for x in (self.lat, self.lon)]
        self.pre = []

    def _axis(self, n, size):
        tm.declare_int(size)
        return sym.register_axis(sym.Axis(tm.sym(size), n))

    def _arr(self, name, ax, dtype, nd):
        if nd == 1:
            return loader.new_array(name, ax, dtype, True, not (name == 'T' and self.scalar_time))
        axes = [self._axis(name.lower() + str(n), '#%s%d' % (name, n)) for n in range(nd - 1)] + [ax]
        sym.MAYBE_NAN.add(name)
        t = tm.mk('sel', tuple(a.idx for a in axes), name)
        d = np.empty((1,) * nd, dtype=object)
        d.reshape(-1)[0] = t
        return sym.SymArray(d, axes, dtype, sym.Root(name, True))

    def _loc(self, name, ax, how, nd):
        if how != 'scalar':
            r = self._arr(name, ax, {'float32': 'f4', 'int': 'i8', 'list of int': 'i8'}.get(how, 'f8'), nd)
            return Seq(r) if 'list' in how else r
        sym.MAYBE_NAN.add(name)
        return sym.SymArray(np.array(tm.mk('sel', (), name), dtype=object), [], 'f8', sym.Root(name, True))


def flat(t, canon=None, keep_missing=False, tzlabel='off_z', sec=None, tns=None):
    """over the flat symbols: T, lat, lon, off, and the outputs of sunpos at exactly (sec(T), lat, lon)"""
    sec = SEC if sec is None else sec
    tns = T_ if tns is None else tns

    def r1(u):
        if u.op == 'isnan' and u.args[0].op == 'sel':
            return MISS[u.args[0].val] if keep_missing else tm.FALSE
        return None

    def r2(u):
        if u.op == 'sel':
            ok = canon is None or u.args in canon.get(u.val, ())
            if ok:
                return {'T': T_, 'LAT': LAT_, 'LON': LON_}[u.val]
        return None

    def r3(u):
        if u.op == 'uf' and u.val == tzlabel and u.args[0] is tns:
            return OFF_
        if u.op == 'uf' and '@' in str(u.val):
            v = u.val.split('@')[0]
            if u.args == ((sec, LAT_, LON_) if v in LOC else (sec,)):
                return tm.mk('sym', (), u.val)
        return None
    return tm.rewrite(tm.rewrite(tm.rewrite(t, r1), r2), r3)


CANON = {'time': tm.sym('κtime'), 'location': tm.sym('κloc'), 'latitude': tm.sym('κlat'), 'longitude': tm.sym('κlon')}
for _s in CANON.values():
    tm.declare_int(_s.val)


def positions(uc, a):
    """where T, LAT, LON must be read for the element at the canonical positions"""
    k = () if a.scalar_time else (CANON['time'],)
    if uc == 'sites':
        j = i = CANON['location']
    elif uc == 'transect':
        j = i = CANON['time']
    else:
        j, i = CANON['latitude'], CANON['longitude']
    js, is_ = [(j,)] if a.vlat.ndim else [()], [(i,)] if a.vlon.ndim else [()]
    if uc == 'transect' and a.scalar_time:      # of size one: position 0 is the only one
        js, is_ = js + [(tm.ZERO,)], is_ + [(tm.ZERO,)]
    if uc == 'sites' and a.vlat.ndim != a.vlon.ndim:
        js, is_ = js + [(tm.ZERO,)], is_ + [(tm.ZERO,)]
    return {'T': [k], 'LAT': js, 'LON': is_}


def element(da, uc, a, keep_missing=False):
    """the term of the element of a DataArray at the canonical positions"""
    return flat(frames.lane_over(da._d, da.dims, CANON), positions(uc, a), keep_missing)


def run(f, pre=()):
    """all paths of f(); Unsupported propagates"""
    return sym.explore(f, list(pre), SOLVER)
