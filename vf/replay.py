"""Replays of the API layer's obligations against the real code.

cross    every element of real results against the extracted terms, on generated inputs: looks for a
         mismatch between the real libraries and their assumed contracts (bounded, never counted as proved)
process  obligations that failed: inputs from the verifier's counter-models, from the points where the
         extracted term differs from the specified one, and random ones, run on the real code; where its
         result is not the specified one the violation is reported with that input"""
import importlib
import inspect
import time
import traceback
import warnings
import numpy as np
from pyded import terms as tm, evalnum, sym, frames, extract
from . import api, common, hints
from .common import epoch, lit

REAL = None         # while the real code runs: values of slope, orientation, solar constant
SUP = sym.Unsupported
FULL = dict(api.DIMS, conversion=('time', 'longitude'))
NSPER = {'D': 86400 * 10**9, 'h': 3600 * 10**9, 'm': 60 * 10**9, 's': 10**9, 'ms': 10**6, 'us': 10**3, 'ns': 1}
MISSES = tuple(api.MISS[x] for x in ('T', 'LAT', 'LON'))
SLOPE, GAMMA, ISC = [tm.sym(x) for x in ('slope', 'gamma', 'isc')]


class Structure(Exception):
    pass


# ------------------------------------------------------------------ inputs

def given(x, how):
    """the values of a location as it is passed"""
    if how in ('array', 'float32'):
        return x if how == 'array' else x.astype('f4')
    if how == 'scalar':
        return float(x[0])
    x = x.astype(int) if 'int' in how else x
    return x.tolist() if 'list' in how else x


class Inputs:
    def __init__(self, c, rng, sizes=(4, 3, 5), pts=None, missing=.15, content=None, raw=False):
        import pandas as pd
        K, J, I = sizes
        if raw:
            pass
        elif c.uc == 'sites':
            J = I = 1 if 'scalar' in (c.lat, c.lon) else J
        elif c.uc == 'transect':
            K = J = I = 1 if 'scalar' in (c.lat, c.lon) or 'scalar' in c.kind else K
        J = 1 if c.lat == 'scalar' else J
        I = 1 if c.lon == 'scalar' else I
        K = 1 if 'scalar' in c.kind else K
        self.c, self.n, self._env = c, (K, J, I), {}
        u = c.unit
        if pts is None:
            P = common.points(rng, max(48, K, J, I))
            o = rng.permutation(len(P[0]))
            pts = [x[o] for x in P]
        t = np.resize(pts[0], K).astype('i8')
        per = NSPER[u]
        T = t * (10**9 // per) if per <= 10**9 else t // (per // 10**9)
        if per < 10**9:
            T = T + np.where(rng.random(K) < .5, 0, rng.integers(0, 10**9 // per, K))
        la, lo = np.resize(pts[1], J).astype(float), np.resize(pts[2], I).astype(float)
        mT, mA, mO = [rng.random(k) < missing for k in (K, J, I)]
        if content is not None:
            T, la, lo, mT, mA, mO = content(T, la, lo, mT, mA, mO)
        if 'scalar' in c.kind:
            mT[:] = False
        for w in (c.lat, c.lon):
            if 'int' in w:
                la, lo = [np.clip(np.where(x > 90, np.ceil(x), np.floor(x)) if x is la else np.where(x >= 180, np.ceil(x), np.floor(x)),
                                  -10**6, 10**6) for x in (la, lo)]
                mA, mO = mA & False, mO & False
            elif w == 'float32':
                la, lo = [x.astype('f4').astype(float) for x in (la, np.where((lo < 180) & (lo.astype('f4') >= 180), 179.99998, lo))]
        la, lo = np.where(mA, np.nan, la), np.where(mO, np.nan, lo)
        self.T, self.la, self.lo, self.mT, self.mA, self.mO = T, la, lo, mT, mA, mO
        self.zone = None
        x = T.astype('M8[%s]' % u)
        x[mT] = 'NaT'
        src = lit(x)
        if c.kind == 'naive array':
            arg = x
        else:
            arg = pd.DatetimeIndex(x)
            src = 'pd.DatetimeIndex(%s)' % src
            if c.kind == 'UTC index' or c.kind.startswith('aware'):
                arg = arg.tz_localize('UTC')
                src += ".tz_localize('UTC')"
            if c.kind.startswith('aware'):
                import pytz
                import zoneinfo
                from .mon_api import ZONES
                z = ZONES[int(rng.integers(len(ZONES)))]
                if 'zoneinfo' in c.kind or 'list' in c.kind or 'text' in c.kind:
                    self.zone = zoneinfo.ZoneInfo(z)
                    src += '.tz_convert(zoneinfo.ZoneInfo(%r))' % z
                else:
                    self.zone = pytz.timezone(z)
                    src += '.tz_convert(pytz.timezone(%r))' % z
                arg = arg.tz_convert(self.zone)
            if 'scalar' in c.kind:
                arg = arg[0]
                src += '[0]'
            if 'text' in c.kind:
                arg = str(arg)
                src = repr(arg)
                self.zone = self.zone and pd.Timestamp(arg).tz
            if 'list' in c.kind:
                arg = list(arg)
                src = 'list(%s)' % src
        self.times = arg
        self.lat, self.lon = given(la, c.lat), given(lo, c.lon)
        self.src = src
        self.vals = {SLOPE: float(np.round(rng.uniform(-20, 120), 2)), GAMMA: float(np.round(rng.uniform(-400, 400), 2)),
                     ISC: float(np.round(rng.uniform(900, 1500), 2))}

    def text(self):
        if self.c.uc == 'conversion':
            return 'import numpy as np, pandas as pd, pytz, zoneinfo\nfrom sunwhere.utils import datetime as d\n' \
                'times, lon = %s, %s\n' % (self.src, lit(self.lon))
        return ('import numpy as np, pandas as pd, sunwhere, pytz, zoneinfo\nr = sunwhere.%s(%s,\n    %s, %s,\n'
                '    algorithm=%r, engine=%r, refraction=%r)\n' % (
                    self.c.uc, self.src, lit(self.lat), lit(self.lon), self.c.cfg[0], self.c.cfg[1], self.c.ref))

    @property
    def valid(self):
        """whether the call must succeed (a model of a path alone need not be)"""
        if self.c.uc == 'conversion':
            return True
        a, o = self.la[~np.isnan(self.la)], self.lo[~np.isnan(self.lo)]
        if (np.abs(a) > 90).any() or (o < -180).any() or (o >= 180).any():
            return False
        return self.c.uc == 'regular_grid' or len(self.la) == len(self.lo) and (
            self.c.uc == 'sites' or len(self.T) == len(self.la))

    def ns(self):
        return self.T * NSPER[self.c.unit]

    def off(self, ns):
        """UTC offsets, ns"""
        import pandas as pd
        if self.zone is None:
            return np.zeros(np.shape(ns))
        f = np.asarray(ns, float).ravel()
        ok = np.isfinite(f) & (np.abs(f) < 7e18)
        x = pd.DatetimeIndex(np.where(ok, f, 0).astype('i8').astype('M8[ns]')).tz_localize('UTC').tz_convert(self.zone)
        return (np.asarray(x.tz_localize(None), 'M8[ns]').astype('i8') - np.where(ok, f, 0).astype('i8')).astype(
            float).reshape(np.shape(ns))

    def expand(self, x, which):
        """array over the instants (0), latitudes (1) or longitudes (2), on the full grid"""
        uc = self.c.uc
        K, J, I = self.n
        if uc == 'transect':
            return np.broadcast_to(x, (K,))
        if uc == 'sites':
            return np.broadcast_to(x[:, None] if which == 0 else x[None, :], (K, J))
        if uc == 'conversion':
            return np.broadcast_to(x[:, None] if which == 0 else x[None, :], (K, I))
        return np.broadcast_to(x[:, None, None] if which == 0 else x[None, :, None] if which == 1 else x[None, None, :],
                               (K, J, I))

    @property
    def shape(self):
        return self.expand(self.T, 0).shape

    def env(self, jitter=0.):
        """flat symbols on the full grid"""
        if jitter not in self._env:
            self._env[jitter] = self._make_env(jitter)
        return self._env[jitter]

    def _make_env(self, jitter):
        if jitter:
            e = dict(self.env())
            for k in list(e):
                if k in (api.LAT_, api.LON_) or '@' in str(k.val):
                    e[k] = e[k] * (1 + jitter) + jitter * 1e-3
            return e
        ns = self.ns()
        sec = np.floor_divide(ns, 10**9)
        e = {api.T_: self.expand(self.T.astype(float), 0), api.LAT_: self.expand(np.nan_to_num(self.la), 1),
             api.LON_: self.expand(np.nan_to_num(self.lo), 2), api.OFF_: self.expand(self.off(ns), 0),
             MISSES[0]: self.expand(self.mT, 0), MISSES[1]: self.expand(self.mA, 1), MISSES[2]: self.expand(self.mO, 2)}
        for n, d in zip(('time', 'latitude', 'longitude'), range(3)):
            e[api.CANON[n]] = self.expand(np.arange(self.n[d]), d)
        e[api.CANON['location']] = self.expand(np.arange(self.n[1]), 1) if self.c.uc == 'sites' else np.zeros(self.shape)
        for k, x in self.vals.items():
            e[k] = x
        for n, k in zip(('#K', '#J', '#I'), self.n):
            e[tm.sym(n)] = k
        nd = api.ND.get(self.c.uc, 1)
        mods = [self.c.cfg[2]] if self.c.uc != 'conversion' else list(api.MODULES.values())
        lat, lon = (self.la, self.lo) if self.c.uc != 'conversion' else (np.zeros(1), np.zeros(1))
        for m in mods:
            for ref in ((True, False) if nd is not None else ()):
                r = real_sunpos(m, sec, lon, lat, nd, ref)
                for v in api.OUT:
                    x = np.asarray(r[v], float)
                    if v in api.LOC:
                        if self.c.uc != 'conversion':
                            e[tm.sym('%s@%s@%s' % (v, m, ref if v == 'zenith' else '-'))] = x.reshape(self.shape)
                    elif x.shape == sec.shape:
                        e[tm.sym('%s@%s@-' % (v, m))] = self.expand(x, 0)
        return e

    def ufs(self):
        def star(t, a):
            if t.op == 'uf' and '@' in str(t.val):
                v, m, ref = str(t.val).split('@')
                a = np.broadcast_arrays(*[np.asarray(x, float) for x in a])
                s = [x.ravel() for x in a]
                if v not in api.LOC:
                    s = [s[0], np.zeros(s[0].size), np.zeros(s[0].size)]
                r = real_sunpos(m, np.floor(np.nan_to_num(s[0])).astype('i8'), s[2], s[1], 0, ref != 'False')[v]
                return np.asarray(r, float).reshape(a[0].shape)
            raise SUP('cannot evaluate %s' % tm.show(t, 2))
        return {'off_z': self.off, '*': star}


_MODS = {}


def real_sunpos(mod, sec, lon, lat, nd, ref):
    if mod not in _MODS:
        _MODS[mod] = importlib.import_module('sunwhere.libspa.' + mod).sunpos
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return _MODS[mod](np.asarray(sec, 'i8').astype('M8[s]'), np.asarray(lon, float).copy(), np.asarray(lat, float).copy(),
                          nd, ref)


def call(c, inp, f=None):
    """the real use case, and quantities of its result"""
    global REAL
    import sunwhere
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if c.uc == 'conversion':
            from sunwhere.utils import datetime
            return Conversion(getattr(datetime, c.fn)(inp.times, inp.lon), inp), None
        kw = dict(algorithm=c.cfg[0], engine=c.cfg[1], refraction=c.ref)
        kw.update(c.kw or {})
        r = getattr(sunwhere, c.uc)(inp.times, inp.lat, inp.lon, **kw)
        if f is None:
            return r, None
        REAL = inp.vals
        try:
            return r, f(r)
        finally:
            REAL = None


class Conversion:
    """result of a conversion between time scales, scalar dimensions restored"""
    dims, name, attrs, coords = ('time', 'longitude'), None, {}, ()

    def __init__(self, x, inp):
        x = np.asarray(x)
        if x.shape != tuple(n for n in inp.shape if n != 1):
            raise Structure('shape %s for %d times and %d longitudes' % ((x.shape,) + inp.shape))
        self.values = x.reshape(inp.shape)


def real_values(da, inp):
    """float array on the full grid; times in ns"""
    full = FULL[inp.c.uc]
    if not set(da.dims) <= set(full):
        raise Structure('dimensions %s' % (da.dims,))
    v = np.asarray(da.values)
    if v.dtype.kind in 'Mm':
        nat = np.isnat(v)
        v = np.where(nat, np.nan, v.astype(v.dtype.str[:2] + '8[ns]').astype('i8').astype(float))
    v = v.astype(float)
    order = [d for d in full if d in da.dims]
    v = v.transpose([da.dims.index(d) for d in order])
    ix = tuple(slice(None) if d in order else None for d in full)
    try:
        return np.broadcast_to(v[ix], inp.shape)
    except ValueError:
        raise Structure('shape %s' % (v.shape,))


def evaluate(t, inp, jitter=0.):
    r = evalnum.evaluate(t, inp.env(jitter), inp.ufs())
    with np.errstate(all='ignore'):
        return np.broadcast_to(np.asarray(r, float), inp.shape)


JIT = (0., 1e-12, -1e-12, 1e-10, -1e-10)


def specified(t, inp):
    """value of a term and how much it moves with the last digits of its inputs"""
    xs = [evaluate(t, inp, j) for j in JIT]
    with np.errstate(all='ignore'):
        d = np.max([np.abs(x - xs[0]) for x in xs[1:]], axis=0)
    nan = [np.isnan(x) for x in xs]
    shaky = np.any([n != nan[0] for n in nan], axis=0)
    return xs[0], np.where(np.isnan(d), 0., d), shaky


def mismatch(real, want, slack, shaky, tol):
    with np.errstate(all='ignore'):
        d = np.abs(real - want)
        lim = tol + 10 * slack + 1e-9 * np.abs(want)
        bad = np.where(np.isnan(real) | np.isnan(want), np.isnan(real) != np.isnan(want), ~(d <= lim))
        bad |= np.isinf(real) != np.isinf(want)
    return bad & ~shaky


# ------------------------------------------------------------------ cross-check of the terms with real results

BASE_TOL = {'ns': 2000., 'f': 1e-9}


def scale_tol(da):
    return 2000. if np.asarray(da.values).dtype.kind == 'M' else 1e-9


def cross(rep, c, outs, f, get, n=1, seed=3, sizes=(4, 3, 5)):
    """the terms of the symbolic results against real results; mismatches as text"""
    rng = np.random.default_rng(seed)
    bad = []
    rets = [o for o in outs if o.kind == 'return']
    for i in range(n):
        inp = Inputs(c, rng, sizes, missing=(.15, 0., .5)[i % 3])
        try:
            r, q = call(c, inp, f)
        except Exception as e:
            bad.append('%s: real code raises %s: %s' % (c, type(e).__name__, str(e)[:80]))
            continue
        real = get(r, q)
        rep.count('cross-check of the extracted terms with the real results', 1)
        cand = [dict(get(o.value[1], o.value[2]), _a=o.value[0]) for o in rets
                if not (isinstance(o.value[2], tuple) and o.value[2] and o.value[2][0] == 'raises')]
        if not cand:
            bad.append('%s: returns, the symbolic run does not' % c)
            continue
        for k, da in real.items():
            why = None
            for m in cand:
                why = one_cross(c, inp, da, m.get(k), m['_a'])
                if why is None:
                    break
            if why:
                bad.append('%s: %s: %s' % (c, k, why))
    return bad


def zone_name(inp):
    z = inp.zone
    return getattr(z, 'zone', None) or str(z)


def one_cross(c, inp, da, md, a):
    if md is None:
        return 'no symbolic result'
    if tuple(md.dims) != tuple(da.dims):
        return 'dimensions %s, symbolically %s' % (da.dims, md.dims)
    if md.name != da.name and isinstance(md.name, (str, type(None))):
        return 'name %r, symbolically %r' % (da.name, md.name)
    z = zone_name(inp)
    if {k: v.replace('⟨zone⟩', z).replace('⟨str of tz z⟩', z) for k, v in md.attrs.items() if isinstance(v, str)} != {k: v for k, v in da.attrs.items() if isinstance(
            md.attrs.get(k, ''), str)}:
        return 'attributes %s, symbolically %s' % (da.attrs, md.attrs)
    if set(md._c) != set(da.coords):
        return 'coordinates %s, symbolically %s' % (sorted(da.coords), sorted(md._c))
    try:
        raw = frames.lane_over(md._d, md.dims, api.CANON)
        fl = lambda t: api.flat(t, api.positions(c.uc, a), True, sec=c.sec, tns=c.T_ns)      # noqa: E731
        nan = evaluate(fl(sym.nanof(raw)), inp) != 0
        x = real_values(da, inp)
        v = np.where(nan, np.nan, evaluate(fl(raw), inp))
        m = mismatch(x, v, 0., np.zeros(inp.shape, bool), scale_tol(da))
        if m.any():         # where a mismatch may be one of rounding
            v, slack, shaky = specified(fl(raw), inp)
            v = np.where(nan, np.nan, v)
            m = mismatch(x, v, slack, shaky, scale_tol(da))
    except (SUP, KeyError) as e:
        return 'not evaluated: %s' % e
    except Structure as e:
        return str(e)
    if m.any():
        i = tuple(np.argwhere(m)[0])
        return 'element %s is %r, symbolically %r' % (list(map(int, i)), float(x[i]), float(v[i]))
    return None


# ------------------------------------------------------------------ failed obligations

class Failed:
    def __init__(self, name, c, o, a, f, get, key, want, tol=0., w=('T', 'LAT', 'LON'), got=None, goal=None, mode='value', specs=None):
        """get(r, q)[key] must be `want` (a term; None: any value) and NaN where one of the inputs w is missing"""
        self.specs = specs or [(key, want, tol, w)]
        self.name, self.c, self.o, self.a, self.f, self.get, self.key = name, c, o, a, f, get, key
        self.want, self.tol, self.w, self.got, self.goal, self.mode = want, tol, w, got, goal, mode


def differing_points(rec, n=40000):
    """(points, differ): where the extracted term differs from the specified one"""
    c = rec.c
    if rec.got is None or rec.want is None:
        return None, None
    if tm.atoms([rec.got], ('sel', 'bsel', 'reduce', 'enum', 'rank')):
        return None, True           # depends on other elements
    rng = np.random.default_rng(11)
    one = type(c)('transect' if c.uc != 'conversion' else c.uc, 'naive array' if not c.kind.startswith('aware') else
                  'aware index (pytz)', c.cfg, c.ref, unit=c.unit)
    pts = [common.points(rng, n)]
    comp = composed(rec.got, c)
    cw = composed(rec.want, c)
    if comp is not None and cw is not None:
        try:
            _, guards, fns = hints.conditions([comp, cw])
            only = sorted(fns, key=tm.size)[:120]
            b = hints.boundary(only, rng, 15)
            pts += b
            if b:
                b = [np.concatenate([x[k] for x in b]) for k in range(3)]
                for d in (1e-12, 1e-11, 1e-10, 1e-8, 1e-6):
                    for s in (d, -d):
                        pts.append([b[0], b[1] + s * 60, b[2]])
                        pts.append([b[0], b[1], b[2] + s * 60])
            for g in sorted(guards, key=tm.size)[:40]:
                for want in (True, False):
                    r = hints.search(g, want, rng, 1500, 12)
                    if r is not None:
                        pts.append(r)
        except Exception:
            pass
    P = hints.clampP([np.concatenate([p[k] for p in pts]) for k in range(3)])
    if c.uc == 'conversion':
        P = [x[:300] for x in P]
    inp = Inputs(one, rng, (len(P[0]),) * 3, P, 0.)
    try:
        g, sg, hg = specified(rec.got, inp)
        v, sv, hv = specified(rec.want, inp)
    except (SUP, KeyError, ValueError):
        return None, None
    m = mismatch(g, v, sg + sv, hg | hv, max(rec.tol, BASE_TOL['ns'] if rec.tol else 1e-7))
    if not m.any():
        return None, False
    if m.ndim > 1:
        i, j = np.nonzero(m)
        i, j = i[:40], j[:40]
        return [P[0][i], P[1][j], P[2][j]], True
    with np.errstate(all='ignore'):
        d = np.where(m, np.nan_to_num(np.abs(g - v), nan=np.inf), -1)
    i = np.argsort(-d)[:40]
    i = i[m[i]]
    return [x[i] for x in P], True


def composed(t, c):
    """t over (t, lat, lon), the outputs of sunpos replaced by their extracted terms; None where that is not possible"""
    try:
        m = {api.T_: tm.mul(tm.const(10**9 // NSPER[c.unit]), extract.t_) if NSPER[c.unit] <= 10**9 else None,
             api.OFF_: tm.ZERO, SLOPE: tm.const(30), GAMMA: tm.const(20), ISC: tm.const(1361)}
        if m[api.T_] is None:
            return None
        for s in tm.free(t):
            if '@' in str(s.val):
                v, mod, ref = s.val.split('@')
                x = extract.extract(mod, api.ND.get(c.uc, 1), ref != 'False')
                if x.error:
                    return None
                m[s] = x.terms[v][0][0]
        r = tm.subst(t, m)
        return r if hints.supported(r) else None
    except Exception:
        return None


def on_path(rec, rng):
    """instants and places at which the path runs when every element is the same, found by search over its condition; with
    a term that is not the specified one, those at which they differ first"""
    c = rec.c
    if rec.o is None:
        return None
    conds = []
    for t in rec.o.pc:
        t = tm.rewrite(t, lambda u: u.args[0] if u.op == 'forall' else None)
        t = tm.rewrite(t, lambda u: tm.FALSE if u.op == 'isnan' else None)
        u = composed(api.flat(t, None, sec=c.sec, tns=c.T_ns), c)
        if u is not None and tm.free(u) and u not in conds:
            conds.append(u)
    if not conds:
        return None
    cond = tm.and_(*conds)
    if rec.got is not None and rec.want is not None:
        g, w = [composed(api.flat(t, None, sec=c.sec, tns=c.T_ns), c) for t in (rec.got, rec.want)]
        if g is not None and w is not None:
            P = hints.search(tm.and_(cond, tm.lt(max(rec.tol, 1e-6), tm.fn('abs', tm.sub(g, w)))), True, rng, 6000, 30)
            if P is not None:
                return P
    return hints.search(cond, True, rng, 6000, 30)


def models(o, goal, scalar_time):
    """inputs (sizes, contents) on which the path runs and the goal fails, small ones first"""
    S = [tm.sym(x) for x in ('#K', '#J', '#I')]
    pc = list(o.pc) if o is not None else []
    hyp = ([pc + [tm.not_(goal)]] if goal is not None else []) + [pc]
    seen = set()
    for h in hyp:
        for lim in ((5, 5, 5), (None, 4, 4), (4, None, 4), (4, 4, None), (None, None, None), 'empty'):
            if lim == 'empty':
                if seen or goal is None:
                    continue
                b = [tm.le(0, s) for s in S] + [tm.le(s, 5) for s in S]
            else:
                b = [tm.le(1, s) for s in S] + [tm.le(s, k) for s, k in zip(S, lim) if k]
            r, m = api.SOLVER.check(h + b, 3000)
            if r != 'sat' or m is None:
                continue
            try:
                n = [max(0 if lim == 'empty' else 1, int(str(m.value(s)))) for s in S]
            except ValueError:
                continue
            if np.prod([float(x) for x in n]) > 3e6 or tuple(n) in seen:
                continue
            seen.add(tuple(n))
            yield tuple(n), m
            if lim == (5, 5, 5):
                break


def model_content(m):
    def f(T, la, lo, mT, mA, mO):
        for nm, arr, miss in (('T', T, mT), ('LAT', la, mA), ('LON', lo, mO)):
            for i in range(min(len(arr), 400)):
                for ix in ((tm.const(i),), ()):
                    x = tm.mk('sel', ix, nm)
                    if ix == () and i:
                        continue
                    v = m.value(x, False)
                    if v is not None:
                        try:
                            arr[i] = int(float(v)) if nm == 'T' else float(v)
                        except (ValueError, OverflowError):
                            pass
                    b = m.value(tm.mk('isnan', (x,)), False)
                    if b is not None:
                        miss[i] = str(b) == 'True'
        if np.abs(T.astype(float)).max(initial=0) > 4e18:
            T = np.clip(T, -2 * 10**18, 4 * 10**18)
        return T, la, lo, mT, mA, mO
    return f


EXPR = {'sza': 'r.sza', 'daylight': 'r.daylight_length()', 'tst': 'r.true_solar_time', 'inc': 'r.incidence(slope, orientation)',
        'incidence': 'r.incidence(slope, orientation)', 'eth': 'r.eth(ISC)', 'airmass': 'r.airmass()', 'none': 'r.eth(ISC)'}


def expr(key):
    if key in EXPR:
        return EXPR[key]
    for p in ('sunrise', 'sunset'):
        if key.startswith(p):
            u = key[len(p):].strip("_('\")")
            return 'r.%s(%r)' % (p, u) if u else 'r.%s()' % p
    return 'r.' + key if key.isidentifier() else key


def attempt(rec, inp):
    """None: as specified; else what is wrong"""
    c = rec.c
    try:
        r, q = call(c, inp, rec.f)
    except Structure as e:
        return 'the result has %s' % e
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any(x.filename.startswith(common.SRC) for x in tb):
            return 'raises %s: %s' % (type(e).__name__, str(e)[:200])
        raise
    if rec.mode == 'raise':
        return None
    got = rec.get(r, q)
    for key, want, tol, w in rec.specs:
        e = wrong(inp, got.get(key), key, want, tol, w)
        if e:
            return e
    return None


def wrong(inp, da, key, want, tol, w):
    c = inp.c
    if da is None:
        return '%s is not computed' % expr(key)
    try:
        x = real_values(da, inp)
    except Structure as e:
        return '%s has %s' % (expr(key), e)
    miss = np.zeros(inp.shape, bool)
    for k, arr, d in (('T', inp.mT, 0), ('LAT', inp.mA, 1), ('LON', inp.mO, 2)):
        if k in w:
            miss = miss | inp.expand(arr, d)
    bad = miss & ~np.isnan(x)
    say = 'is %r where an input is missing'
    v = None
    if not bad.any():
        if want is None:
            return None
        v, slack, shaky = specified(want, inp)
        bad = mismatch(x, v, slack, shaky, max(tol * 1.001, scale_tol(da))) & ~miss
        say = 'is %r, specified: %r'
    if not bad.any():
        return None
    i = tuple(int(k) for k in np.argwhere(bad)[0])
    t = {'time': (inp.T.astype('M8[%s]' % c.unit), 0)}
    at = 'time=%s lat=%r lon=%r' % (inp.expand(t['time'][0], 0)[i], float(inp.expand(inp.la, 1)[i]), float(inp.expand(inp.lo, 2)[i]))
    return '%s%s (%s) %s' % (expr(key), list(i), at, say % ((float(x[i]),) if v is None else (float(x[i]), float(v[i]))))


def tries(rec):
    """inputs to try, and whether the terms differ"""
    c = rec.c
    rng = np.random.default_rng(17)
    P, differ = differing_points(rec)
    yield 'differ', differ
    sc = 'scalar' in c.kind
    if P is not None:
        n = len(P[0])
        for i in range(min(n, 12)):
            yield 'input', Inputs(c, rng, (1, 1, 1), [x[i:i + 1] for x in P], 0.)
        yield 'input', Inputs(c, rng, (n, n, n), P, 0.)
    try:
        P = on_path(rec, rng)
    except Exception:       # no search; the other inputs remain
        P = None
    if P is not None:
        n = len(P[0])
        for i in range(min(n, 8)):
            yield 'input', Inputs(c, rng, (1, 1, 1), [x[i:i + 1] for x in P], 0.)
        for sizes, m in models(rec.o, None, sc):
            for i in range(min(n, 4)):
                yield 'input', Inputs(c, rng, sizes, [x[i:i + 1] for x in P], 0.)
        yield 'input', Inputs(c, rng, (n, n, n), P, 0.)
    for sizes, m in models(rec.o, rec.goal, sc):
        yield 'input', Inputs(c, rng, sizes, None, .2, model_content(m))
        for miss in (0., .3):
            yield 'input', Inputs(c, rng, sizes, None, miss)
    for i in range(14):
        sizes = tuple(int(x) for x in rng.integers(1, 7, 3))
        yield 'input', Inputs(c, rng, sizes, None, (0., .3, .8, 0.)[i % 4])
    for miss in ((1, 0), (0, 1), (1, 1)):
        yield 'input', Inputs(c, rng, (3, 3, 3), None, 0., lambda T, la, lo, mT, mA, mO: (
            T, la, lo, mT, mA | bool(miss[0]), mO | bool(miss[1])))
    for style, sizes in ((falling, (5, 2, 3)), (rising, (30, 3, 2)), (alike, (4, 3, 3)), (minutes, (1441, 1, 1)), (rising, (2, 80, 3)),
                         (falling, (2, 3, 80)), (minutes, (3, 70, 70)), (whole, (6, 4, 4)), (near, (3, 5, 5)), (near, (40, 7, 7)),
                         (meridians, (5, 4, 4)), (meridians, (6, 9, 9))):
        yield 'input', Inputs(c, rng, sizes, None, 0. if style is not rising else .1, style(c.unit, rng))


def falling(unit, rng):
    return lambda T, la, lo, *m: (np.sort(T)[::-1].copy(), np.sort(la)[::-1].copy(), np.sort(lo)[::-1].copy()) + m


def rising(unit, rng):
    return lambda T, la, lo, *m: (np.sort(T), np.sort(la), np.sort(lo)) + m


def near(unit, rng):
    """instants and places close together, on a few parallels"""
    return lambda T, la, lo, *m: (T[:1] + np.cumsum(rng.integers(0, 2 * 10**9, len(T))) * 60 // NSPER[unit],
                                  np.resize(la[:2], len(la)), np.clip(lo[0] + rng.uniform(0, 5, len(lo)), -180, 179.)) + m


def meridians(unit, rng):
    """few instants, repeated, on a few meridians"""
    return lambda T, la, lo, *m: (T[rng.integers(0, 2, len(T)) % len(T)], np.round(np.clip(la[0] + rng.uniform(0, 5, len(la)), -90, 90), 2),
                                  np.repeat(lo[:3], len(lo))[:len(lo)]) + m


def alike(unit, rng):
    return lambda T, la, lo, *m: (np.repeat(T[:1], len(T)), np.repeat(la[:1], len(la)), np.repeat(lo[:1], len(lo))) + m


def minutes(unit, rng):
    """a day in equal steps"""
    def f(T, la, lo, *m):
        day = int(T[0]) * NSPER[unit] // (86400 * 10**9)
        k = np.arange(len(T)) * (86400 * 10**9 // max(1, len(T) - 1))
        return ((day * 86400 * 10**9 + k) // NSPER[unit], np.linspace(-90, 90, len(la)), np.linspace(-180, 179, len(lo))) + m
    return f


def whole(unit, rng):
    """round numbers"""
    def f(T, la, lo, *m):
        h = 3600 * 10**9
        return (T * NSPER[unit] // h * h // NSPER[unit], np.round(la / 15) * 15, np.round(lo / 15) * 15 % 360 - 180) + m
    return f


def process(rep, recs, secs=100.):
    """replays failed obligations; reports the violations found"""
    t0 = time.time()
    byname = {}
    for r in recs:
        byname.setdefault(r.name, []).append(r)
    seen = set()
    for name, rs in byname.items():
        for r in pick(rs):
            if time.time() - t0 > secs or len(rep.violations) >= 5:
                return
            k = (r.c.uc, r.c.kind, r.c.cfg, str(r.c.ref), r.c.lat, r.c.lon, r.key, r.mode, r.want, r.got)
            if k in seen:
                continue
            seen.add(k)
            differ, ran = None, 0
            found = None
            try:
                for what, x in tries(r):
                    if what == 'differ':
                        differ = x
                        continue
                    if not x.valid:
                        continue
                    try:
                        found = attempt(r, x)
                    except (SUP, KeyError) as e:
                        rep.notes.append('replay of %s: %s' % (name, e))
                        continue
                    ran += 1
                    rep.count('replays of failed obligations', 1)
                    if found:
                        t = x.text()
                        t += '' if r.c.uc != 'conversion' else 'print(d.%s(times, lon))\n' % r.c.fn
                        extra = ''.join('%s = %r\n' % (n, x.vals[s]) for n, s in (('slope', SLOPE), ('orientation', GAMMA), ('ISC', ISC)))
                        rep.failed.append(name)
                        rep.violation('%s.%s' % (rep.prop, name), '%s: %s' % (r.c, found), t if r.c.uc == 'conversion' else
                                      t + extra + 'print(%s)\n' % expr(r.key))
                        break
            except Exception:
                rep.notes.append('replay of %s failed: %s' % (name, traceback.format_exc(limit=-3)[-500:]))
            if found:
                break
            rep.notes.append('failed obligation %s (%s): %d replays on the real code as specified%s' % (
                name, r.c, ran, {True: '; the extracted term differs from the specified one', False: '; no difference between '
                                 'the extracted term and the specified one was found'}.get(differ, '')))
            if differ and not ran:
                rep.refuted.append((name, '%s: the extracted term differs from the specified one' % r.c))


class Aborted:
    """a path that the engine gave up"""
    def __init__(self, pc):
        self.pc = list(pc)


def pick(rs, n=3):
    out, seen = [], set()
    for r in rs:
        k = (r.c.uc, r.c.kind if len(out) < 2 else '', r.got)
        if r.got is None or k not in seen:
            seen.add(k)
            out.append(r)
        if len(out) >= n:
            break
    if isinstance(rs[0].o, Aborted):        # nothing is known of these: as different as can be
        left = [r for r in rs if r not in out]
        have = set().union(*(traits(r.c) for r in out))
        while left and len(out) < 10:
            best = max(left, key=lambda r: len(traits(r.c) - have))
            if not traits(best.c) - have:
                break
            have |= traits(best.c)
            out.append(best)
            left.remove(best)
    return out


def traits(c):
    return {c.kind, 'lat ' + c.lat, 'lon ' + c.lon, c.cfg, c.ref, c.unit, (c.kind, c.lat)}
