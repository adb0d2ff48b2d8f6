"""Obligations of the API layer (C08-C20): the real usecases.py, _core.py, _base.py,
utils/ and _cli/ run symbolically for arrays of any size against the contracts of
sunpos; each obligation is about the generic element at (time, place)."""
import time
import traceback
from fractions import Fraction
import numpy as np
from pyded import terms as tm, sym, frames, nf, extract, bb, loader
from . import api, geom, replay

CFG = [(a, e, m) for (a, e), m in extract.MODULES.items()]
SUP = sym.Unsupported
DAYNS = 86400 * 10**9


class Group:
    """one obligation over many cases: proved iff every case is"""

    def __init__(self, rep, name, backend='pyded.nf/z3'):
        self.rep, self.name, self.backend = rep, name, backend
        self.n = self.t = 0
        self.bad, self.und = [], []

    def add(self, ok, detail=''):
        self.n += 1
        if not ok:
            (self.und if ok is None else self.bad).append(str(detail)[:160])
        return ok

    def close(self):
        bad = self.bad + self.und
        st = 'proved' if self.n and not bad else 'undecided'
        if self.bad:
            self.rep.failed.append(self.name)
        self.rep.obligation(self.name + (' (%d cases)' % self.n if self.n > 1 else ''), st, self.backend, self.t, bad[:3])


class Groups:
    def __init__(self, rep, prefix=''):
        self.rep, self.prefix, self.g = rep, prefix, {}
        self.cur = None         # case, path, arguments, quantities: what a failed obligation is replayed on

    def add(self, name, ok, detail='', backend='pyded.nf/z3'):
        if name not in self.g:
            self.g[name] = Group(self.rep, self.prefix + name, backend)
        t = getattr(self, 't0', None)
        self.g[name].add(ok, detail)
        return ok

    def on(self, c, o, a, f, get):
        self.cur = c, o, a, f, get

    def fail_all(self, name, c, specs, f, get, pc=()):
        """the case could not be proved: what is specified of it is tried on the real code"""
        if specs:
            self.rep.recs.append(replay.Failed(self.prefix + name, c, replay.Aborted(pc), None, f, get, specs[0][0], None,
                                               specs=specs))

    def fail(self, name, key, want, tol=0., w=('T', 'LAT', 'LON'), got=None, goal=None, mode='value'):
        if self.cur is not None:
            c, o, a, f, get = self.cur
            self.rep.recs.append(replay.Failed(self.prefix + name, c, o, a, f, get, key, want, tol, w, got, goal, mode))

    def eq(self, N, name, key, got, want, tol=None, w=('T', 'LAT', 'LON'), spec=None):
        """obligation: the element term `got` of quantity `key` is `want` (where the inputs w are not missing)"""
        ok = bool(N.equal(got, want)) if tol is None else close(N, got, want, tol)
        if not ok:
            self.fail(name, key, want if spec is None else spec, tol or 0., w, got)
        return self.add(name, ok or None, self.cur[0])

    def nan(self, name, key, pc, goal, want=None, w=('T', 'LAT', 'LON')):
        """obligation: the path condition implies the goal, which says where quantity `key` is NaN"""
        ok = implied(pc, goal)
        if not ok:
            self.fail(name, key, want, 1e-3 if want is None else 0., w, None, goal)
        return self.add(name, ok, self.cur[0], 'z3')

    def close(self):
        for g in self.g.values():
            g.close()


class Case:
    def __init__(self, uc, kind='naive array', cfg=('psa', 'numpy', 'py_psa'), ref=True, lat='array', lon='array',
                 unit='ns', ndim=(1, 1, 1), kw=None):
        self.uc, self.kind, self.cfg, self.ref = uc, kind, cfg, ref
        self.lat, self.lon, self.unit, self.ndim, self.kw = lat, lon, unit, ndim, kw

    def __str__(self):
        return '%s, %s (%s), %s latitude, %s longitude, %s/%s, refraction=%s' % (
            self.uc, self.kind, self.unit, self.lat, self.lon, self.cfg[0], self.cfg[1], self.ref)

    # the flat symbols of this case
    def V(self, v):
        return tm.sym('%s@%s@%s' % (v, self.cfg[2], bool(self.ref) if v == 'zenith' else '-'))

    @property
    def T_ns(self):
        return sym.convert_unit(api.T_, self.unit, 'ns')

    @property
    def sec(self):
        return sym.convert_unit(api.T_, self.unit, 's')

    def off(self, a):
        return tm.ZERO if a.tz is frames.UTC else api.OFF_

    def flat(self, t, a):
        return snap(api.flat(t, api.positions(self.uc, a), False, sec=self.sec, tns=self.T_ns))

    def raw(self, da):
        return frames.lane_over(da._d, da.dims, api.CANON)

    def el(self, da, a):
        return self.flat(self.raw(da), a)

    def missing(self, a, which=('T', 'LAT', 'LON')):
        """condition under which one of the inputs at the canonical position is missing"""
        p = api.positions(self.uc, a)
        return tm.or_(*[tm.mk('isnan', (tm.mk('sel', p[w][0], w),)) for w in which])

    def inside(self, a):
        """the canonical positions are positions of the arrays"""
        h = []
        for n, axs in zip(('T', 'LAT', 'LON'), ([a.K], [a.J], [a.I])):
            for ix in api.positions(self.uc, a)[n]:
                for i, ax in zip(ix, axs):
                    if i.op == 'sym':
                        h += [tm.le(0, i), tm.lt(i, ax.size)]
                    elif a.scalar_time:
                        h += [tm.le(0, api.CANON['time']), tm.lt(api.CANON['time'], ax.size)]
        return h

    def run(self, f=None):
        """all paths: list of Outcome; value (args, result, f(result) or ('raises', e))"""
        w = api.world()
        u = w.load('sunwhere.usecases')

        def go():
            a = api.Args(self.kind, self.lat, self.lon, unit=self.unit, ndim=self.ndim)
            if a.scalar_time:
                sym.ctx().pc.append(tm.not_(tm.mk('isnan', (tm.mk('sel', (), 'T'),))))
            kw = dict(algorithm=self.cfg[0], engine=self.cfg[1], refraction=self.ref)
            kw.update(self.kw or {})
            self.last = a
            r = getattr(u, self.uc)(a.times, a.lat, a.lon, **kw)
            q = None
            if f is not None:
                try:
                    q = f(r)
                except (SUP, sym.Infeasible):
                    raise
                except Exception as e:
                    q = ('raises', e, traceback.format_exc(limit=-3))
            return a, r, q
        return api.run(go)


# ------------------------------------------------------------------ helpers

SLOPE, GAMMA, ISC = [tm.sym(x) for x in ('slope', 'gamma', 'isc')]


def scalar(t):
    if replay.REAL is not None:         # the real code runs
        return float(t.val) if tm.isc(t) else replay.REAL[t]
    return sym.SymArray(np.array(t, dtype=object), [], 'f8')


def prim(r, q=None):
    return {v: getattr(r, v) for v in extract.OUT}


def prim_spec(c, v):
    return c.V(v) if v in ('eot', 'ecf') else deg(c.V(v))


def needs(v):
    return ('T', 'LAT', 'LON') if v in api.LOC else ('T',)


def values_of(r, q):
    """DataArrays among quantities"""
    return {k: x for k, x in q.items() if isinstance(x, frames.DA) or hasattr(x, 'coords')}


def implied(pc, goal, timeout=8000):
    if goal is tm.TRUE:
        return True
    r, _ = api.SOLVER.valid(pc, goal, timeout)
    return True if r == 'proved' else False if r == 'refuted' else None


def iff(a, b):
    return tm.and_(tm.implies(a, b), tm.implies(b, a))


def relax(t, slack):
    """t with its outer truncations replaced by the exact value; slack: [max error]"""
    if t.op in ('trunc', 'floor') and not tm.is_int(t.args[0]):
        slack[0] += 1
        return relax(t.args[0], slack)
    if t.op == 'add':
        return tm.add(*[relax(x, slack) for x in t.args])
    if t.op == 'mul' and len(t.args) == 2 and tm.isc(t.args[0]):
        s = [0]
        r = relax(t.args[1], s)
        slack[0] += abs(t.args[0].val) * s[0]
        return tm.mul(t.args[0], r)
    if t.op == 'ite':
        s, u = [0], [0]
        r = tm.ite(t.args[0], relax(t.args[1], s), relax(t.args[2], u))
        slack[0] += max(s[0], u[0])
        return r
    return t


def close(N, got, want, tol):
    """|got - want| <= tol for all values of the symbols, up to outer truncations"""
    s = [0]
    g, w = relax(got, s), relax(want, s)
    if s[0] > tol:
        return None
    return True if (g is w or N.equal(g, w)) else None


def snap(t):
    """constants that are the double nearest to a simple fraction, taken as that fraction"""
    def f(u):
        if u.op == 'c' and u.val.denominator > 1000:
            x = u.val.limit_denominator(1000)
            if x and abs(x - u.val) < abs(x) * Fraction(4, 10**16):
                return tm.const(x)
        return None
    return tm.rewrite(t, f)


def deg(t):
    return tm.div(tm.mul(t, 180), tm.PI)


def rad(t):
    return tm.div(tm.mul(t, tm.PI), 180)


def sides(G, c, o):
    """what sunpos and the indexing require holds at every call"""
    for cond, why in o.side:
        G.add('calls of sunpos: ' + why.replace('requires of sunpos: ', ''), implied(o.pc, cond), str(c), 'z3')


def guarded(rep, name, f):
    """engine failures leave an obligation undecided"""
    t0 = time.time()
    try:
        f()
    except SUP as e:
        rep.obligation(name, 'undecided', 'pyded', time.time() - t0, 'unsupported: %s' % e)
    except Exception as e:
        rep.obligation(name, 'undecided', 'pyded', time.time() - t0,
                       'engine: %s: %s' % (type(e).__name__, traceback.format_exc(limit=-2)))


ARRAY_KINDS = ('naive array', 'naive index', 'aware index (pytz)', 'aware index (zoneinfo)', 'UTC index')


def all_cases(kinds=api.KINDS, refs=(True, False), cfgs=CFG, scalars=True):
    for uc in api.DIMS:
        for kind in kinds:
            for cfg in cfgs:
                for ref in refs:
                    yield Case(uc, kind, cfg, ref)
        if scalars:
            for kind in kinds:
                for la, lo in (('scalar', 'scalar'), ('array', 'scalar'), ('scalar', 'array')):
                    if uc == 'transect' and 'scalar' not in kind:
                        continue
                    yield Case(uc, kind, cfgs[0], True, la, lo)
            for how in api.LOCS:
                yield Case(uc, kinds[0], cfgs[0], True, how, how)
            for kind in api.WRITTEN:
                yield Case(uc, kind, cfgs[0], True, unit='us' if 'list' in kind else 'ns')


API_FUNCS = ('usecases.sites', 'usecases.regular_grid', 'usecases.transect', '_core.evaluate', '_base.Sunpos.__init__',
             'utils.validate.check_ndim', 'utils.validate.check_timelatlon', 'utils.validate.check_dimensions')


def base(rep):
    rep.function(*API_FUNCS)
    rep.assume('contracts of pandas (to_datetime, tz_localize, tz_convert), xarray (alignment by dimension name, where, '
               'clip, rename, assign_attrs) and numpy datetime64 casts as modelled in pyded/frames.py and pyded/sym.py',
               'time zones are arbitrary functions from instants to UTC offsets',
               'sunpos enters these proofs by its contract (element-wise function of instant and place, NaN-strict), '
               'proved of its source under C01-C08',
               'lists and strings enter by the contracts of np.array and pd.to_datetime (a list of numbers or datetimes: the '
               'array; a string: the instant it denotes); pandas Series as locations are checked at run time, bounded')


# ------------------------------------------------------------------ C08

def _c08_case(G, N, c, quantities=False):
    f = derived if quantities else None
    get = (lambda r, q: prim(r)) if f is None else lambda r, q: dict({k: x[0] for k, x in q.items()}, **prim(r))

    def give_up(pc=()):
        sp = prim_specs(c)
        if quantities:
            sp = [(k, None, 0., w) for k, w in derived_needs().items()] + sp
        G.fail_all('missing values as specified', c, sp, f, get, pc)
    try:
        outs = c.run(f)
    except Exception as e:
        give_up(getattr(e, 'pc', ()))
        raise
    if crossed(G.rep, c, outs, f, (lambda r, q: prim(r)) if f is None else lambda r, q: {k: x[0] for k, x in q.items()}):
        give_up()
    if not any(o.kind == 'return' for o in outs):
        G.on(c, outs[0] if outs else None, None, None, prim)
        G.fail('returns for some input', 'zenith', None, mode='raise')
        G.add('returns for some input', False, c)
    for o in outs:
        if o.kind == 'raise':
            nm, goal = 'no exception for valid input, missing or not', tm.not_(valid_input(c, c.last))
            ok = implied(list(o.pc), goal)
            if not ok:
                G.on(c, o, c.last, None, prim)
                G.fail(nm, 'zenith', None, goal=goal, mode='raise')
            G.add(nm, ok, '%s: %s: %s' % (c, type(o.value).__name__, str(o.value)[:60]), 'z3')
            continue
        a, r, q = o.value
        G.on(c, o, a, None, prim)
        sides(G, c, o)
        pc = list(o.pc) + c.inside(a)
        if any(o.frame_violations):
            G.add('assigns none of its arguments', False, c)
        for v, da in prim(r).items():
            t = c.raw(da)
            w = ('T', 'LAT', 'LON') if v in api.LOC else ('T',)
            want = prim_spec(c, v)
            G.nan('%s is NaN exactly where its instant%s is missing' % (v, ', latitude or longitude' if v in api.LOC else ''),
                  v, pc, iff(sym.nanof(t), c.missing(a, w)), want, w)
            g = c.flat(t, a)
            if g.op == 'nan':       # the path on which the scalar inputs are missing
                continue
            G.eq(N, '%s elsewhere is that of sunpos at its own instant and place' % v, v, g, want, w=w)
        if quantities:
            G.on(c, o, a, f, lambda r, q: {k: x[0] for k, x in q.items()})
            if isinstance(q, tuple):
                G.fail('derived quantities: no exception', 'zenith', None, mode='raise')
                G.add('derived quantities: no exception', False, '%s: %s' % (c, q[1]))
                continue
            for k, (da, w) in q.items():
                t = c.raw(da)
                G.nan('%s is NaN where an input it depends on is missing' % k, k, pc, tm.implies(c.missing(a, w), sym.nanof(t)),
                      None, w)
                own = {api.T_, api.LAT_, api.LON_, api.OFF_, SLOPE, GAMMA, ISC} | {c.V(v) for v in api.OUT}
                g = c.flat(t, a)
                G.add('%s elsewhere depends on its own instant and place alone' % k,
                      tm.free(g) <= own and not tm.atoms([g], ('sel', 'uf', 'reduce', 'enum', 'rank')), c)


def derived(r):
    """quantities -> (DataArray, inputs whose absence makes it NaN)"""
    t, la, lo = ('T',), ('T', 'LAT'), ('T', 'LAT', 'LON')
    q = {'elevation': (r.elevation, lo), 'cosz': (r.cosz, lo), 'eth': (r.eth(scalar(ISC)), lo),
         'true_solar_time': (r.true_solar_time, ('T', 'LON')), 'daylight_length': (r.daylight_length(), la),
         'incidence': (r.incidence(scalar(SLOPE), scalar(GAMMA)), lo)}
    for u in ('deg', 'rad'):
        q["sunrise('%s')" % u] = (r.sunrise(u), la)
        q["sunset('%s')" % u] = (r.sunset(u), la)
    for u in ('tst', 'utc', 'local'):
        q["sunrise('%s')" % u] = (r.sunrise(u), lo)
        q["sunset('%s')" % u] = (r.sunset(u), lo)
    for p in AIRMASS:
        q['airmass(%s)' % p] = (r.airmass(p), lo)
    for p in ETH:
        q['eth(%s)' % p] = (r.eth(scalar(ISC), p), lo)
    return q


def derived_needs():
    t, la, lo = ('T',), ('T', 'LAT'), ('T', 'LAT', 'LON')
    w = dict.fromkeys(['elevation', 'cosz', 'eth', 'incidence'] + ['airmass(%s)' % p for p in AIRMASS] +
                      ['eth(%s)' % p for p in ETH] + ["%s('%s')" % (k, u) for k in ('sunrise', 'sunset')
                                                      for u in ('tst', 'utc', 'local')], lo)
    w.update(dict.fromkeys(['daylight_length'] + ["%s('%s')" % (k, u) for k in ('sunrise', 'sunset') for u in ('deg', 'rad')], la))
    return dict(w, true_solar_time=('T', 'LON'))


AIRMASS = ('kasten_1965', 'kasten_and_young_1989', 'gueymard_2001', 'gueymard_2003')
ETH = ('perez_1990', 'skarveith_1998', 'gonzalez_and_calbo_1999')
METHODS = tuple('_base.Sunpos.' + x for x in ('zenith', 'azimuth', 'elevation', 'cosz', 'eth', 'airmass', 'sunrise', 'sunset',
                                             'daylight_length', 'incidence', 'true_solar_time', 'declination', 'eot', 'ecf'))


def p_C08(rep):
    base(rep)
    rep.function(*METHODS)
    N = nf.NF()
    for uc in api.DIMS:
        G = Groups(rep, 'usecases.%s: ' % uc)

        def go():
            for c in all_cases():
                if c.uc == uc:
                    _c08_case(G, N, c, c.kind in ('naive array', 'aware index (pytz)', 'aware scalar') and c.lat == c.lon)
        guarded(rep, 'usecases.%s: missing values' % uc, go)
        G.close()
    spa_missing(rep)
    return 'proof', 'API layer run symbolically with possibly missing inputs; NaN conditions by Z3; NaN-strictness of each sunpos'


def spa_missing(rep):
    """sunpos: NaN latitude/longitude, arrays of any size from zero"""
    for (algo, eng), mod in extract.MODULES.items():
        rep.function('libspa.%s.sunpos' % mod)
        for nd in (0, 1, 2):
            nm = 'libspa.%s.sunpos[ndim=%d]: ' % (mod, nd)

            def go():
                for ref in (False, True):
                    G = Groups(rep, nm.replace(']', ',refraction=%s]' % ref))
                    x = MissingSpa(mod, nd, ref)
                    x.run()
                    if x.error:
                        G.add('with missing latitudes or longitudes, from empty arrays on', None, x.error)
                        G.close()
                        continue
                    for v in extract.OUT:
                        for t, want, pc in x.nan[v]:
                            G.add('%s is NaN %s' % (v, 'exactly where latitude or longitude is' if v in api.LOC else 'nowhere'),
                                  implied(pc, iff(t, want)), tm.show(t, 3), 'z3')
                    G.add('returns arrays of the documented shape on every path, for all K, J, I >= 0', True)
                    G.close()
            guarded(rep, nm + 'missing values', go)


class MissingSpa(extract.Extraction):
    """sunpos with possibly missing latitudes and longitudes and arrays of any size, also empty"""

    def _run(self, src):
        w = loader.World(src=src)
        mod = w.load('sunwhere.libspa.' + self.module)
        sym._AXIS_BY_SIZE.clear()
        args = extract.SpaArgs(self.ndim)
        sym._AXIS_BY_SIZE.clear()
        for ax in (args.K, args.J, args.I):
            sym.register_axis(ax)
        pre = [tm.le(0, ax.size) for ax in {args.K, args.J, args.I}]
        had = set(sym.MAYBE_NAN)
        sym.MAYBE_NAN.clear()
        sym.MAYBE_NAN.update(('LATn', 'LONn'))

        def go():
            times = loader.new_array('T', args.K, 'M8[s]')
            lat = loader.new_array('LATn', args.J, 'f8')
            lon = loader.new_array('LONn', args.I, 'f8')
            self.a = times, lon, lat
            return mod.sunpos(times, lon, lat, self.ndim, self.refraction)
        try:
            outs = sym.explore(go, pre, api.SOLVER)
            times, lon, lat = self.a
            self.nan = {}
            want_loc = {0: [args.K], 1: [args.K, args.J], 2: [args.K, args.J, args.I]}[self.ndim]
            for o in outs:
                if o.kind == 'raise':
                    raise sym.Unsupported('raises %s: %s' % (type(o.value).__name__, o.value))
                for v in extract.OUT:
                    want = want_loc if v in api.LOC else [args.K]
                    A = sym.asarr(o.value[v])
                    m = {}
                    if A.ndim == len(want) and A.data.size == 0:    # a path of empty arrays
                        if any(api.SOLVER.valid(o.pc, tm.eq(y.size, n))[0] != 'proved' if x is None else
                               x is not y and api.SOLVER.valid(o.pc, tm.eq(x.size, y.size))[0] != 'proved'
                               for x, y, n in zip(A.axes, want, A.data.shape)):
                            raise sym.Unsupported('%s has axes %s on path %s' % (v, A.axes, o.pc))
                        self.nan.setdefault(v, [])
                        continue
                    if A.ndim != len(want) or A.data.size != 1:
                        raise sym.Unsupported('%s has axes %s, data %s' % (v, A.axes, A.data.shape))
                    for x, y in zip(A.axes, want):
                        if x is not y:
                            if x is None or api.SOLVER.valid(o.pc, tm.eq(x.size, y.size))[0] != 'proved':
                                raise sym.Unsupported('%s has axes %s on path %s' % (v, A.axes, o.pc))
                            m[x.idx] = y.idx
                    t = tm.subst(A.lane(), m) if m else A.lane()
                    nan = sym.nanof(t)
                    want = tm.or_(sym.nanof(lat.lane()), sym.nanof(lon.lane())) if v in api.LOC else tm.FALSE
                    self.nan.setdefault(v, []).append((nan, want, o.pc))
        finally:
            sym.MAYBE_NAN.clear()
            sym.MAYBE_NAN.update(had)


# ------------------------------------------------------------------ C01 - C07: the results are sunpos's

TRUTH = (1, 0, 2.5, 0., 'yes', '', None, (), (0,), np.True_, np.False_)


def elements(rep, kinds=('naive array', 'aware index (pytz)', 'aware scalar'), truth=False):
    """every element of a result is the output of sunpos of the algorithm and engine asked for at its own instant and place"""
    base(rep)
    N = nf.NF()
    for uc in api.DIMS:
        G = Groups(rep, 'usecases.%s: ' % uc)

        def f(c, o, a, r, q):
            if o is None:
                return G.add('returns', False, c)
            sides(G, c, o)
            G.add('has_refraction reports what was applied', bool(r.has_refraction) == bool(c.ref), c, 'pyded')
            pc = list(o.pc) + c.inside(a)
            for v in extract.OUT:
                t = c.raw(getattr(r, v))
                w = ('T', 'LAT', 'LON') if v in api.LOC else ('T',)
                g = c.flat(t, a)
                if g.op == 'nan':
                    continue
                G.nan('%s is not missing where its inputs are not' % v, v, pc, tm.implies(sym.nanof(t), c.missing(a, w)),
                      prim_spec(c, v), w)
                G.eq(N, '%s is that of sunpos, with refraction as asked for, at its own instant and place, in degrees or as is' % v,
                     v, g, prim_spec(c, v), w=w)
        cs = [(c, None) for c in all_cases(kinds=kinds) if c.uc == uc]
        if truth:
            cs += [(Case(uc, 'naive array', cfg, x), None) for cfg in (CFG[0], CFG[-1]) for x in TRUTH]
        each(rep, cs, f, 'usecases.%s' % uc, G)
        G.close()


# ------------------------------------------------------------------ C10, C11

def prim_specs(c):
    return [(v, prim_spec(c, v), 0., needs(v)) for v in extract.OUT]


def each(rep, cases, f, label, G, get=None, specs=prim_specs):
    """f(c, o, a, r, q) on every returning path of every case"""
    get = get or (lambda r, q: prim(r) if q is None else values_of(r, q))
    for c, q in cases:
        def go():
            try:
                outs = c.run(q)
            except SUP as e:
                G.fail_all('as specified', c, specs(c), q, get, getattr(e, 'pc', ()))
                raise
            except Exception:
                G.fail_all('as specified', c, specs(c), q, get)
                raise
            if not any(o.kind == 'return' for o in outs):
                G.on(c, outs[0] if outs else None, None, q, get)
                G.fail('returns', 'zenith', None, mode='raise')
                f(c, None, None, None, None)
            for o in outs:
                if o.kind == 'return':
                    a, r, v = o.value
                    G.on(c, o, a, q, get)
                    if q is not None and not isinstance(v, dict):
                        G.fail('no exception', 'zenith', None, mode='raise')
                    f(c, o, a, r, v)
            if crossed(rep, c, outs, q, get):
                G.fail_all('as specified', c, specs(c), q, get)
        guarded(rep, '%s: %s' % (label, c), go)


def accepts(rep, c, outs, v):
    """inputs on which each path runs: does the real code return exactly for the valid ones (v), as the paths do?"""
    rng = np.random.default_rng(rep.seed)
    for o, goal in [(o, None) for o in outs] + [(o, g) for o in outs for g in (v if o.kind == 'return' else tm.not_(v),)
                                                if not implied(o.pc, g)]:
        for sizes, m in replay.models(o, goal, False):
            inp = replay.Inputs(c, rng, sizes, None, 0., replay.model_content(m), raw=True)
            K, J, I = inp.n
            with np.errstate(all='ignore'):
                ok = bool((np.isnan(inp.la) | (abs(inp.la) <= 90)).all() and (np.isnan(inp.lo) | (inp.lo >= -180) & (
                    inp.lo < 180)).all() and (c.uc != 'sites' or J == I) and (c.uc != 'transect' or K == J == I))
            rep.count('cross-check of the extracted paths with the real code', 1)
            try:
                replay.call(c, inp)
                e = None
            except Exception as x:
                e = x
            if (e is None) != ok:
                rep.violation('%s.%s' % (rep.prop, 'accepts' if ok else 'rejects'), '%s: %s' % (
                    c, 'valid input rejected: %s: %s' % (type(e).__name__, e) if ok else 'invalid input accepted'), inp.text())
            if (e is None) != (o.kind == 'return'):
                rep.obligation('extracted paths agree with the real code: %s' % c, 'undecided', 'cross-check', 0.,
                               'real: %r, path: %s' % (e, o.kind))
            break


def crossed(rep, c, outs, q, get):
    """the terms of a case against real results (bounded)"""
    if c.kind == 'naive array' and c.unit not in ('ns', 'us', 'ms', 's'):
        return
    t0 = time.time()
    bad = replay.cross(rep, c, outs, q, get, seed=rep.seed)
    rep.cross_secs = getattr(rep, 'cross_secs', 0.) + time.time() - t0
    if bad:
        rep.obligation('extracted terms agree with real results: %s' % c, 'undecided', 'cross-check', 0., bad[:3])
    return bad


def instant(c, a):
    """where no input instant is missing"""
    return tm.mk('isnan', (tm.mk('sel', api.positions(c.uc, a)['T'][0], 'T'),))


def times_obligations(G, N, c, o, a, r):
    pc = list(o.pc) + c.inside(a)

    def same_instants(nm, arr, want):
        if arr.ndim != 1 or arr.dtype != np.dtype('M8[ns]'):
            return G.add(nm, False, '%s: %s, %d-dim' % (c, arr.dtype, arr.ndim))
        t = frames.lane_over(arr, ('time',), api.CANON)
        G.add(nm + ': missing exactly where the input is', implied(pc, iff(sym.nanof(t), instant(c, a))), c, 'z3')
        g = c.flat(t, a)
        G.add(nm, N.equal(g, want), c)
    T, off = c.T_ns, c.off(a)
    for nm, t, tz in (('times', r.times, a.tz), ('times_utc', r.times_utc, frames.UTC),
                      ('local_standard_time', r.local_standard_time, a.tz)):
        if not isinstance(t, frames.Times):
            G.add('%s are times' % nm, False, c)
            continue
        G.add('%s are in %s' % (nm, 'UTC' if nm == 'times_utc' else 'the input time zone'), t.tz is tz, c, 'pyded')
        same_instants('%s are the input instants, in the given order' % nm, t._a, T)
    G.add('timezone names the input time zone', isinstance(r.timezone, str) and r.timezone == a.zone, c, 'pyded')
    for v in extract.OUT:
        co = getattr(r, v)._c.get('time')
        if co is None or co[0] != ('time',):
            G.add('time coordinate', False, '%s: %s' % (c, v))
            continue
        same_instants('the time coordinate is the local wall-clock time of the instants', co[1], tm.add(T, off))


def p_C10(rep):
    base(rep)
    rep.function('_base.Sunpos.times', '_base.Sunpos.times_utc', '_base.Sunpos.local_standard_time',
                 '_base.Sunpos.timezone')
    N = nf.NF()
    for uc in api.DIMS:
        G = Groups(rep, 'usecases.%s: ' % uc)

        def f(c, o, a, r, q):
            if o is None:
                return G.add('returns for some input', False, c)
            sides(G, c, o)
            for v in extract.OUT:
                g = c.el(getattr(r, v), a)
                if g.op == 'nan':
                    continue
                G.eq(N, '%s is that of the UTC instant, to the whole second, however written' % v, v, g, prim_spec(c, v), w=needs(v))
            times_obligations(G, N, c, o, a, r)
        cs = [(c, None) for c in all_cases(refs=(True,)) if c.uc == uc]
        cs += [(Case(uc, kind, CFG[0], True, unit=u), None) for u in ('D', 'h', 'm', 's', 'ms', 'us')
               for kind in ('naive array', 'naive index', 'aware index (pytz)', 'naive scalar', 'UTC index')
               if u in 's ms us' or kind in ('naive array', 'naive scalar')]
        each(rep, cs, f, 'usecases.%s' % uc, G)
        G.close()
    return 'proof', 'API layer run symbolically with times of every kind and unit; time zones arbitrary functions of the instant'


FULL = ('zenith', 'azimuth', 'sza', 'saa', 'elevation', 'cosz', 'eth', 'airmass')
FREE = ('incidence', 'sunrise_utc', 'sunrise_local', 'sunset_utc', 'sunset_local', 'sunset_tst', 'true_solar_time')
PARTS = {'sunrise': ('T', 'LAT'), 'sunset_rad': ('T', 'LAT'), 'sunset': ('T', 'LAT'), 'daylight': ('T', 'LAT'), 'sunrise_rad': ('T', 'LAT'),
         'latitude': ('LAT',), 'longitude': ('LON',)}


def all_quantities(r):
    s = lambda *x: [scalar(y) for y in x]    # noqa: E731
    q = {k: getattr(r, k) for k in ('zenith', 'azimuth', 'declination', 'dec', 'eot', 'ecf', 'sza', 'saa', 'elevation',
                                    'cosz', 'latitude', 'longitude', 'true_solar_time')}
    q.update(eth=r.eth(*s(ISC)), airmass=r.airmass(), incidence=r.incidence(*s(SLOPE, GAMMA)), sunrise=r.sunrise(),
             sunset=r.sunset(), daylight=r.daylight_length())
    for u in ('rad', 'tst', 'utc', 'local'):
        q['sunrise_' + u] = r.sunrise(u)
        q['sunset_' + u] = r.sunset(u)
    for p in AIRMASS:
        q['airmass_' + p] = r.airmass(p)
    for p in ETH:
        q['eth_' + p] = r.eth(scalar(ISC), p)
    return q


def p_C11(rep):
    from . import mon_api
    base(rep)
    rep.function(*METHODS, '_base.Sunpos.latitude', '_base.Sunpos.longitude', '_base.Sunpos.usecase',
                 '_base.Sunpos.algorithm', '_base.Sunpos.engine', '_base.Sunpos.has_refraction')
    N = nf.NF()
    units = dict(mon_api.UNITS, sunset_utc='UTC', sunrise_tst='TST', sunset_rad='radians')
    names = dict(mon_api.NAMES)
    for p in AIRMASS:
        names['airmass_' + p], units['airmass_' + p] = 'airmass', '-'
    for p in ETH:
        names['eth_' + p], units['eth_' + p] = 'eth', 'W m-2'
    for uc, full in api.DIMS.items():
        G = Groups(rep, 'usecases.%s: ' % uc)

        def f(c, o, a, r, q):
            if o is None or not isinstance(q, dict):
                return G.add('every quantity is computed', False, '%s: %s' % (c, q and q[1]))
            pc = list(o.pc) + c.inside(a)
            pos = {'latitude': api.LAT_, 'longitude': api.LON_, 'location': api.CANON['location'],
                   'time': tm.add(c.T_ns, c.off(a))}
            site = {'sites': 'location', 'transect': 'time'}
            cdims = {'time': ('time',), 'location': ('location',), 'latitude': (site.get(uc, 'latitude'),),
                     'longitude': (site.get(uc, 'longitude'),)}
            for k, x in q.items():
                if k in FULL or k.startswith(('airmass_', 'eth_')):
                    G.add('dimensions of %s' % k, x.dims == full, '%s: %s' % (c, x.dims), 'pyded')
                elif k in ('declination', 'dec', 'eot', 'ecf'):
                    G.add('dimensions of %s' % k, x.dims == ('time',), '%s: %s' % (c, x.dims), 'pyded')
                elif k in ('latitude', 'longitude'):
                    G.add('dimensions of %s' % k, x.dims == cdims[k], '%s: %s' % (c, x.dims), 'pyded')
                elif k in PARTS:
                    G.add('dimensions of %s' % k, set(x.dims) == {'time', cdims['latitude'][0]}, '%s: %s' % (c, x.dims),
                          'pyded')
                elif k == 'true_solar_time' and uc == 'regular_grid':
                    G.add('dimensions of %s' % k, set(x.dims) == {'time', 'longitude'}, '%s: %s' % (c, x.dims), 'pyded')
                else:
                    G.add('dimensions of %s' % k, set(x.dims) == set(full), '%s: %s' % (c, x.dims), 'pyded')
                # one value per label: the sizes of the dimensions are those of the inputs
                for d, n in zip(x.dims, x._d.shape):
                    ax = {'time': a.K, 'location': a.J, 'latitude': a.J, 'longitude': a.I}[d]
                    src = {'time': not a.scalar_time, 'location': c.lat != 'scalar', 'latitude': c.lat != 'scalar',
                           'longitude': c.lon != 'scalar'}[d]
                    G.add('sizes are those of the inputs', implied(o.pc, tm.eq(sym.toint(n), ax.size if src else tm.ONE)),
                          '%s: %s %s' % (c, k, d), 'z3')
                need = set(x.dims) | ({'latitude', 'longitude'} if set(x.dims) == set(full) and k in FULL else set())
                for d in need:
                    v = x._c.get(d)
                    if v is None or v[0] != cdims[d]:
                        G.add('coordinate %s present' % d, False, '%s: %s' % (c, k))
                        continue
                    t = frames.lane_over(v[1], v[0], api.CANON)
                    w = {'time': 'T', 'latitude': 'LAT', 'longitude': 'LON'}.get(d)
                    if w:
                        G.add('coordinate %s is missing only where the input is' % d,
                              implied(pc, iff(sym.nanof(t), c.missing(a, (w,)))), '%s: %s' % (c, k), 'z3')
                    g = c.flat(t, a)
                    if d == 'location' and c.lat == 'scalar' and g is tm.ZERO:
                        continue        # of size one
                    if g.op == 'nan' or implied(pc, c.missing(a, (w,)) if w else tm.FALSE):
                        continue
                    G.add('coordinate %s holds the inputs in the given order' % d, N.equal(g, pos[d]),
                          '%s: %s' % (c, k))
                if k in names:
                    G.add('name of %s' % k, x.name == names[k], '%s: %s' % (c, x.name), 'pyded')
                if k in ('sunrise_local', 'sunset_local'):
                    G.add('units of %s' % k, x.attrs.get('units') == r.timezone, '%s: %s' % (c, x.attrs.get('units')), 'pyded')
                if k in units:
                    G.add('units of %s' % k, x.attrs.get('units') == units[k], '%s: %s' % (c, x.attrs.get('units')), 'pyded')
            # selecting by label gives the value of that instant and place
            for k in ('zenith', 'azimuth', 'declination', 'eot', 'ecf'):
                g = c.el(q[k], a)
                if g.op != 'nan':
                    G.eq(N, '%s at given labels is that of that instant and place' % k, k, g, prim_spec(c, k), w=needs(k))
            for k, y in (('latitude', api.LAT_), ('longitude', api.LON_)):
                g = c.el(q[k], a)
                if g.op != 'nan':
                    G.eq(N, '%s holds the inputs' % k, k, g, y, w=(k[:3].upper(),))
            G.add('usecase, algorithm, engine and has_refraction say what was computed',
                  (r.usecase, r.algorithm, r.engine, bool(r.has_refraction)) == (uc, c.cfg[0], c.cfg[1], bool(c.ref)), c, 'pyded')
        cs = [(c, all_quantities) for c in all_cases(kinds=('naive array', 'aware index (pytz)', 'aware scalar'),
                                                     cfgs=CFG) if c.uc == uc]
        each(rep, cs, f, 'usecases.%s' % uc, G)
        G.close()
    return 'proof', 'labels of every quantity of symbolic results of any size'


# ------------------------------------------------------------------ C12 - C16, C20

KINDS3 = ('naive array', 'aware index (pytz)', 'aware scalar')
TOLNS = 10**6       # 0.001 s


def derived_cases(uc, kinds=KINDS3, refs=(True, False)):
    for kind in kinds:
        for i, cfg in enumerate(CFG):
            for ref in refs:
                yield Case(uc, kind, cfg, ref)
    for kind in ('naive array', 'aware scalar'):
        if uc == 'transect' and kind == 'naive array':
            continue
        yield Case(uc, kind, CFG[0], True, 'scalar', 'scalar')
    for how in api.LOCS:
        yield Case(uc, 'naive array', CFG[0], True, how, how)
    for kind in api.WRITTEN:
        yield Case(uc, kind, CFG[0], True)


def quantity_proof(rep, prefix, quantities, obligations, specs, refs=(True, False)):
    """obligations(G, N, c, o, a, r, q) on every path of every case"""
    base(rep)
    for uc in api.DIMS:
        G = Groups(rep, '%s[%s]: ' % (prefix, uc))
        N = nf.NF()

        def f(c, o, a, r, q):
            if o is None or not isinstance(q, dict):
                return G.add('no exception', False, '%s: %s' % (c, q and q[1:]))
            sides(G, c, o)
            if all(c.el(q_, a).op == 'nan' for k, q_ in q.items() if isinstance(q_, frames.DA)):
                return          # scalar inputs, missing
            obligations(G, N, c, o, a, r, q)
        each(rep, [(c, quantities) for c in derived_cases(uc, refs=refs)], f, '%s[%s]' % (prefix, uc), G,
             specs=specs)
        G.close()


def exact_tst(c):
    return tm.add(c.T_ns, tm.mul(60 * 10**9, tm.add(c.V('eot'), tm.mul(4, api.LON_))))


def p_C12(rep):
    rep.function('_base.Sunpos.true_solar_time')

    def q(r):
        return {'tst': r.true_solar_time}

    def obl(G, N, c, o, a, r, q):
        x = q['tst']
        G.add('true_solar_time are instants', x.dtype == np.dtype('M8[ns]'), x.dtype, 'pyded')
        pc = list(o.pc) + c.inside(a)
        G.nan('missing exactly where the instant or longitude is', 'tst', pc,
              iff(sym.nanof(c.raw(x)), c.missing(a, ('T', 'LON'))), exact_tst(c), ('T', 'LON'))
        G.eq(N, 'UTC instant + equation of time + 4 minutes per degree, to 0.001 s', 'tst', c.el(x, a), exact_tst(c), TOLNS,
             ('T', 'LON'))
    quantity_proof(rep, '_base.Sunpos.true_solar_time', q, obl, lambda c: [('tst', exact_tst(c), TOLNS, ('T', 'LON'))])
    return 'proof', 'element term of the true solar time of symbolic results of any size'


def sunset_quantities(r):
    q = {'tst': r.true_solar_time, 'daylight': r.daylight_length()}
    for u in ('deg', 'rad', 'tst', 'utc', 'local'):
        q['sunrise_' + u] = r.sunrise(u)
        q['sunset_' + u] = r.sunset(u)
    return q


def abstract(N, t, what, by):
    """t with the products that equal a multiple of `what`, by normal form, written as that multiple of `by`"""
    w = N.poly(what)
    m0 = min(w, key=lambda m: tuple((a.id, e) for a, e in m))
    syms = tm.free(what)

    def f(u):
        if u.op in ('mul', 'div', 'add') and not tm.is_bool(u) and syms <= tm.free(u):
            p = N.poly(u)
            k = p.get(m0)
            if k and p == N.pscale(w, k / w[m0]):
                return tm.mul(tm.const(k / w[m0]), by)
        return None
    return tm.rewrite(t, f)


def within_unit(t, P):
    """t, where |P| <= 1"""
    pc = [tm.le(P, 1), tm.le(-1, P)]

    def f(u):
        if u.op in ('max', 'min') and tm.free(u) == {P}:
            for x, y in (u.args, u.args[::-1]):
                if implied(pc, tm.le(y, x) if u.op == 'max' else tm.le(x, y)):
                    return x
        if u.op == 'ite' and tm.free(u.args[0]) == {P}:
            for c, v in ((u.args[0], u.args[1]), (tm.not_(u.args[0]), u.args[2])):
                if implied(pc, c):
                    return v
        return None
    return tm.rewrite(t, f)


def p_C13(rep):
    rep.function('_base.Sunpos.sunrise', '_base.Sunpos.sunset', '_base.Sunpos.daylight_length')

    P, dsym = tm.sym('tanDtanP'), tm.sym('day')
    tm.declare_int('day')
    outside = tm.or_(tm.lt(1, P), tm.lt(P, -1))
    w = tm.fn('acos', tm.neg(P))

    def product(c):
        return tm.mul(tm.fn('tan', c.V('declination')), tm.fn('tan', rad(api.LAT_)))

    def need(k):
        return ('T', 'LAT') if k.endswith(('deg', 'rad')) or k == 'daylight' else ('T', 'LAT', 'LON')

    def spec(c, k, y, day):
        """in the original symbols"""
        tt = product(c)
        return tm.ite(tm.subst(outside, {P: tt}), tm.NAN, tm.subst(y, {P: tt, dsym: day}))

    def specs(c):
        day = tm.fn('floor', tm.div(exact_tst(c), DAYNS))
        return [(k, spec(c, k, y, day), TOLNS if k.split('_')[-1] in ('tst', 'utc', 'local') else 1e-7, need(k))
                for k, y in wanted(c).items()]

    def wanted(c):
        H = 3600 * 10**9
        shift = tm.mul(60 * 10**9, tm.add(c.V('eot'), tm.mul(4, api.LON_)))
        off = api.OFF_ if c.kind.startswith('aware') else tm.ZERO
        wd = deg(w)

        def at(sign):
            t = tm.add(tm.mul(DAYNS, dsym), tm.mul(H, tm.add(12, tm.div(tm.mul(sign, wd), 15))))
            return {'tst': t, 'utc': tm.sub(t, shift), 'local': tm.add(tm.sub(t, shift), off)}
        want = {'daylight': tm.div(tm.mul(2, wd), 15)}
        for nm, s in (('sunrise', -1), ('sunset', 1)):
            t = at(s)
            want.update({nm + '_deg': tm.mul(-s, wd), nm + '_rad': tm.mul(-s, w)})
            want.update({nm + '_' + u: t[u] for u in t})
        return want

    def obl(G, N, c, o, a, r, q):
        day = sym.convert_unit(c.el(q['tst'], a), 'ns', 'D')
        tt = product(c)
        for k, y in wanted(c).items():
            raw = c.raw(q[k])
            g = full = c.flat(raw, a)
            g = abstract(N, tm.subst(g, {day: dsym}), tt, P)
            # where is it missing, all inputs being there?
            nan = sym.nanof(g)
            nm = '%s is NaN exactly when |tan(declination) tan(latitude)| > 1' % k
            ok = implied([], iff(nan, outside)) if tm.free(nan) <= {P} else None
            if not ok:
                G.fail(nm, k, spec(c, k, y, day), TOLNS, need(k), full)
            G.add(nm, ok, '%s: %s' % (c, tm.show(nan, 4)), 'z3')
            v = within_unit(strip_nan(g), P)
            dts = q[k].dtype
            if k.split('_')[-1] in ('tst', 'utc', 'local'):
                G.add('%s are instants' % k, dts == np.dtype('M8[ns]'), '%s %s' % (c, dts), 'pyded')
                nm, ok, tol = '%s as stated, to 0.001 s' % k, close(N, v, y, TOLNS), TOLNS
            else:
                nm, ok, tol = '%s as stated' % k, bool(N.equal(v, y)), 1e-7
            if not ok:
                G.fail(nm, k, spec(c, k, y, day), tol, need(k), full)
            G.add(nm, ok or None, c)
    quantity_proof(rep, '_base.Sunpos.sunrise/sunset/daylight_length', sunset_quantities, obl, specs)
    return 'proof', 'element terms of sunrise, sunset and daylight length of symbolic results of any size'


def strip_nan(t):
    """the value of t where it is not NaN"""
    def f(u):
        if u.op == 'ite':
            if u.args[2].op == 'nan':
                return u.args[1]
            if u.args[1].op == 'nan':
                return u.args[2]
        return None
    return tm.rewrite(t, f)


def p_C14(rep):
    rep.function('_base.Sunpos.eth')

    def q(r):
        d = {'none': r.eth(scalar(ISC)), 'none2': r.eth(scalar(ISC), 'none'), 'kw': r.eth(ISC=scalar(ISC), am_correction='none'),
             'default': r.eth(), 'sza': r.sza, 'ky': r.airmass('kasten_and_young_1989'), 'g3': r.airmass('gueymard_2003')}
        for p in ETH:
            d[p] = r.eth(scalar(ISC), p)
        return d

    def specs(c):
        z = c.V('zenith')
        b = tm.mul(ISC, c.V('ecf'), tm.fn('max', tm.ZERO, tm.fn('cos', z)))
        am = {k: airmass_full(k, z) for k in ('kasten_and_young_1989', 'gueymard_2003')}
        return [(k, b, 0., api.ALL) for k in ('none', 'none2', 'kw')] + [
            ('default', tm.subst(b, {ISC: tm.const(Fraction('1361.1'))}), 0., api.ALL)] + [
            (p, tm.mul(b, x), 0., api.ALL) for p, x in corrections(*am.values(), deg(z)).items()]

    def corrections(ky, g3, z):
        k = lambda s: tm.const(Fraction(s))      # noqa: E731
        return {
            'perez_1990': tm.add(k('0.1'), tm.mul(k('1.031'), tm.fn('exp', tm.div(
                k('-1.4'), tm.add(k('0.9'), tm.div(k('9.4'), ky)))))),
            'skarveith_1998': tm.sub(k('0.83'), tm.mul(k('0.56'), tm.fn('exp', tm.mul(k('-0.06'), tm.sub(90, z))))),
            'gonzalez_and_calbo_1999': tm.add(k('0.229'), tm.mul(k('0.957'), tm.fn('exp', tm.mul(
                k('-1.74'), g3, tm.sub(k('0.124'), tm.mul(k('0.0285'), tm.fn('log', g3)))))))}

    def obl(G, N, c, o, a, r, q):
        e = {k: c.el(x, a) for k, x in q.items()}
        cosz = tm.fn('cos', c.V('zenith'))
        b = tm.mul(ISC, c.V('ecf'), tm.fn('max', tm.ZERO, cosz))
        for k in ('none', 'none2', 'kw'):
            G.eq(N, 'uncorrected: ISC x ecf x max(0, cos(zenith))', k, e[k], b)
        G.eq(N, 'default ISC 1361.1 W m-2', 'default', e['default'], tm.subst(b, {ISC: tm.const(Fraction('1361.1'))}))
        nan = {x: sym.nanof(e[x]) for x in ('ky', 'g3')}
        ky, g3 = strip_nan(e['ky']), strip_nan(e['g3'])
        z = deg(c.V('zenith'))
        of = {'perez_1990': nan['ky'], 'gonzalez_and_calbo_1999': nan['g3'], 'skarveith_1998': tm.FALSE}
        for p, corr in corrections(ky, g3, z).items():
            n = of[p]
            v = strip_nan(e[p])
            spec = tm.ite(n, tm.NAN, tm.mul(b, corr))
            nm, ok = '%s: the uncorrected value times the documented factor' % p, bool(N.equal(v, tm.mul(b, corr)))
            if not ok:
                G.fail(nm, p, spec, 0., got=e[p])
            G.add(nm, ok or None, c)
            nm, ok = '%s: NaN exactly where its air mass is' % p, implied([], iff(sym.nanof(e[p]), n))
            if not ok:
                G.fail(nm, p, spec, 0., got=e[p])
            G.add(nm, ok, c, 'z3')
    quantity_proof(rep, '_base.Sunpos.eth', q, obl, specs)
    G = Groups(rep)
    unknown_raises(rep, G, '_base.Sunpos.eth: an unknown correction raises ValueError',
                   lambda r, n: r.eth(scalar(ISC), n), ETH + ('none',))
    G.close()
    return 'proof', 'element term of eth of symbolic results of any size, with each correction'


class Opaque(str):
    """a string about which nothing is known except that it equals none of the known names"""
    def __new__(cls, known):
        s = str.__new__(cls, '\ue000unknown')
        s.known = set(known)
        return s

    def __eq__(self, o):
        if isinstance(o, str) and not isinstance(o, Opaque) and o not in self.known:
            raise SUP('comparison of an unknown name with %r, which is none of the documented ones' % o)
        return self is o

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return str.__hash__(self)


def odd(known):
    """values that resemble the known names or are falsy: a string about which nothing is known stands for the others"""
    r = [None, '', 0, False, True, 'none', 'default', 'auto', 'unknown', 'sg2', 'numba', (), 1.5]
    for k in known:
        r += [k.upper(), k.title(), k + ' ', ' ' + k, k[:-1], k[:3], k + '2', k.encode(), k.replace('_', ''), k.replace('_', '-'), (k,)]
    return [x for x in dict.fromkeys(r) if x not in known]


def rejected(rep, nm, c):
    """a call that must fail, on the real code"""
    if isinstance(c.cfg[0], Opaque) or isinstance(c.cfg[1], Opaque) or c.ndim != (1, 1, 1):
        return
    inp = replay.Inputs(c, np.random.default_rng(1), (2, 2, 2), None, 0., raw=True)
    try:
        replay.call(c, inp)
    except Exception:
        return
    rep.violation('%s.usecases.%s: %s' % (rep.prop, c.uc, nm), '%s: returns' % c, inp.text())


def _opaque_method(k):
    def f(self, *a, **kw):
        raise SUP('%s of an unknown name' % k)
    return f


for _k in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'replace', 'split', 'casefold', 'title', 'capitalize',
           '__contains__', '__getitem__', '__len__', '__iter__', 'find', 'lstrip', 'rstrip', '__lt__', '__le__', '__gt__',
           '__ge__', '__add__', 'encode', 'isalpha', 'isidentifier', 'removeprefix', 'removesuffix', 'partition'):
    setattr(Opaque, _k, _opaque_method(_k))


def unknown_raises(rep, G, name, f, known):
    for uc in api.DIMS:
        c = Case(uc)

        def outcome(r, n):
            try:
                f(r, n)
            except ValueError:
                return 'ValueError'
            except (SUP, sym.Infeasible):
                raise
            except Exception as e:
                return type(e).__name__
            return 'returned'

        def q(r):
            return [(n, outcome(r, n)) for n in [Opaque(known)] + odd(known) if n != ()]

        def go():
            for o in c.run(q):
                if o.kind == 'return':
                    for n, x in o.value[2]:
                        # numbers, bytes, ... may fail in other ways
                        ok = x == 'ValueError' or not isinstance(n, (str, type(None))) and x != 'returned'
                        G.add(name, ok, '%s: %r: %s' % (c, 'any other' if isinstance(n, Opaque) else n, x), 'pyded')
                        if not ok and not isinstance(n, Opaque) and not rep.violations:
                            inp = replay.Inputs(c, np.random.default_rng(1), (2, 2, 2), None, 0.)
                            _, real = replay.call(c, inp, lambda r: outcome(r, n))
                            if real == x:
                                rep.violation('%s.%s' % (rep.prop, name), 'name %r: %s' % (n, x), inp.text() + 'name = %r\n' % (n,))
        guarded(rep, name, go)


def airmass_spec(p, z, cosz):
    k = lambda s: tm.const(Fraction(s))      # noqa: E731
    top, a, b, s = {'kasten_1965': ('93.885', '0.15', '-1.253', None),
                    'kasten_and_young_1989': ('96.07995', '0.50572', '-1.6364', None),
                    'gueymard_2001': ('96.4836', '0.45665', '-1.697', '0.07'),
                    'gueymard_2003': ('96.741', '0.48353', '-1.754', '0.095846')}[p]
    t = tm.mul(k(a), tm.power(tm.fn('max', k('0.0001'), tm.sub(k(top), z)), k(b)))
    if s:
        t = tm.mul(t, tm.power(z, k(s)))
    return tm.div(tm.ONE, tm.add(cosz, t))


def airmass_full(p, z):
    """air mass at the zenith angle z (radians)"""
    return tm.ite(tm.lt(90, deg(z)), tm.NAN, tm.fn('max', tm.ONE, airmass_spec(p, deg(z), tm.fn('cos', z))))


ZD = tm.sym('zdeg')


def degrees_condition(N, c, z):
    """a condition on the angle z (radians), on ZD (degrees)"""
    def f(u):
        return N.cond(u) if u.op in ('lt', 'le', 'eq') and not tm.is_bool(u.args[0]) else None
    return tm.rewrite(tm.subst(c, {z: tm.div(tm.mul(ZD, tm.PI), 180)}), f)


def p_C15(rep):
    rep.function('_base.Sunpos.airmass')
    Z = tm.sym('z')

    def q(r):
        d = {p: r.airmass(p) for p in AIRMASS}
        d['default'] = r.airmass()
        return d
    seen = {}

    def obl(G, N, c, o, a, r, q):
        for p in AIRMASS + ('default',):
            full = c.el(q[p], a)
            g = tm.subst(full, {c.V('zenith'): Z})
            nan, v = sym.nanof(g), strip_nan(g)
            zd, cz = deg(Z), tm.fn('cos', Z)
            pp = 'gueymard_2003' if p == 'default' else p
            seen.setdefault((g, pp), []).append(c)
            key = (g, pp)
            if len(seen[key]) == 1:
                n = degrees_condition(N, nan, Z)
                ok1 = implied([], iff(n, tm.lt(90, ZD))) if tm.free(n) <= {ZD} and not tm.atoms([n], ('cos', 'sin')) else None
                spec = airmass_spec(pp, zd, cz)
                ok2, ok3 = clipped_value(N, v, spec)
                seen[key] += [ok1, ok2, ok3]
            ok1, ok2, ok3 = seen[key][1:4]
            if not (ok1 and ok2 and ok3):
                G.fail('%s: as stated' % pp, p, airmass_full(pp, c.V('zenith')), 0., got=full)
            G.add('%s: NaN exactly when zenith > 90 degrees' % pp, ok1, c, 'z3')
            G.add('%s: the cited formula of the zenith, raised to 1 at least' % pp, ok2, c)
            G.add('%s: never below 1' % pp, ok3, c, 'structure')
            if p == 'default':
                G.add('the default is gueymard_2003', g is tm.subst(c.el(q[pp], a), {c.V('zenith'): Z}), c)
    quantity_proof(rep, '_base.Sunpos.airmass', q, obl, lambda c: [
        (p, airmass_full('gueymard_2003' if p == 'default' else p, c.V('zenith')), 0., api.ALL) for p in AIRMASS + ('default',)])
    for p in AIRMASS:
        d = tm.sym('zdeg')
        z = tm.div(tm.mul(d, tm.PI), 180)
        spec = airmass_spec(p, d, tm.fn('cos', z))
        den = spec.args[1] if spec.op == 'div' else tm.div(tm.ONE, spec)
        for nm, e, lo, hi, dom in (
                ('finite up to 90 degrees: its denominator stays above 0.02', den, .02, 2, geom.box1(0, 90, 64)),
                ('within 0.002 of 1 overhead', spec, .998, 1.002, geom.box1(0, 0)),
                ('between 29 and 41 at the horizon', spec, 29, 41, geom.box1(90, 90))):
            t0 = time.time()
            r = bb.prove(e, lo, hi, {d: dom}, [d])
            rep.obligation('the formula of %s: %s' % (p, nm), r.status if r.status == 'proved' else 'undecided',
                           'interval branch and bound', time.time() - t0, r.detail)
    G = Groups(rep)
    unknown_raises(rep, G, '_base.Sunpos.airmass: an unknown parameterization raises ValueError',
                   lambda r, n: r.airmass(n), AIRMASS)
    G.close()
    return 'proof', 'element term of airmass of symbolic results of any size; ranges of the formulas by interval branch and bound'


def clipped_value(N, v, spec):
    """is v = max(1, spec), possibly with an upper limit of infinity"""
    if v.op == 'max':
        c = [x for x in v.args if x is tm.ONE]
        r = [x for x in v.args if x is not tm.ONE]
        if len(c) == 1 and len(r) == 1:
            return bool(N.equal(r[0], spec)), True
    return bool(N.equal(v, tm.fn('max', tm.ONE, spec))), None


def p_C16(rep):
    from . import posit, proofs
    rep.function('_base.Sunpos.incidence')
    for n in extract.MODULES.values():
        rep.function('libspa.%s.sunpos' % n)

    def q(r):
        return {'inc': r.incidence(scalar(SLOPE), scalar(GAMMA)), 'tst': r.true_solar_time,
                'flat': r.incidence(scalar(tm.ZERO), scalar(GAMMA))}

    def specs(c):
        x, cz = wanted(c, exact_tst(c))
        return [('inc', x, 1e-7, api.ALL), ('flat', cz, 1e-7, api.ALL), ('tst', exact_tst(c), TOLNS, ('T', 'LON'))]

    def wanted(c, tst):
        d = c.V('declination')
        la, b, g = rad(api.LAT_), rad(SLOPE), rad(GAMMA)
        H = tm.sub(tm.mul(tm.div(tm.mul(2, tm.PI), DAYNS), tst), tm.PI)
        cos, sin = [lambda x, f=f: tm.fn(f, x) for f in ('cos', 'sin')]
        cz = tm.add(tm.mul(sin(la), sin(d)), tm.mul(cos(la), cos(d), cos(H)))
        south = tm.sub(tm.mul(sin(la), cos(d), cos(H)), tm.mul(cos(la), sin(d)))
        west = tm.mul(cos(d), sin(H))
        return tm.add(tm.mul(cos(b), cz), tm.mul(sin(b), tm.sub(tm.mul(cos(g), south), tm.mul(sin(g), west)))), cz

    def obl(G, N, c, o, a, r, q):
        tst = c.el(q['tst'], a)
        want, cz = wanted(c, tst)
        x = c.el(q['inc'], a)
        G.eq(N, 'the normal times the direction of declination and true-solar-time hour angle, whatever slope, orientation, '
             'latitude', 'inc', x, want)
        G.eq(N, 'horizontal surface: the cosine of the zenith of that direction', 'flat', c.el(q['flat'], a), cz)
        G.eq(N, 'true solar time is UTC + equation of time + 4 minutes per degree, to 0.001 s', 'tst', tst, exact_tst(c), TOLNS,
             ('T', 'LON'))
        pc = list(o.pc) + c.inside(a)
        G.nan('NaN exactly where an input is missing', 'inc', pc, iff(sym.nanof(c.raw(q['inc'])), c.missing(a)), want)
    quantity_proof(rep, '_base.Sunpos.incidence', q, obl, specs)
    for (algo, eng), mod in extract.MODULES.items():
        N = nf.NF(positive=posit.positive)
        cfg = [(algo, eng)]
        f = proofs.direction(rep, N, mod, cfg)
        nm = 'libspa.%s.sunpos: ' % mod
        if f is None:
            continue
        S, C = proofs.hour_error(N, f.H0, f.q['eot'])
        if {extract.t_} < tm.free(S):
            rep.obligation(nm + 'hour angle minus that of the equation of time depends on the instant alone', 'undecided',
                           'pyded.nf')
            continue
        # the position is that of the whole second, the true solar time that of the instant (and 0.001 s)
        tol = 5e-4 - sum(f.sh.values()) - 2 * np.pi / 86400 * 1.002
        r, s = proofs.timed(proofs.prove_t, S, -np.sin(tol), np.sin(tol), proofs.SPAN)
        proofs.from_bb(rep, nm + 'hour angle is UT + longitude + equation of time to within 0.0005 rad less the parallax '
                       'and one second of time (sine)', r, secs=s, cfg=cfg)
        r, s = proofs.timed(proofs.prove_t, C, .9, 1.1, proofs.SPAN)
        proofs.from_bb(rep, nm + 'the same, cosine', r, secs=s, cfg=cfg)
    return 'proof', ('incidence equals the scalar product of normal and direction of (declination, hour angle) by normal form; '
                     'that direction is within 0.0005 rad of the reported one by interval branch and bound')


def alias(c):
    return {'elevation': tm.sub(90, deg(c.V('zenith'))), 'cosz': tm.fn('cos', c.V('zenith')), 'sza': deg(c.V('zenith')),
            'saa': deg(c.V('azimuth')), 'dec': deg(c.V('declination'))}


def p_C20(rep):
    rep.function(*['_base.Sunpos.' + x for x in ('zenith', 'azimuth', 'elevation', 'cosz', 'sza', 'saa', 'dec', 'declination',
                                                 'local_standard_time')])

    def q(r):
        return {k: getattr(r, k) for k in ('zenith', 'azimuth', 'declination', 'elevation', 'cosz', 'sza', 'saa', 'dec')}

    def obl(G, N, c, o, a, r, q):
        e = {k: c.el(x, a) for k, x in q.items()}
        n = {k: sym.nanof(c.raw(x)) for k, x in q.items()}
        Z = e['zenith']
        for k, w, of in (('zenith', deg(c.V('zenith')), 'zenith'), ('azimuth', deg(c.V('azimuth')), 'azimuth'),
                         ('declination', deg(c.V('declination')), 'declination'),
                         ('elevation', tm.sub(90, Z), 'zenith'), ('cosz', tm.fn('cos', rad(Z)), 'zenith'),
                         ('sza', Z, 'zenith'), ('saa', e['azimuth'], 'azimuth'), ('dec', e['declination'], 'declination')):
            txt = {'elevation': 'is 90 minus zenith', 'cosz': 'is the cosine of zenith', 'sza': 'is zenith', 'saa': 'is azimuth',
                   'dec': 'is declination'}.get(k, 'is in degrees')
            if k in ('zenith', 'azimuth', 'declination'):
                spec = w
            else:
                spec = alias(c)[k]
            G.eq(N, '%s %s' % (k, txt), k, e[k], w, w=needs(of), spec=spec)
            pc = list(o.pc) + c.inside(a)
            G.nan('%s is NaN exactly where %s is' % (k, of), k, pc, iff(n[k], n[of]), spec, needs(of))
            G.add('dimensions of %s' % k, q[k].dims == q[of].dims, c, 'pyded')
        lst, t = r.local_standard_time, r.times
        G.add('local_standard_time is times', isinstance(lst, frames.Times) and lst.tz is t.tz and
              (lst is t or lst._a.dtype == t._a.dtype and N.equal(lst._a.lane(), t._a.lane())), c)
    quantity_proof(rep, '_base.Sunpos aliases', q, obl, lambda c: [x for x in prim_specs(c) if x[0] in ('zenith', 'azimuth', 'declination')] + [
        (k, x, 0., needs('declination' if k == 'dec' else 'zenith')) for k, x in alias(c).items()])
    return 'proof', 'element terms of aliases and derived angles of symbolic results of any size'


# ------------------------------------------------------------------ C09

def valid_input(c, a):
    """when the call must succeed"""
    def ok(arr, lo, hi, op):
        t = arr.lane()
        n = tm.mk('isnan', (t,))
        b = tm.or_(n, tm.and_(tm.le(lo, t), op(t, hi)))
        return sym.forall(arr.axes[0], b) if arr.ndim else b
    n = {x: (tm.ONE if s == 'scalar' else ax.size) for x, s, ax in
         (('lat', c.lat, a.J), ('lon', c.lon, a.I), ('t', 'scalar' if a.scalar_time else 'array', a.K))}
    v = [ok(a.vlat, -90, 90, tm.le), ok(a.vlon, -180, 180, tm.lt)]
    if c.uc != 'regular_grid':
        v.append(tm.eq(n['lat'], n['lon']))
    if c.uc == 'transect':
        v.append(tm.eq(n['t'], n['lat']))
    return tm.and_(*v)


def p_C09(rep):
    base(rep)
    for uc in api.DIMS:
        G = Groups(rep, 'usecases.%s: ' % uc)

        def outcomes(c):
            outs = c.run()
            v = valid_input(c, c.last)
            if c.cfg in CFG:
                accepts(rep, c, outs, v)
            for o in outs:
                pc = list(o.pc)
                if o.kind == 'return':
                    sides(G, c, o)
                    G.add('returns only for valid input: latitudes, longitudes in range and sizes that match',
                          implied(pc, v), c, 'z3')
                else:
                    r = implied(pc, tm.not_(v))
                    nm = 'raises only for invalid input'
                    if not r:
                        G.on(c, o, c.last, None, prim)
                        G.fail(nm, 'zenith', None, goal=tm.not_(v), mode='raise')
                    G.add(nm, r, '%s: %s: %s' % (c, type(o.value).__name__, str(o.value)[:60]), 'z3')

        def go():
            for c in all_cases(kinds=('naive array', 'aware index (pytz)', 'aware index (zoneinfo)', 'naive scalar', 'aware scalar')):
                if c.uc == uc:
                    outcomes(c)
            if uc == 'transect':
                return
            for kind in ('naive array', 'UTC index'):
                for la, lo in (('scalar', 'scalar'), ('array', 'scalar'), ('scalar', 'array')):
                    outcomes(Case(uc, kind, CFG[0], True, la, lo))
        guarded(rep, 'usecases.%s: accepts exactly the valid inputs' % uc, go)

        def all_raise(nm, c):
            for o in c.run():
                if not G.add(nm, o.kind == 'raise' or None, c, 'pyded'):
                    rejected(rep, nm, c)

        def shapes():
            for kind in ('naive array',):
                for nd in ((2, 1, 1), (1, 2, 1), (1, 1, 2), (1, 2, 2), (2, 2, 2), (1, 3, 1), (1, 1, 3), (1, 3, 3), (3, 1, 1),
                           (2, 2, 1), (2, 1, 2)):
                    all_raise('inputs of two or more dimensions are rejected', Case(uc, kind, CFG[0], ndim=nd))
            for nd in ((1, 2, 1), (1, 1, 2), (1, 2, 2)):
                all_raise('nested lists are rejected', Case(uc, 'naive array', CFG[0], True, 'list', 'list', ndim=nd))
        guarded(rep, 'usecases.%s: dimensions' % uc, shapes)

        def names():
            al = tuple(dict.fromkeys(x[0] for x in CFG))
            for e in ('numpy', 'numexpr', Opaque(('numpy', 'numexpr'))):
                all_raise('an unknown algorithm is rejected', Case(uc, cfg=(Opaque(al), e, '')))
            for x in al:
                all_raise('an unknown engine is rejected', Case(uc, cfg=(x, Opaque(('numpy', 'numexpr')), '')))
            for y in odd(al):
                all_raise('an unknown algorithm is rejected', Case(uc, cfg=(y, 'numexpr', '')))
                all_raise('an unknown algorithm is rejected', Case(uc, cfg=(y, 'numpy', '')))
            for y in odd(('numpy', 'numexpr')):
                for x in al:
                    all_raise('an unknown engine is rejected', Case(uc, cfg=(x, y, '')))
            all_raise('nrel has no numpy engine', Case(uc, cfg=('nrel', 'numpy', '')))
        guarded(rep, 'usecases.%s: names' % uc, names)
        G.close()
    rep.assume('an unknown algorithm or engine is represented by a string equal to none of the documented names')
    return 'proof', 'every path of the use cases, for arrays of any size and content: returns iff the input is valid'


# ------------------------------------------------------------------ C18

class Unknown(Exception):
    pass


def snapshot(x, seen=None, depth=0):
    """the state of a module, object or array, as a comparable value"""
    import types
    seen = {} if seen is None else seen
    if isinstance(x, (int, float, str, bytes, bool, type(None), complex, Fraction, type, types.BuiltinFunctionType, tm.T,
                      np.dtype, np.generic, range, type(NotImplemented), type(...))) and not (
            isinstance(x, type) and str(getattr(x, '__module__', '')).startswith('sunwhere')):
        return x if isinstance(x, tm.T) else (type(x).__name__, repr(x) if not isinstance(x, type) else id(x))
    if id(x) in seen:
        return ('seen', seen[id(x)])
    seen[id(x)] = len(seen)
    f = lambda y: snapshot(y, seen, depth + 1)   # noqa: E731
    if isinstance(x, dict):
        return ('dict',) + tuple((f(k), f(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(f(y) for y in x)
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__,) + tuple(sorted(map(repr, x)))
    if isinstance(x, np.ndarray):
        return ('array', x.shape, str(x.dtype)) + (tuple(f(y) for y in x.reshape(-1)) if x.dtype == object else (x.tobytes(),))
    if isinstance(x, sym.SymArray):
        return ('symarray', str(x.dtype), tuple(id(a) for a in x.axes), x.data.shape, tuple(x.data.reshape(-1)))
    if isinstance(x, types.FunctionType):
        cl = []
        for c in x.__closure__ or ():
            try:
                cl.append(f(c.cell_contents))
            except ValueError:
                cl.append('empty')
        return ('function', id(x.__code__), f(x.__defaults__), f(x.__kwdefaults__), f(x.__dict__), tuple(cl))
    if isinstance(x, types.ModuleType):
        if str(x.__name__).startswith('sunwhere') and hasattr(x, '__file__'):
            return ('module', x.__name__) + tuple((k, f(v)) for k, v in x.__dict__.items() if k not in (
                '__builtins__', '__loader__', '__spec__'))
        return ('module', x.__name__)
    if isinstance(x, type):
        return ('class', x.__qualname__) + tuple((k, f(v)) for k, v in x.__dict__.items() if k not in ('__dict__', '__weakref__'))
    if isinstance(x, (property, staticmethod, classmethod)):
        return (type(x).__name__,) + tuple(f(getattr(x, k, None)) for k in ('fget', 'fset', 'fdel', '__func__'))
    if isinstance(x, types.MethodType):
        return ('method', f(x.__func__), f(x.__self__))
    m = type(x).__module__
    if isinstance(x, (frames.Times, frames.DA, frames.TDelta, frames.SymTZ)):
        return (type(x).__name__,) + tuple((k, f(v)) for k, v in x.__dict__.items())
    if m.startswith('sunwhere'):
        return (type(x).__name__,) + tuple((k, f(v)) for k, v in getattr(x, '__dict__', {}).items())
    if m.startswith('pyded') or m.startswith(('datetime', 'logging')) or m.split('.')[0] in ('loguru', 'importlib', 'warnings'):
        return (type(x).__name__, id(x))
    raise Unknown('%s.%s' % (m, type(x).__name__))


def modules_state(w):
    return {n: snapshot(m) for n, m in w.mods.items() if isinstance(m, type(np)) and n.startswith('sunwhere')}


def first_difference(a, b, path=''):
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_difference(x, y, path + '/' + (str(x[0]) if isinstance(x, tuple) and x else str(i)))
            if d:
                return d
    return '%s: %s -> %s' % (path, str(a)[:60], str(b)[:60])


def state_obligation(rep, name, before, after, t0):
    if isinstance(before, Exception):
        return rep.obligation(name, 'undecided', 'pyded', time.time() - t0, 'state of unknown kind: %s' % before)
    d = [first_difference(before[k], after.get(k), k) for k in before if before[k] != after.get(k)]
    d += [k for k in after if k not in before]
    if d:
        rep.failed.append(name)
    return rep.obligation(name, 'undecided' if d else 'proved', 'pyded', time.time() - t0, d[:2])


def fresh_world():
    """a world of its own, all modules loaded"""
    k = (None, False)
    had = api._W.pop(k, None)
    try:
        w = api.world()
        for m in ('sunwhere._base', 'sunwhere._core', 'sunwhere.utils.datetime', 'sunwhere.utils.validate'):
            w.load(m)
        return w
    finally:
        api._W.pop(k, None)
        if had is not None:
            api._W[k] = had


def p_C18(rep):
    base(rep)
    rep.function(*METHODS)
    # sunpos: frame condition and no state left behind
    for mod in extract.MODULES.values():
        rep.function('libspa.%s.sunpos' % mod)
        for nd in (0, 1, 2):
            for ref in (False, True):
                nm = 'libspa.%s.sunpos[ndim=%d,refraction=%s]: ' % (mod, nd, ref)

                def go():
                    t0 = time.time()
                    w = loader.World()
                    m = w.load('sunwhere.libspa.' + mod)
                    had = set(sym.MAYBE_NAN)
                    sym.MAYBE_NAN.clear()
                    try:
                        before = modules_state(w)
                    except Unknown as e:
                        before = e
                    try:
                        xs = []
                        for _ in range(2):
                            sym._AXIS_BY_SIZE.clear()
                            x = extract.Extraction(mod, nd, ref)
                            x._run_in(m)
                            xs.append(x)
                    finally:
                        sym.MAYBE_NAN.clear()
                        sym.MAYBE_NAN.update(had)
                    st = 'proved' if not xs[0].frame else 'undecided'
                    if xs[0].frame:
                        rep.failed.append(nm + 'frame')
                    rep.obligation(nm + 'assigns none of times, longitude, latitude', st, 'pyded', time.time() - t0,
                                   xs[0].frame[:2])
                    after = before if isinstance(before, Exception) else modules_state(w)
                    state_obligation(rep, nm + 'leaves the state of its module as it was', before, after, t0)
                    rep.obligation(nm + 'computes the same when called again', 'proved' if same_terms(*xs)
                                   else 'undecided', 'pyded', time.time() - t0)
                guarded(rep, nm + 'no trace', go)
    # the API
    had = dict(api._W)
    w = fresh_world()
    api._W[(None, False)] = w
    try:
        try:
            before = modules_state(w)
        except Unknown as e:
            before = e
        t0 = time.time()
        traces(rep)
        after = before if isinstance(before, Exception) else modules_state(w)
        state_obligation(rep, 'usecases, _core, _base, utils: no call leaves the state of a module changed', before, after, t0)
    finally:
        api._W.clear()
        api._W.update(had)
    rep.assume('numpy, numexpr, pandas and xarray compute the same when called again (numexpr caches compiled expressions)')
    return 'proof', ('frame conditions: arguments, module state and results compared before and after, on every path, for '
                     'arrays of any size')


def same_terms(x, y):
    return all({t for t, _ in x.terms[v]} == {t for t, _ in y.terms[v]} for v in extract.OUT)


def methods_of(r):
    """every derived quantity, as thunks, some twice and in mixed order"""
    f = [lambda k=k: getattr(r, k) for k in ('zenith', 'azimuth', 'declination', 'dec', 'eot', 'ecf', 'sza', 'saa', 'elevation',
                                            'cosz', 'latitude', 'longitude', 'true_solar_time', 'times', 'times_utc',
                                            'local_standard_time', 'timezone', 'algorithm', 'engine', 'has_refraction',
                                            'usecase')]
    f += [lambda u=u: r.sunrise(u) for u in ('deg', 'rad', 'tst', 'utc', 'local')]
    f += [lambda u=u: r.sunset(u) for u in ('deg', 'rad', 'tst', 'utc', 'local')]
    f += [lambda p=p: r.airmass(p) for p in AIRMASS] + [lambda: r.airmass()]
    f += [lambda p=p: r.eth(scalar(ISC), p) for p in ETH + ('none',)] + [lambda: r.eth()]
    f += [lambda: r.daylight_length(), lambda: r.incidence(scalar(SLOPE), scalar(GAMMA))]
    return f


def traces(rep):
    for fn in ('true_solar_time', 'universal_time_coordinated'):
        rep.function('utils.datetime.' + fn)
        H = Groups(rep, 'utils.datetime.%s: ' % fn)

        def conversion():
            m = api.world().load('sunwhere.utils.datetime')
            for kind in ('naive array', 'naive scalar', 'naive index'):
                for lon in ('array', 'scalar'):
                    def call():
                        a = api.Args(kind, 'scalar', lon, unit='s')
                        first = snapshot(getattr(m, fn)(a.times, a.lon))
                        for f in ('universal_time_coordinated', 'true_solar_time'):
                            getattr(m, f)(a.times, a.lon)
                        return first == snapshot(getattr(m, fn)(a.times, a.lon))
                    for o in api.run(call):
                        H.add('assigns none of its arguments', not o.frame_violations, '%s: %s' % (kind, o.frame_violations[:1]),
                              'pyded')
                        if o.kind == 'return':
                            H.add('calling again gives the same', o.value, kind, 'pyded')
        guarded(rep, 'utils.datetime.%s: no trace' % fn, conversion)
        H.close()
    for uc in api.DIMS:
        G = Groups(rep, 'usecases.%s: ' % uc)
        for kind in ARRAY_KINDS + ('naive scalar', 'aware scalar'):
            cfgs = CFG if kind in ('naive array', 'aware index (pytz)') else CFG[:1]
            for cfg in cfgs:
                def go():
                    c = Case(uc, kind, cfg, True)

                    def q(r):
                        a = c.last
                        s0 = snapshot(r)
                        u = api.world().load('sunwhere.usecases')
                        first = [snapshot(f()) for f in methods_of(r)]
                        other = None
                        if kind in ('naive array', 'aware scalar'):
                            al, en, _ = CFG[(CFG.index(cfg) + 3) % len(CFG)]
                            other = getattr(u, 'regular_grid')(a.times, a.lat, a.lon, algorithm=al, engine=en, refraction=False)
                            so = snapshot(other)
                            for f in reversed(methods_of(other)):
                                f()
                        again = getattr(u, uc)(a.times, a.lat, a.lon, algorithm=cfg[0], engine=cfg[1], refraction=True)
                        for f in reversed(methods_of(again)):
                            f()
                        second = [snapshot(f()) for f in methods_of(r)]
                        third = [snapshot(f()) for f in methods_of(again)]
                        return {'unchanged': s0 == snapshot(r), 'repeat': first == second,
                                'call again': first == third and s0 == snapshot(again),
                                'other': other is None or so == snapshot(other)}
                    for o in c.run(q):
                        if o.frame_violations:
                            G.add('assigns none of its arguments', False, '%s: %s' % (c, o.frame_violations[:1]), 'pyded')
                        else:
                            G.add('assigns none of its arguments', True, '', 'pyded')
                        if o.kind != 'return':
                            continue
                        v = o.value[2]
                        if not isinstance(v, dict):
                            if isinstance(v[1], Unknown):
                                raise SUP('state of unknown kind: %s' % v[1])
                            G.add('derived quantities: no exception', False, '%s: %s' % (c, v[1:]))
                            continue
                        G.add('deriving quantities leaves the result as it was', v['unchanged'], c, 'pyded')
                        G.add('deriving quantities again gives the same', v['repeat'], c, 'pyded')
                        G.add('calling again, after other calls, gives the same', v['call again'], c, 'pyded')
                        G.add('other results stay as they were', v['other'], c, 'pyded')
                guarded(rep, 'usecases.%s: %s' % (uc, kind), go)
        G.close()


# ------------------------------------------------------------------ C17

def default_eot():
    """the equation of time of the default algorithm, as sites() without options reports it"""
    w = api.world()
    u = w.load('sunwhere.usecases')
    mods = set()

    def go():
        a = api.Args()
        u.sites(a.times, a.lat, a.lon)
        mods.update(c[0] for c in sym.ctx().calls)
    api.run(go)
    if len(mods) != 1:
        raise SUP('default algorithm')
    return mods.pop()


def squeezed(arr, K, I, pc):
    """the term over the canonical positions of a result of shape (K, I) with the sizes of one dropped; None if its
    shape is another"""
    m = {}
    axes = list(arr.axes)
    if arr.data.size != 1:
        return None
    for n, c in ((K, 'time'), (I, 'longitude')):
        one = implied(pc, tm.eq(n, tm.ONE))
        if one:
            continue
        if not axes:
            return None
        ax = axes.pop(0)
        if ax is None or not implied(pc, tm.eq(ax.size, n)):
            return None
        m[ax.idx] = api.CANON[c]
    if axes:
        return None
    t = arr.data.reshape(-1)[0]
    return tm.subst(t, m) if m else t


def p_C17(rep):
    from . import proofs
    base(rep)
    rep.function('utils.datetime.true_solar_time', 'utils.datetime.universal_time_coordinated', '_core.evaluate')
    N = nf.NF()
    mod = default_eot()
    eot = tm.sym('eot@%s@-' % mod)
    w = api.world()
    m = w.load('sunwhere.utils.datetime')
    def conv(r, q):
        return {'conv': r}
    for fn, s in (('true_solar_time', 1), ('universal_time_coordinated', -1)):
        G = Groups(rep, 'utils.datetime.%s: ' % fn)

        def go():
            for kind in ('naive array', 'naive scalar', 'naive index'):
                for unit in ('ns', 's', 'ms', 'us', 'm'):
                    for lon in ('array', 'scalar'):
                        c = Case('conversion', kind, CFG[0], True, 'scalar', lon, unit)
                        c.fn = fn

                        def call():
                            a = c.last = api.Args(kind, 'scalar', lon, unit=unit)
                            return a, getattr(m, fn)(a.times, a.lon)
                        def outcomes():
                            try:
                                yield from api.run(call)
                            except SUP as e:
                                want = tm.add(c.T_ns, tm.mul(s * 60 * 10**9, tm.add(eot, tm.mul(4, api.LON_))))
                                G.fail_all('one value per time and longitude', c, [('conv', want, TOLNS, ('T', 'LON'))], None,
                                           conv, e.pc if hasattr(e, 'pc') else ())
                                G.add('one value per time and longitude', None, '%s: unsupported: %s' % (c, e))
                        for o in outcomes():
                            if o.kind == 'raise':
                                G.on(c, o, c.last, None, conv)
                                G.fail('no exception', 'conv', None, mode='raise')
                                G.add('no exception', False, '%s: %s: %s' % (c, type(o.value).__name__, o.value))
                                continue
                            a, r = o.value
                            G.on(c, o, a, None, conv)
                            sides(G, c, o)
                            r = sym.asarr(r)
                            K = tm.ONE if a.scalar_time else a.K.size
                            I = a.I.size if lon == 'array' else tm.ONE
                            t = squeezed(r, K, I, o.pc)
                            if not G.add('one value per time and longitude, scalar dimensions squeezed', t is not None,
                                         '%s: %s' % (c, r.axes), 'z3') or r.dtype != np.dtype('M8[ns]'):
                                continue
                            kt, kl = api.CANON['time'], api.CANON['longitude']
                            T = [(kt,)] + ([(tm.ZERO,)] if implied(o.pc, tm.eq(K, tm.ONE)) else []) + [()]
                            L = [(kl,)] + ([(tm.ZERO,)] if implied(o.pc, tm.eq(I, tm.ONE)) else []) + [()]
                            g = snap(api.flat(t, {'T': T, 'LON': L, 'LAT': []}, False, sec=c.sec, tns=c.T_ns))
                            if g.op == 'nan':
                                G.add('missing only where the instant is', implied(o.pc, tm.mk('isnan', (
                                    tm.mk('sel', (), 'T'),))), c, 'z3')
                                continue
                            want = tm.add(c.T_ns, tm.mul(s * 60 * 10**9, tm.add(eot, tm.mul(4, api.LON_))))
                            G.eq(N, 'instant %s (equation of time + 4 minutes per degree), to 0.001 s, for every time and longitude'
                                 % '+-'[s < 0], 'conv', g, want, TOLNS, ('T', 'LON'))
        guarded(rep, 'utils.datetime.%s' % fn, go)
        G.close()
    # the equation of time changes by less than 20 s within 12.4 h
    q = proofs.same_for_all_ndims(rep, N, mod, False, [], ('eot',))
    nm = 'libspa.%s.sunpos: equation of time changes by less than 19.9 s within 12.4 h, 1900-2100' % mod
    if q['eot'] is None:
        rep.obligation(nm, 'undecided', 'interval', 0., 'no term')
        return 'proof', ''
    t0 = time.time()
    from pyded import interval
    from .common import epoch
    e = proofs.ready(N, q['eot'])
    lo, hi = bb.t_boxes(epoch('1899-12-31'), epoch('2101-01-02'), 3600)
    try:
        r = [interval.ranges([e], {extract.t_: (lo[i:i + 200000], hi[i:i + 200000])}, [extract.t_])[0]
             for i in range(0, len(lo), 200000)]
        a, b = np.concatenate([x[0] for x in r]), np.concatenate([x[1] for x in r])
        from scipy.ndimage import maximum_filter1d, minimum_filter1d
        k = 14              # instants at most 12.4 h apart lie within 14 consecutive cells
        top = maximum_filter1d(b, k) - minimum_filter1d(a, k)
        ok = np.isfinite(a).all() and np.isfinite(b).all() and np.abs(a).max() < 20 and np.abs(b).max() < 20 \
            and top.max() * 60 < 19.9
        rep.obligation(nm, 'proved' if ok else 'undecided', 'interval cells', time.time() - t0,
                       'at most %.3f s within 14 h; %d cells' % (top.max() * 60, len(lo)))
    except interval.GiveUp as x:
        rep.obligation(nm, 'undecided', 'interval cells', time.time() - t0, str(x))
    return 'proof', ('conversions run symbolically for arrays of any size; change of the equation of time by interval '
                     'enclosures of every hour')
