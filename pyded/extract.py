"""The contracts' view of libspa: what each sunpos function computes, as terms.

For each algorithm module and each ndim and refraction flag, sunpos is run
symbolically for arrays of any size; the outcome is, on each path, the value of
every output element as a term over t = times[k], lat = latitude[j], lon =
longitude[i]."""
import itertools
import numpy as np
from . import terms as tm
from . import sym, loader, z3back

MODULES = {('psa', 'numpy'): 'py_psa', ('psa', 'numexpr'): 'ne_psa', ('soltrack', 'numpy'): 'py_soltrack',
           ('soltrack', 'numexpr'): 'ne_soltrack', ('iqbal', 'numpy'): 'py_iqbal', ('iqbal', 'numexpr'): 'ne_iqbal',
           ('nrel', 'numexpr'): 'ne_nrel'}
OUT = ('zenith', 'azimuth', 'ecf', 'eot', 'declination')

SOLVER = z3back.Solver()
t_, lat_, lon_ = tm.sym('t'), tm.sym('lat'), tm.sym('lon')
tm.declare_int('t')


class SpaArgs:
    """symbolic arguments of sunpos for one ndim"""

    def __init__(self, ndim):
        self.ndim = ndim
        K = tm.sym('#K')
        tm.declare_int('#K')
        self.K = sym.register_axis(sym.Axis(K, 'k'))
        if ndim == 0:
            self.J = self.I = self.K
        elif ndim == 1:
            self.J = self.I = loader.new_axis('j', '#J')
        else:
            self.J, self.I = loader.new_axis('j', '#J'), loader.new_axis('i', '#I')
        self.pre = [tm.le(1, ax.size) for ax in {self.K, self.J, self.I}]

    def fresh(self):
        self.times = loader.new_array('T', self.K, 'M8[s]')
        self.lat = loader.new_array('LAT', self.J, 'f8')
        self.lon = loader.new_array('LON', self.I, 'f8')
        return self.times, self.lon, self.lat

    def norm(self, t):
        """element terms over t, lat, lon"""
        return tm.subst(t, {self.times.lane(): t_, self.lat.lane(): lat_, self.lon.lane(): lon_})


class Extraction:
    def __init__(self, module, ndim, refraction):
        self.module, self.ndim, self.refraction = module, ndim, refraction
        self.error = None
        self.terms = {}
        self.axes_ok = {}
        self.frame = []
        self.side = []
        self.fits = {}
        self.paths = 0

    def run(self, src=None):
        had = set(sym.MAYBE_NAN)
        sym.MAYBE_NAN.clear()
        try:
            self._run(src)
        except sym.Unsupported as e:
            self.error = 'unsupported: %s' % e
        except Exception as e:       # the engine itself failed: no verdict
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.error = 'engine: %s: %s (%s:%d)' % (type(e).__name__, e, tb.filename.split('/')[-1], tb.lineno)
        finally:
            sym.MAYBE_NAN.clear()
            sym.MAYBE_NAN.update(had)
        return self

    def _run(self, src):
        w = loader.World(src=src)
        self._run_in(w.load('sunwhere.libspa.' + self.module))

    def _run_in(self, mod):
        args = SpaArgs(self.ndim)
        sym._AXIS_BY_SIZE.clear()
        for ax in (args.K, args.J, args.I):
            sym.register_axis(ax)

        def go():
            times, lon, lat = args.fresh()
            return mod.sunpos(times, lon, lat, self.ndim, self.refraction)
        outs = sym.explore(go, args.pre, SOLVER)
        self.paths = len(outs)
        self.outcomes = outs
        self.args = args
        rets = [o for o in outs if o.kind == 'return']
        self.raises = [o for o in outs if o.kind == 'raise']
        if self.raises:
            o = self.raises[0]
            raise sym.Unsupported('raises %s: %s' % (type(o.value).__name__, o.value))
        if not rets:
            raise sym.Unsupported('no path')
        for o in rets:
            self.frame += o.frame_violations
            self.fits.update({args.norm(t): r for t, r in o.fits.items()})
            self.side += [(args.norm(c), why) for c, why in o.side]
        want_loc = {0: [args.K], 1: [args.K, args.J], 2: [args.K, args.J, args.I]}[self.ndim]
        for v in OUT:
            want = want_loc if v in ('zenith', 'azimuth') else [args.K]
            ts = []
            for o in rets:
                a = sym.asarr(o.value[v])
                # a path that identified dimensions of equal size may use any of their axes
                m = {}
                ok = a.ndim == len(want) and all(n == 1 or False for n in a.data.shape)
                if ok:
                    for x, y in zip(a.axes, want):
                        if x is y:
                            continue
                        if x is None or SOLVER.valid(o.pc, tm.eq(x.size, y.size))[0] != 'proved':
                            ok = False
                            break
                        m[x.idx] = y.idx
                if not ok:
                    raise sym.Unsupported('%s has axes %s on path %s' % (v, a.axes, o.pc))
                t = a.lane()
                if m:
                    t = tm.subst(t, m)
                ts.append((args.norm(t), o.pc))
            self.terms[v] = ts

    def term(self, v):
        """the term on every path (None if paths differ)"""
        ts = {t for t, _ in self.terms[v]}
        return ts.pop() if len(ts) == 1 else None


_CACHE = {}


def extract(module, ndim, refraction, src=None):
    k = (module, ndim, refraction, src)
    if k not in _CACHE:
        _CACHE[k] = Extraction(module, ndim, refraction).run(src)
    return _CACHE[k]
