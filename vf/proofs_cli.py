"""C19: the command line. The real _cli/main.py and _cli/position.py run
symbolically; what they print is compared with what the (real, symbolically run)
library computes in the same execution."""
import inspect
import re
import sys
import types
from fractions import Fraction
import numpy as np
from pyded import terms as tm, sym, frames, nf, loader
from . import api
from .proofs_api import Groups, base, guarded, implied, scalar, snap, METHODS, SUP

ZONE = frames.Name('⟨zone⟩')


class Param:
    def __init__(self, kind, default, args, kw):
        self.kind, self.default, self.args, self.kw = kind, default, args, kw


class Exit(Exception):
    def __init__(self, code=0):
        super().__init__(code)
        self.code = self.exit_code = code


class Shown(str):
    """what tabulate returns: the fields of the table"""
    def __new__(cls, fields):
        r = str.__new__(cls, '⟨table⟩')
        r.fields = fields
        return r


def stand_ins(out):
    ty = types.ModuleType('typer')

    class Typer:
        def __init__(self, *a, **kw):
            pass

        def command(self, *a, **kw):
            def deco(f):
                commands[a[0] if a and isinstance(a[0], str) else kw.get('name') or f.__name__] = f
                return f
            return deco

        def callback(self, *a, **kw):
            raise SUP('typer callbacks')
    commands = {}
    ty.Typer = Typer
    ty.Argument = lambda default=..., *a, **kw: Param('argument', default, a, kw)
    ty.Option = lambda default=..., *a, **kw: Param('option', default, a, kw)
    ty.Exit = Exit
    ty.BadParameter = type('BadParameter', (Exception,), {})
    ty.Abort = type('Abort', (Exception,), {})

    def echo(*a, err=False, **kw):
        if not err:
            out.append(a[0] if a else '')
    ty.echo = echo
    ty.commands = commands
    tab = types.ModuleType('tabulate')

    def tabulate(data, *a, **kw):
        if isinstance(data, frames.Series):
            d = data.d
        elif isinstance(data, frames.Frame):
            d = data.d
        elif isinstance(data, dict):
            d = data
        elif isinstance(data, (list, tuple)) and all(isinstance(x, (list, tuple)) and len(x) == 2 for x in data):
            d = dict(data)
        else:
            d = dict(data) if isinstance(data, type({}.items())) else None
        if d is None:
            raise SUP('tabulate of %s' % type(data).__name__)
        return Shown(d)
    tab.tabulate = tabulate

    def print_(*a, **kw):
        if kw.get('file') is None:
            out.extend(a)
    return {'typer': ty, 'tabulate': tab, 'builtins': {'print': print_}}, commands


def cli_world():
    out = []
    ext, commands = stand_ins(out)
    w0 = api.world()
    w = loader.World(pandas=w0.pandas, xarray=w0.xarray, stubs=w0.stubs, ext=ext)
    w.load('sunwhere')
    u = w.load('sunwhere.usecases')
    main = w.load('sunwhere._cli.main')
    return w, u, main, commands, out


# --------------------------------------------------------------- coordinates

class Number(str):
    """text of a number: float() of it is X"""
    def __new__(cls, x, text='⟨number⟩'):
        r = str.__new__(cls, text)
        r.x = x
        return r

    def _sym_float(self):
        return scalar(self.x)


for _k in ('upper', 'lower', 'casefold', 'strip', 'title', 'capitalize', 'swapcase'):
    setattr(Number, _k, lambda self, *a: self)


class Coord(str):
    """text of a number, followed by one character"""
    def __new__(cls, x, c):
        r = str.__new__(cls, '⟨number⟩' + c)
        r.x, r.c = x, c
        return r

    def __getitem__(self, k):
        if k == -1 or k == slice(-1, None):
            return self.c
        if k == slice(None, -1) or k == slice(0, -1):
            return Number(self.x)
        raise SUP('characters %s of a coordinate' % (k,))

    def endswith(self, s, *a):
        ss = s if isinstance(s, tuple) else (s,)
        if a or any(len(x) > 1 for x in ss):
            raise SUP('endswith')
        return any(x == '' or x == self.c for x in ss)

    def removesuffix(self, s):
        if len(s) != 1:
            raise SUP('removesuffix')
        return Number(self.x) if s == self.c else self

    def rstrip(self, s=None):
        if s is None:
            if self.c.isspace():
                raise SUP('trailing space')
            return self
        if any(ch in '0123456789.+-einfaty_' for ch in s.replace('e', '').replace('n', '')) or len(s) > 4:
            raise SUP('rstrip')
        return Number(self.x) if self.c in s else self

    def partition(self, s):
        raise SUP('partition')
    split = rpartition = rsplit = replace = find = index = count = __iter__ = encode = partition

    def _sym_float(self):
        if self.c in '0123456789.' or self.c.isspace():
            return scalar(tm.sym('other number'))
        raise ValueError('could not convert string to float')

    def __len__(self):
        raise SUP('length of a coordinate')


def _recase(k):
    def f(self, *a):
        if a:
            raise SUP(k)
        c = getattr(self.c, k)()
        if len(c) != 1:
            if len(c) == 0:
                raise SUP('trailing space')
            return Coord(self.x, c[-1])
        return Coord(self.x, c)
    return f


for _k in ('upper', 'lower', 'casefold', 'strip', 'swapcase', 'lstrip'):
    setattr(Coord, _k, _recase(_k))


def suffixes():
    """one per class of characters that case mapping treats alike, and every letter in question"""
    out = []
    for i in list(range(0x21, 0x250)) + [0x3a3, 0x3c3, 0x3c2, 0x415, 0x435, 0x1e9e, 0x2212, 0xfb05, 0xfb06, 0xff2e, 0xff33,
                                         0xff45, 0x24c3, 0x1d40d]:
        c = chr(i)
        if c.isprintable() and not c.isspace():
            out.append(c)
    return out


def parse_obligations(G, parser, what, pos, neg, lo, hi, closed):
    x = tm.sym('x')
    for c in suffixes():
        fold = c.casefold()
        s = 1 if fold == pos else -1 if fold == neg else 0

        def go():
            sym.MAYBE_NAN.discard('x')
            return parser(Coord(x, c))
        try:
            outs = api.run(go)
        except SUP as e:
            raise SUP('%s: suffix %r: %s' % (what, c, e))
        v = tm.mul(s, x) if s else None
        inside = tm.FALSE if not s else tm.and_(tm.le(lo, v), tm.le(v, hi) if closed else tm.lt(v, hi))
        for o in outs:
            if o.kind == 'return':
                if not s:
                    G.add('%s: other suffixes are rejected' % what, False, repr(c))
                    continue
                r = sym.asarr(o.value)
                if r.ndim:
                    raise SUP('coordinate of dimension %d' % r.ndim)
                G.add('%s: accepted coordinates are within the range' % what, implied(o.pc, inside), c, 'z3')
                G.add('%s: the suffix is the sign, the number the degrees' % what, implied(o.pc, tm.eq(r.lane(), v)), c, 'z3')
            else:
                G.add('%s: coordinates within the range are accepted' % what, implied(o.pc, tm.not_(inside)), '%s %r' % (
                    c, o.value), 'z3')
                if not s:
                    G.add('%s: other suffixes are rejected' % what, True)
    # no number at all: float() raises
    for c in (pos.upper(), neg.upper()):
        class Bad(Number):
            def _sym_float(self):
                raise ValueError('could not convert string to float')

        class BadCoord(Coord):
            def __getitem__(self, k):
                r = Coord.__getitem__(self, k)
                return Bad(self.x) if isinstance(r, Number) else r

            def removesuffix(self, s):
                r = Coord.removesuffix(self, s)
                return Bad(self.x) if isinstance(r, Number) else r

            def rstrip(self, s=None):
                r = Coord.rstrip(self, s)
                return Bad(self.x) if isinstance(r, Number) else r
        bad = [o for o in api.run(lambda: parser(BadCoord(x, c))) if o.kind == 'return']
        G.add('%s: what is no number is rejected' % what, not bad, c)
    # nan and infinities
    for v in (float('nan'), float('inf'), float('-inf')):
        class Odd(Number):
            def _sym_float(self):
                return v

        class OddCoord(BadCoord):
            def __getitem__(self, k):
                r = Coord.__getitem__(self, k)
                return Odd(self.x) if isinstance(r, Number) else r

            def removesuffix(self, s):
                r = Coord.removesuffix(self, s)
                return Odd(self.x) if isinstance(r, Number) else r
        bad = [o for o in api.run(lambda: parser(OddCoord(x, pos.upper()))) if o.kind == 'return']
        G.add('%s: nan and infinities are rejected' % what, not bad, v)


# --------------------------------------------------------------------- fields

TOKEN = re.compile(r'⟦\d+⟧')


def pieces(text):
    """literals and marks of a printed text"""
    if not isinstance(text, str):
        raise SUP('printed value of %s' % type(text).__name__)
    out, at = [], 0
    for m in TOKEN.finditer(text):
        if m.start() > at:
            out.append(text[at:m.start()])
        out.append(sym.MARKS[m.group()])
        at = m.end()
    if at < len(text):
        out.append(text[at:])
    return out


def fixed(spec):
    """decimals of a format that prints a number to the nearest"""
    m = re.fullmatch(r'[<>^=]?[-+ ]?0?\d*\.(\d+)f', spec or '')
    return int(m.group(1)) if m else None


def at_case(G, N, world, algo, ref, zone, how):
    w, u, main, commands, out = world
    f = commands.get('at')
    if f is None:
        raise SUP('no command at')
    ps = list(inspect.signature(f).parameters.items())
    if len(ps) < 6:
        raise SUP('parameters of at')
    names = [k for k, p in ps]
    args = [k for k, p in ps if isinstance(p.default, Param) and p.default.kind == 'argument']
    opts = {d: k for k, p in ps if isinstance(p.default, Param) and p.default.kind == 'option'
            for d in (p.default.args or ('--' + k,))}
    need = ('--algorithm', '--refraction', '--timezone')
    if len(args) != 3 or any(not any(q == d or q.startswith(d + '/') for q in opts) for d in need):
        raise SUP('arguments of at: %s %s' % (args, sorted(opts)))
    opt = {d: next(k for q, k in opts.items() if q == d or q.startswith(d + '/')) for d in need}
    lat, lon = tm.sym('lat'), tm.sym('lon')
    pre = [tm.le(-90, lat), tm.le(lat, 90), tm.le(-180, lon), tm.lt(lon, 180)]

    def go():
        del out[:]
        T = sym.SymArray(np.array(tm.sym('W'), dtype=object), [], 'M8[us]')
        tm.declare_int('W')
        offs = frames.Times(T, None if how != 'aware' else frames.SymTZ('text'))
        text = 'now' if how == 'now' else frames.Text(offs)
        kw = {args[0]: text, args[1]: scalar(lat), args[2]: scalar(lon), opt['--algorithm']: algo,
              opt['--refraction']: ref, opt['--timezone']: zone}
        for k, p in ps:
            if k not in kw:
                kw[k] = p.default.default if isinstance(p.default, Param) else p.default
        try:
            f(**kw)
        except Exit as e:
            return 'exit', e.code, e.__context__, None
        printed = [x for x in out if isinstance(x, Shown)]
        rest = [x for x in out if not isinstance(x, Shown)]
        # the library, for the same instant
        wall = frames.Times(T)
        if how == 'now':
            t = frames.Timestamp.now(tz=zone)
            wall = t.tz_localize(None)
        elif how == 'aware':
            return 'printed', printed, rest, None
        else:
            t = wall.tz_localize(zone)
        r = u.sites(t, scalar(lat), scalar(lon), algorithm=algo, refraction=ref)
        lib = {'dec': r.declination, 'zen': r.zenith, 'azi': r.azimuth, 'elev': r.elevation, 'ecf': r.ecf, 'eot': r.eot,
               'sr utc': r.sunrise('utc'), 'ss utc': r.sunset('utc'), 'sr local': r.sunrise('local'),
               'ss local': r.sunset('local')}
        return 'printed', printed, rest, (lib, wall, t)
    for o in sym.explore(go, pre, api.SOLVER):
        if o.kind == 'raise':
            G.add('runs or exits with a message', False, '%s: %s' % (type(o.value).__name__, o.value))
            continue
        kind, printed, rest, more = o.value
        if kind == 'exit':
            if how == 'aware':
                G.add('a time with an offset of its own, and a time zone: not both', printed not in (0, None), '', 'pyded')
                continue
            G.add('prints the position of every time, place, algorithm, refraction and zone', False, repr(rest))
            continue
        if how == 'aware':
            if not more:
                raise SUP('times with an offset of their own')
        if len(printed) != 1:
            raise SUP('prints %d tables' % len(printed))
        G.add('prints the position of every time, place, algorithm, refraction and zone', True)
        fields(G, N, o, printed[0].fields, more, lat, lon, zone)


def lane(da):
    d = da._d
    return frames.lane_over(d, da.dims, {k: tm.ZERO for k in da.dims})


def missing(t):
    return sym.nanof(t)


def same_value(N, pc, a, b):
    if a is b or N.equal(a, b):
        return True
    return None


def fields(G, N, o, d, more, lat, lon, zone):
    lib, wall, t = more
    sides_ok = all(implied(o.pc, c) for c, why in o.side)
    G.add('sunpos is called within its contract', sides_ok, '', 'z3')
    D = {k: pieces(v) for k, v in d.items()}
    keys = {}
    for k in D:
        keys[str(k)] = D[k]

    def one(prefix):
        ks = [k for k in keys if k.startswith(prefix)]
        if len(ks) != 1:
            raise SUP('fields named %s: %d' % (prefix, len(ks)))
        return keys[ks[0]]

    def number(prefix, want, unit):
        p = one(prefix)
        nm = '%s is that of the library' % prefix
        if len(p) == 1 and isinstance(p[0], str):
            return G.add(nm, None, p)
        m = [x for x in p if not isinstance(x, str)]
        txt = ''.join(x for x in p if isinstance(x, str)).strip()
        if len(m) != 1 or isinstance(p[0], str) or txt != unit or fixed(m[0][1]) is None or fixed(m[0][1]) < 3:
            raise SUP('%s is printed as %r' % (prefix, p))
        G.add(nm, same_value(N, o.pc, snap(m[0][0]), snap(want)), '%s' % (m[0][0].op,))
    number('Latitude', lat, '°')
    number('Longitude', lon, '°')
    number('Declination', lane(lib['dec']), '°')
    number('Zenith', lane(lib['zen']), '°')
    number('Elevation', lane(lib['elev']), '°')
    number('Azimuth', lane(lib['azi']), '°')
    number('Sun-Earth distance', tm.div(1, tm.fn('sqrt', lane(lib['ecf']))), 'AU')
    # equation of time: [-]minutes:seconds
    p = one('Equation of time')
    neg = isinstance(p[0], str) and p[0] == '-'
    q = p[1:] if neg else p
    e = lane(lib['eot'])
    if len(q) != 4 or isinstance(q[0], str) or q[1] != ':' or isinstance(q[2], str) or q[3].strip() != 'min' \
            or q[0][3] != 'i' or fixed(q[2][1]) is None:
        raise SUP('equation of time is printed as %r' % (p,))
    m, s = q[0][0], q[2][0]
    val = tm.mul(-1 if neg else 1, tm.add(m, tm.div(s, 60)))
    G.add('Equation of time: minutes and seconds add up to that of the library', eot_sum(N, o.pc, val, e), '', 'nf/z3')
    G.add('Equation of time: the seconds are in [0, 60)', generalised(o.pc, tm.and_(tm.le(0, s), tm.lt(s, 60)), e), '', 'z3')
    G.add('Equation of time: the minutes are not negative', generalised(o.pc, tm.le(0, m), e), '', 'z3')
    # sun times
    zn = 'UTC' if t.tz is frames.UTC else str(zone)
    for nm, k in (('Sunrise', 'sr'), ('Sunset', 'ss')):
        for tag, unit in (('UTC', 'utc'), (zn, 'local')):
            if tag == 'UTC' and unit == 'utc' and zn == 'UTC':
                continue
            key = '%s(%s)' % (nm, tag)
            if key not in keys:
                raise SUP('no field %s' % key)
            p = keys[key]
            w = lib['%s %s' % (k, unit)]
            want, miss = lane(w), missing(lane(w))
            if len(p) == 1 and isinstance(p[0], str):
                if any(ch.isdigit() for ch in p[0]):
                    raise SUP('printed as %r' % p[0])
                G.add('%s: no time is printed only where the library has none' % nm, implied(o.pc, miss), tag, 'z3')
                continue
            if len(p) != 1 or p[0][1] != '%H:%M:%S':
                raise SUP('%s is printed as %r' % (key, p))
            g = p[0][0]
            if w._d.dtype != np.dtype('M8[ns]'):
                raise SUP('dtype of sunrise')
            G.add('%s: a time is printed only where the library has one' % nm, implied(o.pc, tm.not_(miss)), tag, 'z3')
            G.add('%s is that of the library' % nm, same_value(N, o.pc, g, want), tag)
    # the instant itself
    p = one('Time')
    W = wall._a.lane()
    ok = not isinstance(p[0], str) and p[0][1].startswith('%H:%M:%S') and \
        (p[0][0] is W or p[0][0] is snap(W) or sym.convert_unit(p[0][0], 'ns', 'us') is W
         or sym.convert_unit(W, 'us', 'ns') is p[0][0])
    G.add('Time is the time asked for', ok or None, p[0] if not ok else '')


def generalised(pc, goal, e):
    """goal with the term e replaced by any real"""
    x = tm.sym('any real')
    m = {e: x}
    return implied([tm.subst(c, m) for c in pc], tm.subst(goal, m))


def eot_sum(N, pc, val, e):
    x = tm.sym('any real')
    return implied([tm.subst(c, {e: x}) for c in pc], tm.eq(tm.subst(val, {e: x}), x))


def p_C19(rep):
    base(rep)
    rep.function('_cli.main.parse_latitude', '_cli.main.parse_longitude', '_cli.main.at', '_cli.position.calculate_position',
                 '_cli.position.format_time', *METHODS)
    G = Groups(rep, '_cli.main: ')

    def coords():
        w, u, main, commands, out = cli_world()
        f = commands.get('at')
        if f is None:
            raise SUP('no command at')
        ps = [p.default for p in inspect.signature(f).parameters.values()
              if isinstance(p.default, Param) and p.default.kind == 'argument']
        if len(ps) != 3 or not callable(ps[1].kw.get('parser')) or not callable(ps[2].kw.get('parser')):
            raise SUP('parsers of the coordinates')
        parse_obligations(G, ps[1].kw['parser'], 'latitude', 'n', 's', -90, 90, True)
        parse_obligations(G, ps[2].kw['parser'], 'longitude', 'e', 'w', -180, 180, False)
    guarded(rep, '_cli.main: coordinates', coords)
    G.close()
    G = Groups(rep, '_cli.main.at: ')
    N = nf.NF()

    def at():
        world = cli_world()
        for algo in ('psa', 'nrel', 'soltrack', 'iqbal'):
            for ref in (True, False):
                for zone in (ZONE, 'UTC'):
                    for how in ('text', 'now'):
                        at_case(G, N, world, algo, ref, zone, how)
    guarded(rep, '_cli.main.at: prints', at)
    G.close()
    rep.assume('typer hands the arguments to the command, the coordinates through their parsers; tabulate prints the values '
               'it is given (checked at run time, bounded)',
               'Python formats numbers with .4f and times with %H:%M:%S correctly',
               'wall-clock times that the time zone repeats or skips are rejected by pandas',
               'other suffixes: one representative of each character up to U+024F and of those that case mapping relates to '
               'N, S, E, W')
    return 'proof', ('the command line run symbolically, for every time, place and zone; printed values compared with the '
                     'terms of the library')
