"""what double arithmetic does to the values of each sunpos: obligations over the terms of an extraction that keeps every
operation of the code (pyded.rounding)"""
import itertools
import numpy as np
from pyded import terms as tm, extract, nf, rounding as rd

t_, lat_, lon_ = extract.t_, extract.lat_, extract.lon_
DAY0, DAY1 = (int(np.datetime64(d, 'D').astype(int)) for d in ('1900-01-01', '2101-01-01'))
_RAW = {}


def raw(mod, nd, ref):
    k = (mod, nd, ref)
    if k not in _RAW:
        old, tm.ONE_BY_ONE[0] = tm.ONE_BY_ONE[0], True
        try:
            _RAW[k] = extract.Extraction(*k).run()
        finally:
            tm.ONE_BY_ONE[0] = old
    return _RAW[k]


def excused(t, a, b):
    """the refraction sets in at a true elevation of -0.8333 degrees; the statements leave out 0.0002 degrees about it"""
    for x, y in ((a, b), (b, a)):
        if y.k is not None and x.P == 0 and (x.E <= 1e-6).all() and abs(abs(y.k) - np.radians(.8333)) < np.radians(1e-4):
            return True


def of_time(terms, reciprocal, chunk=6144, days=(DAY0, DAY1)):
    """summaries of every node that depends on t alone; E over all the days"""
    only = [x for x in tm.children_first(terms) if tm.free(x) <= {t_}]
    total = None
    for d in range(days[0], days[1], chunk):
        k = np.arange(d, min(d + chunk, days[1]), dtype='float64')
        o = 0 * k
        er = rd.Errors(len(k), {t_: rd.S((86400 * k, 86400 * k + 86399), o)}, reciprocal=reciprocal)
        er.run(only)
        now = {x: rd.summary(er.memo[x]) for x in only}
        total = now if total is None else {x: rd.join(total[x], now[x]) for x in only}
    return total


def places(roots, times, reciprocal):
    """one box: any instant, any place"""
    one = np.zeros(1)
    given = dict(times)
    given[lat_] = rd.S((one - 90, one + 90), one)
    given[lon_] = rd.S((one - 180, one + 180), one)
    er = rd.Errors(1, given, excused=excused, reciprocal=reciprocal)
    return er, er.run(roots)


def sphere(t, given, positive_cos):
    """t = arccos or arcsin of (clipped) sin a sin b + cos a cos b cos c: (X, a, b, c), the latitude being a"""
    x = t.args[0]
    while x.op in ('min', 'max'):
        k = [q for q in x.args if not tm.isc(q)]
        if len(k) != 1:
            return None
        x = k[0]
    leaves = set()
    todo, seen = [x], set()
    while todo:                     # the arguments of the outermost sines and cosines
        q = todo.pop()
        if q in seen:
            continue
        seen.add(q)
        if q.op in ('sin', 'cos', 'tan'):
            leaves.add(q.args[0])
        else:
            todo += q.args
    a = [q for q in leaves if tm.free(q) == {lat_}]
    if len(a) != 1 or len(leaves) != 3:
        return None
    a = a[0]
    N = nf.NF(positive=positive_cos)
    for b, c in itertools.permutations([q for q in leaves if q is not a]):
        m = {a: A, b: D, c: H}
        y = tm.subst(x, m)
        want = tm.add(tm.mul(tm.fn('sin', A), tm.fn('sin', D)), tm.mul(tm.fn('cos', A), tm.fn('cos', D), tm.fn('cos', H)))
        if tm.free(y) <= {A, D, H} and N.equal(y, want):
            return x, a, b, c
    return None


A, D, H, Z = tm.sym('^a'), tm.sym('^d'), tm.sym('^h'), tm.sym('^z')


def exactly(s):
    """the same values, free of errors"""
    return rd.S(s.U, 0 * s.E, s.R, s.P, s.k)


def sky(T, times, reciprocal):
    """error bounds of zenith and of azimuth times the sine of zenith: (E_z, E_a, exclusions)"""
    z, az = T['zenith'], T['azimuth']
    arcs = [x for x in tm.children_first([z]) if x.op in ('acos', 'asin') and lat_ in tm.free(x)]
    arc = arcs[-1] if arcs else None
    found = None
    for arc in reversed(arcs):
        found = sphere(arc, times, lambda q: q.op == 'cos' and q.args[0] in (A, D))
        if found and tm.free(tm.subst(z, {arc: Z})) == {Z}:
            break
        found = None
    if found is None:
        raise rd.GiveUp('zenith is no function of one arc of spherical astronomy')
    x, a, b, c = found
    er, (sa, sb, sc) = places([a, b, c], times, reciprocal)
    if sa.P or sb.P or not (np.abs(sb.U[0]) < 1.5).all() or not (np.abs(sb.U[1]) < 1.5).all() \
            or not (sa.M <= np.pi / 2 + 1e-12).all() or sc.P and not rd.multiple(sc.P, rd.TWO_PI):
        raise rd.GiveUp('latitude, declination or hour angle out of range')
    moved = float(sa.E[0] + sb.E[0] + sc.E[0])      # each turns the direction by that much at most
    if not moved < 1e-3:
        raise rd.GiveUp('errors of the hour angle')
    given = {a: exactly(sa), b: exactly(sb), c: exactly(sc)}
    own = rd.Errors(1, given, reciprocal=reciprocal)
    e_arc = float(own.run([arc])[0].E[0]) + moved
    # zenith as a function of the arc
    edge = np.linspace(0, np.pi, 8193) + (0 if arc.op == 'acos' else -np.pi / 2)
    lo, hi = edge[:-1] - 1e-12, edge[1:] + 1e-12
    on = rd.Errors(len(lo), {arc: rd.S((lo, hi), e_arc + 0 * lo)}, excused=excused, reciprocal=reciprocal)
    sz = on.run([z])[0]
    # azimuth
    tops = [q for q in tm.children_first([az]) if q.op == 'atan2' and lat_ in tm.free(q)]
    at = tops[-1] if tops else None
    if at is None:
        raise rd.GiveUp('azimuth is no arc tangent')
    m = {a: A, b: D, c: H}
    Y, X, C = [tm.subst(q, m) for q in (at.args[0], at.args[1], x)]
    N = nf.NF(positive=lambda q: q.op == 'cos' and q.args[0] in (A, D))
    def squares(f):
        y, x = [N.term(N.poly(tm.mul(q, f))) for q in (Y, X)]
        s = tm.add(tm.mul(y, y), tm.mul(x, x))
        return tm.free(s) <= {A, D, H} and N.equal(s, tm.sub(tm.ONE, tm.mul(C, C)))
    if not squares(tm.fn('cos', D)) and not squares(tm.ONE):
        raise rd.GiveUp('azimuth is not the arc tangent of east and north components')
    own.run(at.args)
    ex, ey = [float(own.memo[q].E[0]) for q in at.args]
    e_az = np.pi * (moved + np.hypot(ex, ey))
    last = rd.Errors(1, {at: rd.S((np.full(1, -np.pi), np.full(1, np.pi)), np.full(1, e_az + rd.FUN * np.pi),
                                  (np.full(1, -np.pi - 1e-12), np.full(1, np.pi + 1e-12)), rd.TWO_PI)}, reciprocal=reciprocal)
    sz_az = last.run([az])[0]
    if not rd.multiple(sz_az.P, rd.TWO_PI):
        raise rd.GiveUp('azimuth modulo %g' % sz_az.P)
    return sz, float(sz_az.E[0]), bool(on.exclusions)


EOT = 20.       # minutes; C06 proves that the equation of time stays within it


def settled(e, s_of, times, reciprocal):
    """the equation of time is computed to within E, not only modulo a day: (E, None) or (None, why)"""
    day = 1440.
    if times[e].P == 0:
        return float(times[e].E[0]), None
    if not rd.multiple(times[e].P, day) and not rd.multiple(day, times[e].P):
        return None, 'modulo %g' % times[e].P

    def congruent(t, x):
        if t is x:
            return True
        if t.op == 'ite':
            return congruent(t.args[1], x) and congruent(t.args[2], x)
        if t.op == 'add':
            for p, q in (t.args, t.args[::-1]):
                if times[q].k is not None and rd.multiple(times[q].k, day) and congruent(p, x):
                    return True
        return t.op == 'mod' and times[t.args[1]].k == day and congruent(t.args[0], x)

    why = 'no base'
    for x in tm.children_first([e]):
        s = times[x]
        if isinstance(s, rd.B) or not congruent(e, x) or not np.isfinite(s.R[0] + s.R[1]).all():
            continue
        k = np.arange(np.ceil((s.R[0][0] - EOT) / day), np.floor((s.R[1][0] + EOT) / day) + 1)
        if not 1 <= len(k) <= 20:
            continue
        err = float(s.E[0])
        o = 0 * k
        er = rd.Errors(len(k), {x: rd.S((day * k - EOT + .1, day * k + EOT - .1), o + err)}, reciprocal=reciprocal)
        try:
            f = er.run([e])[0]
        except rd.GiveUp as ex:
            why = str(ex)
            continue
        if f.P == 0 and (f.R[0] > -day / 2).all() and (f.R[1] < day / 2).all():
            return float(max(f.E.max(), times[e].E[0])), None
        why = 'wraps may differ'
    return None, why


LIMITS = {'declination': (1e-9, '1e-9 rad'), 'eot': (1e-6, '1e-6 minutes'), 'ecf': (1e-10, '1e-10'),
          'zenith': (1e-6, '1e-6 rad'), 'azimuth': (1e-6, '1e-6 rad divided by the sine of zenith, modulo a turn')}


def bounds(mod, nd, ref, memo={}):
    """{output: (error bound or None, note)}"""
    x = raw(mod, nd, ref)
    if x.error:
        return {v: (None, x.error) for v in LIMITS}
    T = {v: x.term(v) for v in LIMITS}
    if any(t is None for t in T.values()):
        return {v: (None, 'paths differ') for v in LIMITS}
    key = tuple(T[v].id for v in LIMITS)
    if key in memo:
        return memo[key]
    r = {}
    try:
        numexpr = mod.startswith('ne_')
        flat = [q for q in tm.children_first(list(T.values())) if tm.free(q) <= {t_}]
        k = (frozenset(q.id for q in flat), numexpr)
        if k not in memo:
            memo[k] = of_time(flat, numexpr)
        times = memo[k]
        for v in ('declination', 'ecf'):
            s = times[T[v]]
            r[v] = (float(s.E[0]), 'to within %.2g' % s.E[0]) if s.P == 0 else (None, 'modulo %g' % s.P)
        e, why = settled(T['eot'], None, times, numexpr)
        r['eot'] = (e, why or 'to within %.2g' % e)
        try:
            sz, ea, cut = sky(T, times, numexpr)
            ez = float(sz.E.max())
            r['zenith'] = (ez if sz.P == 0 else None, 'to within %.2g%s' % (
                ez, '; places within 1e-4 degrees of -0.8333 left out, as in the statement' if cut else ''))
            r['azimuth'] = (ea, 'to within %.2g / sin zenith' % ea)
        except rd.GiveUp as ex:
            r['zenith'] = r['azimuth'] = (None, str(ex))
    except (rd.GiveUp, KeyError, ArithmeticError, ValueError, IndexError) as ex:
        for v in LIMITS:
            r.setdefault(v, (None, '%s: %s' % (type(ex).__name__, ex)))
    memo[key] = r
    return r


def obligations(rep, mods, dims=(0, 1, 2)):
    import time
    for mod in mods:
        for ref in (False, True):
            for nd in dims:
                t0 = time.time()
                b = bounds(mod, nd, ref)
                for v in LIMITS:
                    e, why = b[v]
                    lim, says = LIMITS[v]
                    ok = e is not None and e <= lim
                    rep.obligation('libspa.%s.sunpos[ndim=%d,refraction=%s]: in doubles, %s is that of real arithmetic to '
                                   'within %s, 1900-2100, everywhere' % (mod, nd, ref, v, says),
                                   'proved' if ok else 'undecided', 'rounding-error analysis (intervals)',
                                   (time.time() - t0) / len(LIMITS), why)
