"""Side conditions t > 0 of the normal-form prover, by interval arithmetic."""
import numpy as np
from pyded import terms as tm, interval, bb, extract
from .common import epoch

_MEMO = {}
RANGES = {tm.sym('dec'): (-1., 1.)}          # established where the symbol is introduced


def domain(t, w=86400 * 128, lo='1700-01-01', hi='2260-01-01'):
    fv = tm.free(t)
    b = {}
    if extract.t_ in fv:
        b[extract.t_] = bb.t_boxes(epoch(lo), epoch(hi), w)
    if extract.lat_ in fv:
        b[extract.lat_] = (np.array([-90.]), np.array([90.]))
    if extract.lon_ in fv:
        b[extract.lon_] = (np.array([-180.]), np.array([180.]))
    for n, r in RANGES.items():
        if n in fv:
            b[n] = (np.array([r[0]]), np.array([r[1]]))
    return b if len(b) == len(fv) else None


def positive(t):
    """t > 0 for all instants 1700-2260 and all places (a certificate, or False)"""
    if t in _MEMO:
        return _MEMO[t]
    _MEMO[t] = False
    key, t = t, tm.rewrite(t, lambda u: tm.ite(u.args[0], tm.ONE, tm.ZERO) if u.op == 'ind' else None)
    if tm.size(t) > 6000 or tm.is_bool(t):
        return False
    b = domain(t)
    if b is None:
        return False
    if not b:
        b = {tm.sym('unit'): (np.array([0.]), np.array([1.]))}
    try:
        r = bb.prove(t, 1e-12, np.inf, b, [s for s in b if s is extract.t_], ints=(extract.t_,),
                     max_boxes=20000, secs=2., split=[s for s in b if s is extract.t_] or None)
    except Exception:
        return False
    _MEMO[key] = r.status == 'proved'
    return _MEMO[key]
