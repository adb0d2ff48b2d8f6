"""Branch and bound: proves lo <= term <= hi over a box domain, or finds a point
where it fails."""
import time
import numpy as np
from . import terms as tm, interval, evalnum

STATS = {'boxes': 0, 'calls': 0, 'secs': 0.}


def t_boxes(a, b, w):
    """closed boxes of integer instants [a, b) of width w seconds"""
    e = np.arange(a, b, w)
    return e.astype(float), np.minimum(e + w - 1, b - 1).astype(float)


class Result:
    def __init__(self, status, detail='', point=None, rng=None):
        self.status, self.detail, self.point, self.rng = status, detail, point, rng

    def __bool__(self):
        return self.status == 'proved'

    def pair(self):
        return self.status, self.detail


def prove(terms, lo, hi, boxes, diff, ints=(), scale=None, max_boxes=400000, secs=60., min_width=None, split=None):
    """every term in [lo, hi] on every box.  boxes: {sym: (lo array, hi array)};
    ints: symbols that range over integers."""
    t0 = time.time()
    terms = [terms] if isinstance(terms, tm.T) else list(terms)
    syms = list(boxes)
    n = max(len(np.atleast_1d(boxes[s][0])) for s in syms)
    act = {s: [np.broadcast_to(np.asarray(x, float), (n,)).copy() for x in boxes[s]] for s in syms}
    scale = scale or {}
    split = split or [s for s in syms]
    total = 0
    glo, ghi = np.inf, -np.inf
    err = None
    STATS['calls'] += 1
    while True:
        n = len(act[syms[0]][0])
        total += n
        if n == 0:
            STATS['secs'] += time.time() - t0
            return Result('proved', 'enclosed in [%.9g, %.9g], %d boxes' % (glo, ghi, total), rng=(glo, ghi))
        if total > max_boxes or time.time() - t0 > secs:
            STATS['secs'] += time.time() - t0
            return Result('undecided', 'limit reached with %d boxes left; %s' % (n, err or ''),
                          rng=None)
        STATS['boxes'] += n
        ok = np.ones(n, bool)
        try:
            rs = interval.ranges(terms, {s: tuple(v) for s, v in act.items()}, diff)
            for a, b in rs:
                k = (a >= lo) & (b <= hi)
                ok &= k
            for a, b in rs:
                if ok.any():
                    glo, ghi = min(glo, a[ok].min()), max(ghi, b[ok].max())
            err = None
        except interval.GiveUp as e:
            ok[:] = False
            err = 'interval: %s' % e
            if n > max_boxes // 4:
                return Result('undecided', err)
        bad = ~ok
        if not bad.any():
            act = {s: [x[bad] for x in v] for s, v in act.items()}
            continue
        act = {s: [x[bad] for x in v] for s, v in act.items()}
        # a point that fails?
        env = {}
        for s in syms:
            c = (act[s][0] + act[s][1]) / 2
            env[s] = np.floor(c) if s in ints else c
        try:
            vs = evalnum.evaluate(terms, env)
            for v in vs:
                v = np.broadcast_to(np.asarray(v, float), (bad.sum(),))
                w = ~((v >= lo) & (v <= hi))
                if w.any():
                    d = np.where(np.isnan(v), np.inf, np.maximum(lo - v, v - hi))
                    i = int(np.argmax(d))
                    STATS['secs'] += time.time() - t0
                    return Result('refuted', 'value %r at %s' % (float(v[i]), {str(s.val): float(env[s][i]) for s in syms}),
                                  {s: float(env[s][i]) for s in syms})
        except KeyError:
            pass
        # split the widest (scaled) side
        wid = np.stack([(act[s][1] - act[s][0]) * scale.get(s, 1.) * (1. if s in split else 0.) for s in syms])
        k = np.argmax(wid, axis=0)
        if (wid.max(axis=0) <= (min_width or 0)).any():
            STATS['secs'] += time.time() - t0
            return Result('undecided', 'box too small; %s' % (err or ''))
        L = {s: [x.copy() for x in v] for s, v in act.items()}
        R = {s: [x.copy() for x in v] for s, v in act.items()}
        for q, s in enumerate(syms):
            m = k == q
            c = (act[s][0] + act[s][1]) / 2
            if s in ints:
                c = np.floor(c)
                L[s][1] = np.where(m, c, L[s][1])
                R[s][0] = np.where(m, np.minimum(c + 1, act[s][1]), R[s][0])
            else:
                L[s][1] = np.where(m, c, L[s][1])
                R[s][0] = np.where(m, c, R[s][0])
        act = {s: [np.concatenate([L[s][j], R[s][j]]) for j in (0, 1)] for s in syms}
