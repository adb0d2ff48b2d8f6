"""Numeric evaluation of terms: float64 (vectorised) and mpmath (high precision).

Used (a) to cross-check the extracted terms against CPython running the real
code, (b) to search for, and confirm, counterexamples.  Never used to claim a
proof."""
import numpy as np
from . import terms as tm


def np_year(t):     # years since 1970 of an instant in s
    return np.floor(np.asarray(t)).astype('int64').astype('M8[s]').astype('M8[Y]').astype('int64').astype('float64')


def np_month(t):    # months since 1970-01
    return np.floor(np.asarray(t)).astype('int64').astype('M8[s]').astype('M8[M]').astype('int64').astype('float64')


def np_mstart(m):   # day number of the first day of a month
    return np.asarray(m).astype('int64').astype('M8[M]').astype('M8[D]').astype('int64').astype('float64')


def np_ystart(y):   # month number of the first month of a year
    return 12. * np.asarray(y)


UFS = {'year': np_year, 'month': np_month, 'mstart': np_mstart}


def evaluate(roots, env, ufs=None, r32=False):
    """env: {T(sym/bsym/sel/isnan..): float array}"""
    single = isinstance(roots, tm.T)
    rs = [roots] if single else list(roots)
    memo = {}
    ufs = dict(UFS, **(ufs or {}))
    with np.errstate(all='ignore'):
        for t in tm.children_first(rs):
            if t in env:
                memo[t] = env[t]
                continue
            a = [memo[x] for x in t.args]
            memo[t] = _ev(t, a, ufs, r32)
    return memo[rs[0]] if single else [memo[r] for r in rs]


_F1 = {'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'asin': np.arcsin, 'acos': np.arccos,
       'atan': np.arctan, 'sqrt': np.sqrt, 'exp': np.exp, 'log': np.log, 'abs': np.abs,
       'floor': np.floor, 'trunc': np.trunc, 'ceil': np.ceil, 'log10': np.log10, 'log1p': np.log1p,
       'expm1': np.expm1, 'sinh': np.sinh, 'cosh': np.cosh, 'tanh': np.tanh, 'sign': np.sign}


def _ev(t, a, ufs, r32):
    op = t.op
    if op == 'c':
        return float(t.val)
    if op == 'pi':
        return np.pi
    if op == 'nan':
        return np.nan
    if op == 'inf':
        return np.inf * t.val
    if op == 'true':
        return True
    if op == 'false':
        return False
    if op == 'add':
        r = a[0]
        for x in a[1:]:
            r = r + x
        return r
    if op == 'mul':
        r = a[0]
        for x in a[1:]:
            r = r * x
        return r
    if op == 'div':
        return np.divide(a[0], a[1])
    if op == 'pow':
        return np.power(np.asarray(a[0], 'float64'), a[1])
    if op in _F1:
        return _F1[op](a[0])
    if op == 'r32':
        return np.asarray(a[0]).astype('float32').astype('float64') if r32 else a[0]
    if op == 'rnd':        # round to t.val decimals
        return np.round(a[0], t.val)
    if op == 'atan2':
        return np.arctan2(a[0], a[1])
    if op == 'hypot':
        return np.hypot(a[0], a[1])
    if op == 'mod':
        return np.mod(a[0], a[1])
    if op == 'fmod':
        return np.fmod(a[0], a[1])
    if op == 'max':
        return np.maximum(a[0], a[1])
    if op == 'min':
        return np.minimum(a[0], a[1])
    if op == 'ite':
        return np.where(a[0], a[1], a[2])
    if op == 'lt':
        return np.less(a[0], a[1])
    if op == 'le':
        return np.less_equal(a[0], a[1])
    if op == 'eq':
        return np.equal(a[0], a[1])
    if op == 'not':
        return np.logical_not(a[0])
    if op == 'and':
        r = np.asarray(a[0], bool)
        for x in a[1:]:
            r = np.logical_and(r, x)
        return r
    if op == 'lut':
        tab = np.array([float(v) for v in t.val])
        i = np.asarray(a[0])
        ok = (i >= -len(tab)) & (i < len(tab))
        return np.where(ok, tab[np.where(ok, i, 0).astype(int)], np.nan)
    if op == 'isnan':
        return np.isnan(a[0]) if a else False
    if op in ufs:
        return ufs[op](*a)
    if op == 'uf' and t.val in ufs:
        return ufs[t.val](*a)
    if op in ('sel', 'uf', 'bsel') and ('*' in ufs):
        return ufs['*'](t, a)
    raise KeyError('cannot evaluate %s:%s' % (op, t.val))


def evaluate_mp(root, env, prec=60):
    import mpmath as mp
    with mp.workdps(prec):
        memo = {}
        for t in tm.children_first([root]):
            if t in env:
                memo[t] = mp.mpf(env[t]) if not isinstance(env[t], bool) else env[t]
                continue
            memo[t] = _ev_mp(t, [memo[x] for x in t.args], mp)
        return memo[root]


def _ev_mp(t, a, mp):
    op = t.op
    nan = mp.nan
    if op == 'c':
        return mp.mpf(t.val.numerator) / t.val.denominator
    if op == 'pi':
        return +mp.pi
    if op == 'nan':
        return nan
    if op == 'true':
        return True
    if op == 'false':
        return False
    if op == 'add':
        return mp.fsum(a)
    if op == 'mul':
        return mp.fprod(a)
    if op == 'div':
        return a[0] / a[1] if a[1] != 0 else nan
    if op == 'pow':
        return a[0] ** a[1]
    if op in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'sinh', 'cosh', 'tanh'):
        if op in ('asin', 'acos') and abs(a[0]) > 1:
            return nan
        return getattr(mp, op)(a[0])
    if op == 'sqrt':
        return mp.sqrt(a[0]) if a[0] >= 0 else nan
    if op == 'abs':
        return abs(a[0])
    if op == 'floor':
        return mp.floor(a[0])
    if op == 'ceil':
        return mp.ceil(a[0])
    if op == 'trunc':
        return mp.floor(a[0]) if a[0] >= 0 else mp.ceil(a[0])
    if op == 'r32':
        return a[0]
    if op == 'rnd':
        s = mp.mpf(10) ** t.val
        return mp.nint(a[0] * s) / s
    if op == 'atan2':
        return mp.atan2(a[0], a[1])
    if op == 'hypot':
        return mp.sqrt(a[0] ** 2 + a[1] ** 2)
    if op == 'mod':
        return a[0] - a[1] * mp.floor(a[0] / a[1])
    if op == 'max':
        return max(a)
    if op == 'min':
        return min(a)
    if op == 'ite':
        return a[1] if a[0] else a[2]
    if op == 'lt':
        return bool(a[0] < a[1])
    if op == 'le':
        return bool(a[0] <= a[1])
    if op == 'eq':
        return bool(a[0] == a[1])
    if op == 'not':
        return not a[0]
    if op == 'and':
        return all(a)
    if op == 'lut':
        i = int(a[0])
        return mp.mpf(t.val[i].numerator) / t.val[i].denominator if -len(t.val) <= i < len(t.val) else nan
    if op in UFS:
        return mp.mpf(float(UFS[op](float(a[0]))))
    if op == 'isnan':
        return False
    raise KeyError(op)
