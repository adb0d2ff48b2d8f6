"""Operations of spa_spec over terms: the published text as a specification term."""
from fractions import Fraction
from pyded import terms as tm


class X:
    def __init__(self, t):
        self.t = t

    def __add__(self, o):
        return X(tm.add(self.t, o.t))

    def __sub__(self, o):
        return X(tm.sub(self.t, o.t))

    def __mul__(self, o):
        return X(tm.mul(self.t, o.t))

    def __truediv__(self, o):
        return X(tm.div(self.t, o.t))

    def __neg__(self):
        return X(tm.neg(self.t))

    def __pow__(self, n):
        return X(tm.power(self.t, tm.const(n)))


def _f(name):
    return staticmethod(lambda *a: X(tm.fn(name, *[x.t for x in a])))


class TermOps:
    sin, cos, tan, atan, asin, atan2 = [_f(n) for n in ('sin', 'cos', 'tan', 'atan', 'asin', 'atan2')]
    pi = X(tm.PI)

    @staticmethod
    def c(x):
        return X(tm.const(Fraction(x) if isinstance(x, (str, int)) else x if isinstance(x, Fraction)
                          else Fraction(repr(float(x)))))

    @staticmethod
    def clip(x):
        return X(tm.fn('max', tm.const(-1), tm.fn('min', tm.ONE, x.t)))

    @staticmethod
    def ge(a, b):
        return X(tm.le(b.t, a.t))

    @staticmethod
    def where(c, a, b):
        return X(tm.ite(c.t, a.t, b.t))
