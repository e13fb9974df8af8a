"""Symbolic integers (z3 Int terms).  Arithmetic and comparisons stay symbolic; use as an index forks over the feasible values."""
import numbers
import operator
import z3
from . import paths
from .scalar import Unsupported


def _t(x):
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    try:
        return z3.IntVal(operator.index(x))
    except TypeError:
        pass
    from fractions import Fraction
    try:
        f = Fraction(x)
    except Exception:
        c = getattr(x, 'const', None)
        c = c() if c else None
        if c is None:
            return None
        f = c
    return z3.RealVal(str(f))


class SInt:
    __slots__ = ('e',)
    __array_priority__ = 6

    def __init__(self, e):
        self.e = z3.simplify(e)

    def _b(self, o, f, r=False):
        t = _t(o)
        if t is None:
            return NotImplemented
        if t.sort() != z3.IntSort():
            # leave the integers: only concrete values are supported
            a = operator.index(self)
            return (lambda x, y: f(x, y))(o, a) if r else f(a, o)
        return SInt(f(t, self.e) if r else f(self.e, t))

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._b(o, lambda a, b: a * b, True)
    def __neg__(self): return SInt(-self.e)
    def __pos__(self): return self

    def __abs__(self): return SInt(z3.If(self.e >= 0, self.e, -self.e))

    def __floordiv__(self, o):
        if isinstance(o, SInt):
            o = operator.index(o)
        o = operator.index(o)
        if o == 0:
            raise ZeroDivisionError
        if o > 0:
            return SInt(self.e / o)
        return SInt((-self.e) / (-o))

    def __rfloordiv__(self, o): return operator.index(o) // operator.index(self)

    def __mod__(self, o):
        o = operator.index(o)
        return self - o * (self // o)

    def __rmod__(self, o): return operator.index(o) % operator.index(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o): return operator.index(self) / o
    def __rtruediv__(self, o): return o / operator.index(self)
    def __pow__(self, o): return operator.index(self) ** o

    def _c(self, o, f, g):
        t = _t(o)
        if t is None:
            return NotImplemented
        a = self.e
        x, y = z3.simplify(f(a, t)), z3.simplify(g(a, t))
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
        return paths.SBool(lambda p: x, lambda p: y)

    def __lt__(self, o): return self._c(o, lambda a, b: a < b, lambda a, b: a >= b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b, lambda a, b: a > b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b, lambda a, b: a <= b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b, lambda a, b: a < b)

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b, lambda a, b: a != b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._c(o, lambda a, b: a != b, lambda a, b: a == b)
        return True if r is NotImplemented else r

    __hash__ = None

    def __bool__(self): return bool(self != 0)

    def __index__(self):
        e = self.e
        if z3.is_int_value(e):
            return e.as_long()
        if paths.CUR is None:
            raise Unsupported('index outside of an exploration')
        while True:
            v = paths.CUR.pick(e)
            if paths.CUR.decide(lambda p, v=v: e == v, lambda p, v=v: e != v):
                return v

    def __int__(self): return operator.index(self)
    def __float__(self): return float(operator.index(self))
    def __round__(self, n=None): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    def __trunc__(self): return self
    def __format__(self, spec): return format(operator.index(self), spec)
    def __repr__(self): return f'SInt({self.e})'
    def __str__(self): return str(operator.index(self))
    def conjugate(self): return self

    @property
    def real(self): return self

    @property
    def imag(self): return 0

    def __deepcopy__(self, memo): return self


numbers.Integral.register(SInt)
