"""Symbolic scalars: fractions of Laurent polynomials (poly.py), with the Python number protocol numpy's object arrays use."""
import math
import random
import cmath
import numbers
from fractions import Fraction
import numpy as np
from . import poly as P

FACT = {}      # key -> (id)
FACTORS = []   # id -> poly


class Unsupported(Exception):
    """the symbolic encoding does not cover this operation"""


def reset():
    P.reset()
    FACT.clear()
    FACTORS.clear()
    _float_cache.clear()
    _ZVAL.clear()
    S.ZERO = S({})
    S.ONE = S({P.ONE_M: 1})
    S.I = S({((P.I_, 1),): 1})


_float_cache = {}


def _snap(x):
    """rational r close to x up to float rounding, or None"""
    if x == 0:
        return Fraction(0)
    r = Fraction(x).limit_denominator(10000)
    if r and abs(float(r) - x) <= 8e-16 * abs(x):
        return r
    return None


def lift_float(x):
    if x != x or x in (math.inf, -math.inf):
        raise Unsupported(f'non finite float {x}')
    r = _float_cache.get(x)
    if r is None:
        r = _snap(x)
        if r is not None:
            r = {P.ONE_M: r} if r else {}
        else:
            for v, k in ((P.PI_, math.pi), (P.R3_, math.sqrt(3)), (P.R2_, math.sqrt(2))):
                q = _snap(x / k)
                if q is not None and q.denominator <= 720:
                    r = {((v, 1),): q}
                    break
            else:
                for k, m in ((1 / math.pi, ((P.PI_, -1),)), (math.pi ** 2, ((P.PI_, 2),))):
                    q = _snap(x / k)
                    if q is not None and q.denominator <= 100:
                        r = {m: q}
                        break
                else:
                    r = {P.ONE_M: Fraction(repr(float(x)))}
        r = {m: (c.numerator if isinstance(c, Fraction) and c.denominator == 1 else c) for m, c in r.items()}
        _float_cache[x] = r
    return r


class Undef:
    """result of a division by zero (nan or infinity in numpy): absorbs arithmetic, cannot be compared"""
    __array_priority__ = 2000
    shape, ndim = (), 0

    def _me(self, *a, **k):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __pos__ = __pow__ = _me
    __abs__ = conjugate = conj = copy = sqrt = _me
    real = property(_me)
    imag = property(_me)

    def _no(self, *a):
        raise Unsupported('value after a division by zero is used in a decision')
    __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __float__ = __complex__ = __int__ = _no

    def __repr__(self):
        return 'undefined'


UNDEF = Undef()


def lift(x):
    if isinstance(x, S):
        return x
    if isinstance(x, (bool, np.bool_)):
        return S.ONE if x else S.ZERO
    if isinstance(x, (int, np.integer)):
        return S({P.ONE_M: int(x)}) if x else S.ZERO
    if isinstance(x, (float, np.floating)):
        return S(lift_float(float(x)))
    if isinstance(x, (complex, np.complexfloating)):
        x = complex(x)
        if x.imag == 0:
            return S(lift_float(x.real))
        return S(P.padd(lift_float(x.real), P.pmul(lift_float(x.imag), {((P.I_, 1),): 1})))
    if isinstance(x, Fraction):
        return S({P.ONE_M: x}) if x else S.ZERO
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return NotImplemented


def _factor(poly):
    """intern a polynomial denominators factor; returns (unit as S-poly to multiply the inverse with, id or None)"""
    if len(poly) == 1:
        (m, c), = poly.items()
        inv = P.mono_inv(m, c)
        if inv is not None:
            return inv, None
    ct = P.content(poly)
    m = tuple(sorted((v, e) for v, e in ct.items() if e))
    unit = {P.ONE_M: 1}
    if m:
        im = P.mono_inv(m, 1)
        if im is not None:
            poly = P.pmul(poly, im)
            unit = im
    lead = P._lead(poly)
    c = poly[lead]
    if c != 1:
        poly = P.pscale(poly, Fraction(1) / c)
        unit = P.pscale(unit, Fraction(1) / c)
    if len(poly) == 1:
        (m, c), = poly.items()
        inv = P.mono_inv(m, c)
        if inv is not None:
            return P.pmul(unit, inv), None
    key = frozenset(poly.items())
    i = FACT.get(key)
    if i is None:
        i = len(FACTORS)
        FACT[key] = i
        FACTORS.append(poly)
    return unit, i


def _mkden(d):
    return tuple(sorted((k, p) for k, p in d.items() if p))


def _elem(a, f):
    from .arr import _map
    return _map(lambda e: f(lift(e)), a)


class S:
    __slots__ = ('num', 'den', '_c', '_h')
    __array_priority__ = 5
    ZERO = ONE = I = None

    def __init__(self, num, den=()):
        self.num = num
        self.den = den if num else ()
        self._c = None
        self._h = None

    # ------------------------------------------------------------------ structure
    def key(self):
        if self._h is None:
            self._h = (frozenset(self.num.items()), self.den)
        return self._h

    def is_zero(self):
        return not self.num

    def const(self):
        """exact rational value or None"""
        if self.den:
            return None
        if not self.num:
            return Fraction(0)
        if len(self.num) == 1 and P.ONE_M in self.num:
            return Fraction(self.num[P.ONE_M])
        return None

    def constvalue(self):
        """numerical (complex) value if only constants (numbers, pi, roots) occur, else None"""
        for p in [self.num] + [FACTORS[i] for i, _ in self.den]:
            for m in p:
                for v, _ in m:
                    if v > P.PI_:
                        return None
        x = P.peval(self.num, P.const_value)
        for i, k in self.den:
            x = x / P.peval(FACTORS[i], P.const_value) ** k
        return x

    def variables(self):
        s = set(v for m in self.num for v, _ in m)
        for i, _ in self.den:
            s |= set(v for m in FACTORS[i] for v, _ in m)
        return s

    # ------------------------------------------------------------------ arithmetic
    @staticmethod
    def _cancel(num, den):
        if not den or not num:
            return S(num, den)
        d = dict(den)
        for i in list(d):
            f = FACTORS[i]
            while d[i] > 0:
                q = P.pdivexact(num, f)
                if q is None:
                    break
                num = q
                d[i] -= 1
                if not num:
                    break
        return S(num, _mkden(d))

    def _add(self, o, sign=1):
        if not o.num:
            return self
        if not self.num:
            return o if sign == 1 else -o
        on = o.num
        if self.den == o.den:
            n = P.padd(self.num, on) if sign == 1 else P.psub(self.num, on)
            return S._cancel(n, self.den) if self.den else S(n)
        da, db = dict(self.den), dict(o.den)
        l = dict(da)
        for k, p in db.items():
            l[k] = max(l.get(k, 0), p)
        est_a, est_b = len(self.num), len(on)
        for k, p in l.items():
            est_a *= len(FACTORS[k]) ** (p - da.get(k, 0))
            est_b *= len(FACTORS[k]) ** (p - db.get(k, 0))
        if est_a + est_b > LAZY:
            return L([(self.den, self.num), (o.den, on if sign == 1 else P.pscale(on, -1))])
        na, nb = self.num, on
        for k, p in l.items():
            for _ in range(p - da.get(k, 0)):
                na = P.pmul(na, FACTORS[k])
            for _ in range(p - db.get(k, 0)):
                nb = P.pmul(nb, FACTORS[k])
        n = P.padd(na, nb) if sign == 1 else P.psub(na, nb)
        return S._cancel(n, _mkden(l))

    def __add__(self, o):
        if isinstance(o, np.ndarray) and o.ndim: return _elem(o, lambda e: self + e) if type(o) is np.ndarray else NotImplemented
        o = lift(o)
        if type(o) is L: return o + self
        return o if o is NotImplemented else self._add(o)

    def __radd__(self, o):
        if isinstance(o, np.ndarray) and o.ndim: return _elem(o, lambda e: e + self)
        return self.__add__(o)

    def __sub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim: return _elem(o, lambda e: self - e) if type(o) is np.ndarray else NotImplemented
        o = lift(o)
        if type(o) is L: return (-o) + self
        return o if o is NotImplemented else self._add(o, -1)

    def __rsub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim: return _elem(o, lambda e: e - self)
        o = lift(o)
        return o if o is NotImplemented else o - self

    def __neg__(self):
        return S(P.pscale(self.num, -1), self.den)

    def __pos__(self):
        return self

    def _mul(self, o):
        if not self.num or not o.num:
            return S.ZERO
        n = P.pmul(self.num, o.num)
        if not self.den and not o.den:
            return S(n)
        d = dict(self.den)
        for k, p in o.den:
            d[k] = d.get(k, 0) + p
        return S._cancel(n, _mkden(d))

    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim: return _elem(o, lambda e: self * e) if type(o) is np.ndarray else NotImplemented
        o = lift(o)
        if type(o) is L: return o * self
        return o if o is NotImplemented else self._mul(o)

    def __rmul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim: return _elem(o, lambda e: e * self)
        return self.__mul__(o)

    def inv(self):
        if not self.num:
            raise ZeroDivisionError('symbolic division by zero')
        unit, f = _factor(self.num)
        n = unit
        for k, p in self.den:
            for _ in range(p):
                n = P.pmul(n, FACTORS[k])
        r = S(n, ((f, 1),) if f is not None else ())
        if f is not None:
            r = S._cancel(n, r.den)
        return r

    def __truediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim: return _elem(o, lambda e: self / e) if type(o) is np.ndarray else NotImplemented
        if o is UNDEF:
            return o
        o = lift(o)
        if o is NotImplemented:
            return o
        try:
            i = o.inv()
        except ZeroDivisionError:
            return UNDEF
        return self._mul(i)

    def __rtruediv__(self, o):
        try:
            i = self.inv()
        except ZeroDivisionError:
            i = UNDEF
        if isinstance(o, np.ndarray) and o.ndim:
            return _elem(o, lambda e: e * i)
        o = lift(o)
        return o if o is NotImplemented else o * i

    def __pow__(self, e):
        if isinstance(e, np.ndarray) and e.ndim:
            from .arr import SymArray
            out = np.empty(e.shape, dtype=object)
            for ix in np.ndindex(*e.shape):
                out[ix] = self ** e[ix]
            return out.view(SymArray)
        if isinstance(e, S):
            c = e.const()
            if c is None:
                raise Unsupported('symbolic exponent')
            e = c
        if isinstance(e, (float, np.floating)) or isinstance(e, Fraction):
            if float(e) == int(e):
                e = int(e)
            elif float(e * 2) == int(e * 2):
                return self.sqrt() ** int(e * 2)
            elif float(e * 4) == int(e * 4):
                return self.sqrt().sqrt() ** int(e * 4)
            else:
                raise Unsupported('fractional power')
        e = int(e)
        if e < 0:
            try:
                return self.inv() ** (-e)
            except ZeroDivisionError:
                return UNDEF
        r = S.ONE
        b = self
        while e:
            if e & 1:
                r = r._mul(b)
            e >>= 1
            if e:
                b = b._mul(b)
        return r

    def __rpow__(self, b):
        c = self.const()
        if c is not None and c.denominator == 1:
            return lift(b) ** int(c)
        raise Unsupported('symbolic exponent')

    # ------------------------------------------------------------------ complex structure
    def conjugate(self):
        if self._c is None:
            n = P.pconj(self.num)
            d = {}
            for k, p in self.den:
                unit, f = _factor(P.pconj(FACTORS[k]))
                for _ in range(p):
                    n = P.pmul(n, unit)
                if f is not None:
                    d[f] = d.get(f, 0) + p
            self._c = S(n, _mkden(d))
            self._c._c = self
        return self._c

    conj = conjugate

    @property
    def real(self):
        return (self + self.conjugate()) * Fraction(1, 2)

    @property
    def imag(self):
        return (self - self.conjugate()) * S({((P.I_, 1),): Fraction(-1, 2)})

    def is_real(self):
        return (self - self.conjugate()).is_zero()

    def __abs__(self):
        v = self.constvalue()
        if v is not None and abs(v.imag) < 1e-15 * (1 + abs(v)):
            return self if v.real >= 0 else -self
        if self.den:
            if self.is_real():
                return self if self >= 0 else -self
            r = abs(S(self.num))
            for k, p in self.den:
                r = r / abs(S(FACTORS[k])) ** p
            return r
        sq = self * self.conjugate()
        return sq.sqrt()

    def sqrt(self):
        c = self.const()
        if c is not None:
            if c < 0:
                raise Unsupported('sqrt of negative')
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return lift(Fraction(n, d))
            return lift(math.sqrt(c))
        num = self.num
        res = S.ONE
        # monomial of even positive reals
        if len(num) == 1 and not self.den:
            (m, cc), = num.items()
            if all(P.VARS[v].pos and e % 2 == 0 for v, e in m) and cc > 0:
                return lift(Fraction(cc)).sqrt() * S({tuple((v, e // 2) for v, e in m): 1})
        name = 'sqrt#' + str(abs(hash((frozenset(num.items()), self.den))))
        if self.den:
            # sqrt(n/d) = sqrt(n d)/d for positive d : keep general by defining a^2 = n*d
            n = self
            for k, p in self.den:
                f = S(FACTORS[k])
                n = n * f ** p
                if p % 2:
                    n = n * f
                    res = res / f ** ((p + 1) // 2)
                else:
                    res = res / f ** (p // 2)
            assert not n.den
            num = n.num
            # note: sign of the pulled out factors
            raise Unsupported('sqrt of a fraction')
        v = P.new_var(name, 'alg', pos=True)
        v.sq = num
        return S({((v.idx, 1),): 1})

    # ------------------------------------------------------------------ transcendental functions
    def _lin(self):
        """decompose into {var: rational coefficient of var^1} (+ constant part), or raise"""
        if self.den:
            raise Unsupported('function of a fraction')
        return self.num

    def exp(self):
        if not self.num:
            return S.ONE
        r = S.ONE
        for m, c in self._lin().items():
            d = dict(m)
            ni = d.pop(P.I_, 0)
            rest = tuple(sorted(d.items()))
            if ni:
                r = r * _phase(rest, c)
            else:
                v = P.new_var('E[' + _mname(rest) + ']', 'exp', pos=True, base=rest)
                c = Fraction(c)
                if c.denominator != 1:
                    v = P.new_var('E[' + str(abs(c)) + '*' + _mname(rest) + ']', 'exp', pos=True, base=rest)
                    c = Fraction(1 if c > 0 else -1)
                r = r * S({((v.idx, int(c)),): 1})
        return r

    def cos(self):
        e = (S.I * self).exp()
        return (e + (-(S.I * self)).exp()) * Fraction(1, 2)

    def sin(self):
        e = (S.I * self).exp()
        return (e - (-(S.I * self)).exp()) * S({((P.I_, 1),): Fraction(-1, 2)})

    def tan(self):
        return self.sin() / self.cos()

    def cosh(self):
        return (self.exp() + (-self).exp()) / 2

    def sinh(self):
        return (self.exp() - (-self).exp()) / 2

    def tanh(self):
        return self.sinh() / self.cosh()

    def log(self):
        raise Unsupported('log')

    def rint(self):
        v = self.constvalue()
        if v is None:
            raise Unsupported('round of a symbolic value')
        return lift(round(v.real))

    # ------------------------------------------------------------------ comparisons
    def _cmp(self, o, op):
        o = lift(o)
        if o is NotImplemented:
            return o
        from . import paths
        return paths.compare(self - o, op)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        l = lift(o)
        if l is NotImplemented:
            return False
        return self._cmp(o, '==')

    def __ne__(self, o):
        l = lift(o)
        if l is NotImplemented:
            return True
        return self._cmp(o, '!=')

    __hash__ = None

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __int__(self):
        v = self.constvalue()
        if v is None:
            raise Unsupported('int() of a symbolic value')
        return int(v.real + (1e-12 if v.real > 0 else -1e-12))

    def __floor__(self):
        v = self.constvalue()
        if v is None:
            raise Unsupported('floor of a symbolic value')
        return math.floor(v.real + 1e-12)

    def __round__(self, n=None):
        c = self.const()
        v = self.constvalue()
        if v is None:
            raise Unsupported('round of a symbolic value')
        return round(v.real, n) if n is not None else round(v.real)

    def __float__(self):
        v = self.constvalue()
        if v is None:
            raise Unsupported('float() of a symbolic value')
        return float(v.real)

    def __complex__(self):
        v = self.constvalue()
        if v is None:
            raise Unsupported('complex() of a symbolic value')
        return complex(v)

    def __floordiv__(self, o):
        v = (self / o).constvalue()
        if v is None:
            raise Unsupported('floor division of a symbolic value')
        return math.floor(v.real + 1e-12)

    def __mod__(self, o):
        return self - lift(o) * (self // o)

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def item(self):
        return self

    @property
    def dtype(self):
        return np.dtype(object)

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def copy(self):
        return self

    def __getitem__(self, k):
        # numpy scalars accept x[None, ...] indexing
        from .arr import mk0
        return mk0(self)[k]

    def mean(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self

    def __repr__(self):
        return f'S({pstr(self.num)}' + (f' / {self.den}' if self.den else '') + ')'

    def __format__(self, spec):
        return Text.write(self, spec) if Text.write else 'S'

    def __str__(self):
        return Text.write(self, '') if Text.write else repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

class Text:
    """how symbolic numbers appear in written text; see checks/c41.py"""
    write = None


LAZY = 1500  # sums of fractions whose common numerator would exceed this many terms are kept as partial fractions
_ZP = 2305843009213693921  # prime with square roots of -1, 2 and 3


def _sqrt_mod(a, p):
    """Tonelli-Shanks; None for a non-residue"""
    a %= p
    if a == 0:
        return 0
    if pow(a, (p - 1) // 2, p) != 1:
        return None
    q, s_ = p - 1, 0
    while q % 2 == 0:
        q //= 2
        s_ += 1
    z = 2
    while pow(z, (p - 1) // 2, p) == 1:
        z += 1
    m, c, t, r = s_, pow(z, q, p), pow(a, q, p), pow(a, (q + 1) // 2, p)
    while t != 1:
        i, t2 = 0, t
        while t2 != 1:
            t2 = t2 * t2 % p
            i += 1
        b = pow(c, 1 << (m - i - 1), p)
        m, c, t, r = i, b * b % p, t * b * b % p, r * b % p
    return r


_ZVAL = {}


def _zvar(v):
    x = _ZVAL.get(v)
    if x is None:
        var = P.VARS[v]
        if var.sq is not None:
            sq = _zpoly(var.sq)
            x = None if sq is None else _sqrt_mod(sq, _ZP)
            if x is None:
                x = 'no'
        else:
            x = random.Random(v * 104729 + 7).randrange(2, _ZP)
        _ZVAL[v] = x
    return x


def _zpoly(p):
    t = 0
    for m, c in p.items():
        y = c % _ZP if isinstance(c, int) else c.numerator * pow(c.denominator, -1, _ZP) % _ZP
        for v, e in m:
            w = _zvar(v)
            if w == 'no':
                return None
            y = y * pow(w, e, _ZP) % _ZP
        t += y
    return t % _ZP


class L(S):
    """sum of fractions kept apart; brought to one denominator only when an operation needs it"""
    __slots__ = ('parts', '_f')
    num = property(lambda self: self.force().num)
    den = property(lambda self: self.force().den)

    def __init__(self, parts):
        d = {}
        for den, num in parts:
            n = P.padd(d[den], num) if den in d else num
            if n:
                d[den] = n
            else:
                d.pop(den, None)
        self.parts = d
        self._f = self._c = self._h = None

    @staticmethod
    def make(parts):
        """merges equal denominators; collapses to an ordinary fraction when possible"""
        r = L(parts)
        if len(r.parts) == 0:
            return S.ZERO
        if len(r.parts) == 1:
            (den, num), = r.parts.items()
            return S._cancel(num, den)
        return r

    def force(self):
        if self._f is None:
            ps = sorted(self.parts.items(), key=lambda t: (len(t[0]), len(t[1])))
            l = {}
            for den, _ in ps:
                for k, p in den:
                    l[k] = max(l.get(k, 0), p)
            tot = {}
            for den, num in ps:
                dd = dict(den)
                for k, p in l.items():
                    for _ in range(p - dd.get(k, 0)):
                        num = P.pmul(num, FACTORS[k])
                tot = P.padd(tot, num)
            self._f = S._cancel(tot, _mkden(l))
        return self._f

    def zero_mod(self):
        """False: certainly not zero; None: not known"""
        t = 0
        for den, num in self.parts.items():
            x = _zpoly(num)
            if x is None:
                return None
            for k, p in den:
                y = _zpoly(FACTORS[k])
                if not y:
                    return None
                x = x * pow(y, -p, _ZP) % _ZP
            t += x
        return False if t % _ZP else None

    def is_zero(self):
        if self._f is None and self.zero_mod() is False:
            return False
        return not self.force().num

    def key(self):
        return self.force().key()

    def const(self):
        if not self.variables() or self.is_zero():
            return self.force().const()
        v = max(self.variables())
        if self._f is None and v > P.PI_ and P.VARS[v].sq is None:
            # not a constant when two random points give different values
            old = _ZVAL.get(v)
            a = self.value_mod()
            _ZVAL[v] = random.Random(v + 99).randrange(2, _ZP)
            dep = [k for k in _ZVAL if P.VARS[k].kind == 'alg']
            saved = {k: _ZVAL.pop(k) for k in dep}
            b = self.value_mod()
            _ZVAL[v] = old
            for k in dep:
                _ZVAL.pop(k, None)
            _ZVAL.update(saved)
            if a is not None and b is not None and a != b:
                return None
        return self.force().const()

    def value_mod(self):
        t = 0
        for den, num in self.parts.items():
            x = _zpoly(num)
            if x is None:
                return None
            for k, p in den:
                y = _zpoly(FACTORS[k])
                if not y:
                    return None
                x = x * pow(y, -p, _ZP) % _ZP
            t += x
        return t % _ZP

    def constvalue(self):
        c = self.const()
        if c is None and self._f is None:
            return None
        return self.force().constvalue()

    def variables(self):
        s = set()
        for den, num in self.parts.items():
            s |= S(num, den).variables()
        return s

    def _plus(self, o, sign):
        op = o.parts.items() if type(o) is L else [(o.den, o.num)] if o.num else []
        return L.make(list(self.parts.items()) + [(d, n if sign == 1 else P.pscale(n, -1)) for d, n in op])

    def __add__(self, o):
        if isinstance(o, np.ndarray) and o.ndim: return S.__add__(self, o)
        o = lift(o)
        return o if o is NotImplemented else self._plus(o, 1)

    def __sub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim: return S.__sub__(self, o)
        o = lift(o)
        return o if o is NotImplemented else self._plus(o, -1)

    def __neg__(self):
        return L.make([(d, P.pscale(n, -1)) for d, n in self.parts.items()])

    def _mul(self, o):
        op = list(o.parts.items()) if type(o) is L else [(o.den, o.num)] if o.num else []
        if type(o) is L and len(op) * len(self.parts) > 400:
            return self.force()._mul(o.force())
        out = []
        for d, n in self.parts.items():
            for d2, n2 in op:
                r = S(n, d)._mul(S(n2, d2))
                if r.num:
                    out.append((r.den, r.num))
        return L.make(out)

    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim: return S.__mul__(self, o)
        o = lift(o)
        return o if o is NotImplemented else self._mul(o)

    def inv(self):
        return self.force().inv()

    def conjugate(self):
        if self._c is None:
            out = []
            for d, n in self.parts.items():
                r = S(n, d).conjugate()
                out.append((r.den, r.num))
            self._c = L.make(out)
        return self._c

    conj = conjugate

    def __abs__(self):
        return S.__abs__(self.force())

    def sqrt(self):
        return self.force().sqrt()

    def exp(self):
        return self.force().exp()

    def __repr__(self):
        return 'S(' + ' + '.join(f'({pstr(n)})' + (f'/{d}' if d else '') for d, n in list(self.parts.items())[:4]) + ')'


def partial_poly(x):
    """the scalar as polynomial in its generators and the inverses of its denominators"""
    ps = x.parts.items() if type(x) is L else [(x.den, x.num)] if x.num else []
    tot = {}
    for den, num in ps:
        m = tuple(sorted((P.new_var(f'1/F{k}', 'inv').idx, p) for k, p in den))
        tot = P.padd(tot, P.pmul(num, {m: 1}) if m else num)
    return tot


def pstr(p, nmax=6):
    out = []
    for m, c in list(p.items())[:nmax]:
        out.append(str(c) + ''.join('*' + P.VARS[v].name + (f'^{e}' if e != 1 else '') for v, e in m))
    s = ' + '.join(out) if out else '0'
    return s + (f' + ...({len(p)} terms)' if len(p) > nmax else '')


def _mname(m):
    return '*'.join(P.VARS[v].name + (f'^{e}' if e != 1 else '') for v, e in m) or '1'


_RT = {}


def _unit_phase_pi(c):
    """exp(i pi c) for rational c"""
    c = Fraction(c) % 2
    tab = {Fraction(0): (1, 0), Fraction(1, 2): (0, 1), Fraction(1): (-1, 0), Fraction(3, 2): (0, -1)}
    if c in tab:
        a, b = tab[c]
        return lift(a) + S.I * b
    for d, cs in ((4, 'r2'), (3, 'r3'), (6, 'r3')):
        pass

    def cosv(c):
        c = Fraction(c) % 2
        if c > 1:
            c = 2 - c
        if c > Fraction(1, 2):
            return -cosv(1 - c)
        t = {Fraction(0): S.ONE, Fraction(1, 2): S.ZERO, Fraction(1, 3): lift(Fraction(1, 2)),
             Fraction(1, 4): S({((P.R2_, 1),): Fraction(1, 2)}), Fraction(1, 6): S({((P.R3_, 1),): Fraction(1, 2)})}
        if Fraction(1, 12) == c:
            return S({((P.R2_, 1), (P.R3_, 1)): Fraction(1, 4), ((P.R2_, 1),): Fraction(1, 4)})
        if Fraction(5, 12) == c:
            return S({((P.R2_, 1), (P.R3_, 1)): Fraction(1, 4), ((P.R2_, 1),): Fraction(-1, 4)})
        if c not in t:
            raise Unsupported(f'exp(i*pi*{c})')
        return t[c]

    return cosv(c) + S.I * cosv(c - Fraction(1, 2))


def _phase(rest, c):
    """exp(i * c * monomial)"""
    if rest == ((P.PI_, 1),):
        return _unit_phase_pi(c)
    if not rest:
        # exp(i * rational): only via the number pi as float; treat rational as transcendental constant phase
        raise Unsupported('phase of a rational number')
    c = Fraction(c)
    nm = 'U[' + _mname(rest) + ']'
    # half angles are expressed in terms of a finer generator
    v = P.new_var(nm, 'phase', base=(rest, HALF_ANGLE))
    k = c * HALF_ANGLE
    if k.denominator != 1:
        raise Unsupported('phase of a fractional multiple of a symbol')
    return S({((v.idx, int(k)),): 1})


HALF_ANGLE = 2  # generator is exp(i theta / 2)

numbers.Real.register(S)
numbers.Integral  # (S is deliberately not Integral)

reset()
