"""Laurent polynomials over Q with a few algebraic generators.

A symbolic scalar of the engine is a fraction  num / prod(den_i^p_i)  of such polynomials.  The generators are

  I          imaginary unit, I^2 = -1
  R2, R3     square roots of 2 and 3 (needed for discrete Fourier transforms / cosines on small k-grids)
  PI         the number pi (a transcendental constant, hence a free positive real symbol)
  x          real symbols
  z, z~      a complex symbol and its conjugate (two independent generators)
  u          phase symbols exp(i*theta), conj(u) = 1/u, so cos/sin of symbolic angles are Laurent polynomials
  E          exponentials exp(x) of real symbols
  a          algebraic symbols with a^2 = <polynomial>  (absolute values, square roots)
"""
from fractions import Fraction
import heapq
import math
import random

ONE_M = ()


class Var:
    __slots__ = ('idx', 'name', 'kind', 'conj', 'sq', 'base', 'pos')

    def __init__(self, idx, name, kind, pos=False, base=None):
        self.idx, self.name, self.kind, self.pos, self.base = idx, name, kind, pos, base
        self.conj = idx
        self.sq = None  # dict poly for a^2


VARS = []
BYNAME = {}


def reset():
    VARS.clear()
    BYNAME.clear()
    _MM.clear()
    v = new_var('I', 'I')
    v.sq = {ONE_M: -1}
    v = new_var('R2', 'const')
    v.sq = {ONE_M: 2}
    v = new_var('R3', 'const')
    v.sq = {ONE_M: 3}
    new_var('PI', 'const', pos=True)


def new_var(name, kind, pos=False, base=None):
    if name in BYNAME:
        return BYNAME[name]
    v = Var(len(VARS), name, kind, pos, base)
    VARS.append(v)
    BYNAME[name] = v
    return v


I_, R2_, R3_, PI_ = 0, 1, 2, 3
_MM = {}


def _mono_mul_raw(a, b):
    """returns (monomial with reduced algebraic squares left, reduce_list)"""
    d = dict(a)
    for v, e in b:
        n = d.get(v, 0) + e
        if n:
            d[v] = n
        else:
            del d[v]
    red = None
    for v in list(d):
        sq = VARS[v].sq
        if sq is not None and (d[v] >= 2 or d[v] < 0):
            k, r = divmod(d[v], 2)
            if r:
                d[v] = 1
            else:
                del d[v]
            red = red or []
            red.append((v, k))
    return tuple(sorted(d.items())), red


def _mono_mul(a, b):
    """product as list of (mono, coef)"""
    if not a:
        return b, 1, None
    if not b:
        return a, 1, None
    key = (a, b)
    r = _MM.get(key)
    if r is not None:
        return r
    m, red = _mono_mul_raw(a, b)
    c = 1
    rest = None
    if red:
        for v, k in red:
            sq = VARS[v].sq
            if len(sq) == 1 and ONE_M in sq:
                s = sq[ONE_M]
                c = c * s ** k if k >= 0 else c * Fraction(1, s ** (-k))
            else:
                assert k >= 0, 'negative power of an algebraic symbol'
                p = {ONE_M: 1}
                for _ in range(k):
                    p = pmul(p, sq)
                rest = p if rest is None else pmul(rest, p)
    if isinstance(c, Fraction) and c.denominator == 1:
        c = c.numerator
    r = (m, c, rest)
    if len(_MM) > 2000000:
        _MM.clear()
    _MM[key] = r
    return r


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) + c
        if s:
            r[m] = s
        else:
            del r[m]
    return r


def psub(a, b):
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) - c
        if s:
            r[m] = s
        else:
            del r[m]
    return r


def pscale(a, k):
    if k == 1:
        return a
    if not k:
        return {}
    r = {m: c * k for m, c in a.items()}
    if isinstance(k, Fraction):
        for m, c in r.items():
            if isinstance(c, Fraction) and c.denominator == 1:
                r[m] = c.numerator
    return r


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for ma, ca in a.items():
        for mb, cb in b.items():
            m, c, rest = _mono_mul(ma, mb)
            c = c * ca * cb
            if rest is None:
                s = r.get(m, 0) + c
                if s:
                    r[m] = s
                else:
                    r.pop(m, None)
            else:
                for m2, c2 in pmul({m: c}, rest).items():
                    s = r.get(m2, 0) + c2
                    if s:
                        r[m2] = s
                    else:
                        r.pop(m2, None)
    return r


def pconj(a):
    r = {}
    for m, c in a.items():
        d = []
        for v, e in m:
            vv = VARS[v]
            if vv.kind == 'I':
                if e % 2:
                    c = -c
                d.append((v, e))
            elif vv.kind == 'phase':
                d.append((v, -e))
            else:
                d.append((vv.conj, e))
        d.sort()
        m = tuple(d)
        s = r.get(m, 0) + c
        if s:
            r[m] = s
        else:
            r.pop(m, None)
    return r


def mono_inv(m, c):
    """inverse of the term c*m as poly"""
    p = {ONE_M: Fraction(1) / c if c not in (1, -1) else c}
    for v, e in m:
        vv = VARS[v]
        if vv.sq is not None and not (len(vv.sq) == 1):
            return None
        if vv.sq is not None:
            # v^-1 = v / v^2
            (m2, c2), = vv.sq.items()
            inv2 = mono_inv(m2, c2)
            if inv2 is None:
                return None
            for _ in range(e):
                p = pmul(pmul(p, {((v, 1),): 1}), inv2)
        else:
            p = pmul(p, {((v, -e),): 1})
    return p


def content(a):
    """monomial content (min exponent of every non algebraic variable occurring)"""
    mins = None
    for m in a:
        d = dict(m)
        if mins is None:
            mins = d
        else:
            for v in list(mins):
                if v not in d:
                    if mins[v] > 0:
                        del mins[v]
                elif d[v] < mins[v]:
                    mins[v] = d[v]
            for v in d:
                if v not in mins and d[v] < 0:
                    mins[v] = d[v]
    # a variable absent from some monomial has exponent 0 there
    for m in a:
        d = dict(m)
        for v in list(mins):
            if v not in d and mins[v] > 0:
                del mins[v]
    return {v: e for v, e in mins.items() if VARS[v].sq is None or VARS[v].kind in ('I',)}


def pshift(a, shift):
    """multiply by prod v^shift[v] (no algebraic reduction needed apart from I handled by pmul)"""
    if not shift:
        return a
    m = tuple(sorted((v, e) for v, e in shift.items() if e))
    return pmul(a, {m: 1}) if m else a


def _dense(m):
    return m


def _lead(a):
    # graded by plain tuple order over sorted variables turned into a total order compatible with multiplication:
    return max(a, key=_ordkey)


_NV = 4096


def _ordkey(m):
    # lex order on exponent vectors: compare variable by variable with lower index more significant
    # encode as tuple of (-(var), exp) pairs; valid for non-negative exponents
    return tuple((-v, e) for v, e in m)


_BIG = (1 << 60, 0)
_PRIME = (1 << 61) - 1


def _heapkey(m):
    return tuple((v, -e) for v, e in m) + (_BIG,)


def _umod(a, x, val):
    """image of a as univariate polynomial in x modulo a prime, the other variables replaced by val"""
    r = {}
    for m, c in a.items():
        k = 0
        t = c % _PRIME if isinstance(c, int) else c.numerator * pow(c.denominator, -1, _PRIME) % _PRIME
        for v, e in m:
            if v == x:
                k = e
            else:
                w = val.get(v)
                if w is None:
                    w = val[v] = random.Random(v * 7919 + 13).randrange(2, _PRIME)
                t = t * (w if e == 1 else pow(w, e, _PRIME)) % _PRIME
        r[k] = (r.get(k, 0) + t) % _PRIME
    return r


def _maybe_divides(a, b, lb):
    """necessary condition for b | a (free ring): it survives a random univariate specialisation"""
    val = {}
    for x, _ in lb[:2]:
        ub, ua = _umod(b, x, val), _umod(a, x, val)
        db = max((k for k, c in ub.items() if c), default=-1)
        if db <= 0:
            continue
        inv = pow(ub[db], -1, _PRIME)
        da = max((k for k, c in ua.items() if c), default=-1)
        for k in range(da, db - 1, -1):
            c = ua.get(k, 0) * inv % _PRIME
            if c:
                for j, cb in ub.items():
                    ua[k - db + j] = (ua.get(k - db + j, 0) - c * cb) % _PRIME
        if any(ua.values()):
            return False
    return True


def pdivexact(a, b, limit=4000):
    """exact quotient a/b for polynomials (b has content 1), or None"""
    if not a:
        return {}
    if len(b) > len(a) and len(b) > 1:
        pass
    ca = {v: e for v, e in content(a).items() if VARS[v].sq is None and e < 0}
    sh = {v: -e for v, e in ca.items()}
    a0 = pshift(a, sh) if sh else a
    lb = _lead(b)
    cb = b[lb]
    lbd = dict(lb)
    bvars = set(v for m in b for v, _ in m)
    avars = set(v for m in a0 for v, _ in m)
    if not bvars <= avars:
        return None
    if len(a0) > 12 and len(b) > 1 and not _maybe_divides(a0, b, lb):
        return None
    rem = dict(a0)
    heap = [_heapkey(m) for m in rem]
    heapq.heapify(heap)
    bl = [(mb, cbb) for mb, cbb in b.items()]
    quo = {}
    n = 0
    while rem:
        hk = heap[0]
        la = tuple((v, -e) for v, e in hk[:-1])
        if la not in rem:
            heapq.heappop(heap)
            continue
        lad = dict(la)
        for v, e in lbd.items():
            if lad.get(v, 0) < e:
                return None
        q = tuple((v, e) for v, e in ((v, lad[v] - lbd.get(v, 0)) for v, _ in la) if e)
        c = rem[la]
        c = c // cb if isinstance(c, int) and isinstance(cb, int) and c % cb == 0 else Fraction(c) / cb
        quo[q] = c
        for mb, cbb in bl:
            # free-ring product (no algebraic reduction): keeps division a genuine identity
            d = dict(q)
            for v, e in mb:
                d[v] = d.get(v, 0) + e
            m = tuple(sorted(d.items()))
            old = rem.get(m)
            if old is None:
                rem[m] = -(c * cbb)
                heapq.heappush(heap, _heapkey(m))
            else:
                s = old - c * cbb
                if s:
                    rem[m] = s
                else:
                    del rem[m]
        n += 1
        if n > limit:
            return None
    if sh:
        quo = pshift(quo, {v: -e for v, e in sh.items()})
    else:
        # quotient may contain unreduced algebraic powers
        quo = pmul(quo, {ONE_M: 1}) if True else quo
    return _reduce(quo)


def _reduce(p):
    r = {}
    for m, c in p.items():
        bad = False
        for v, e in m:
            if VARS[v].sq is not None and e > 1:
                bad = True
        if bad:
            acc = {ONE_M: c}
            for v, e in m:
                for _ in range(e if VARS[v].sq is not None else 1):
                    acc = pmul(acc, {((v, 1 if VARS[v].sq is not None else e),): 1})
            r = padd(r, acc)
        else:
            s = r.get(m, 0) + c
            if s:
                r[m] = s
            else:
                r.pop(m, None)
    return r


# ----------------------------------------------------------------------------- numerical value of a generator
def const_value(idx):
    return {I_: 1j, R2_: math.sqrt(2), R3_: math.sqrt(3), PI_: math.pi}[idx]


def peval(p, val):
    """val: function idx -> complex"""
    t = 0
    for m, c in p.items():
        x = float(c) if not isinstance(c, int) else c
        for v, e in m:
            x = x * val(v) ** e
        t += x
    return t


reset()
