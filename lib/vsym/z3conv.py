"""Translation of symbolic scalars to z3 terms.

 * 'free' translation: every generator (also I, PI, conjugates, phases) becomes an independent real variable.  Two normal
   forms that agree for all values of independent generators agree for all values of the real inputs, and vice versa a
   non-zero normal form cannot vanish identically.  Used for the validity (unsat) queries.
 * 'physical' translation: complex symbols become x + i y, phases c + i s with c^2+s^2=1, roots their defining equations.
   Used whenever path conditions or inequalities are involved and to obtain concrete counterexamples.
"""
import os, sys
for _p in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
    if _p not in sys.path:
        sys.path.append(_p)
import z3
from fractions import Fraction
from . import poly as P
from .scalar import S, L, FACTORS, Unsupported, partial_poly


def zq(c):
    if isinstance(c, int):
        return z3.RealVal(c)
    return z3.Q(c.numerator, c.denominator) if False else z3.RealVal(f'{c.numerator}/{c.denominator}')


class Free:
    """builds the terms through the C interface directly (the Python wrappers dominate otherwise)"""

    def __init__(self):
        self.v = {}
        self.pw = {}
        self.keep = []
        self.nums = {}
        self.ctx = z3.main_ctx()

    def var(self, i):
        r = self.v.get(i)
        if r is None:
            r = z3.Real('g%d!%s' % (i, P.VARS[i].name))
            self.v[i] = r
        return r

    def power(self, v, e):
        r = self.pw.get((v, e))
        if r is None:
            x = self.var(v) if e == 1 else z3.Product(*[self.var(v)] * e)
            self.keep.append(x)
            r = self.pw[(v, e)] = x.as_ast()
        return r

    def num(self, c):
        r = self.nums.get(c)
        if r is None:
            x = zq(c)
            self.keep.append(x)
            r = self.nums[c] = x.as_ast()
        return r

    def poly(self, p):
        if not p:
            return z3.RealVal(0)
        cr = self.ctx.ref()
        ts, own = [], []
        for m, c in p.items():
            fs = [] if c == 1 and m else [self.num(c)]
            for v, e in m:
                assert e > 0
                fs.append(self.power(v, e))
            if len(fs) == 1:
                ts.append(fs[0])
            else:
                t = z3.Z3_mk_mul(cr, len(fs), (z3.Ast * len(fs))(*fs))
                z3.Z3_inc_ref(cr, t)
                own.append(t)
                ts.append(t)
        a = ts[0] if len(ts) == 1 else z3.Z3_mk_add(cr, len(ts), (z3.Ast * len(ts))(*ts))
        r = z3.ArithRef(a, self.ctx)
        for t in own:
            z3.Z3_dec_ref(cr, t)
        return r


def clear_neg(polys):
    """common monomial shift so that all exponents are non-negative"""
    mins = {}
    for p in polys:
        for m in p:
            for v, e in m:
                if e < mins.get(v, 0):
                    mins[v] = e
    if not mins:
        return polys
    sh = tuple(sorted((v, -e) for v, e in mins.items()))
    return [P.pmul(p, {sh: 1}) for p in polys]


def split_I(p):
    a, b = {}, {}
    for m, c in p.items():
        if m and m[0][0] == P.I_:
            b[m[1:]] = c
        else:
            a[m] = c
    return a, b


def cross(a, b):
    """polynomials (l, r) such that a == b  <=>  l == r wherever the denominators do not vanish"""
    da, db = dict(a.den), dict(b.den)
    na, nb = a.num, b.num
    for k in set(da) | set(db):
        for _ in range(max(0, db.get(k, 0) - da.get(k, 0))):
            na = P.pmul(na, FACTORS[k])
        for _ in range(max(0, da.get(k, 0) - db.get(k, 0))):
            nb = P.pmul(nb, FACTORS[k])
    return na, nb


def diseq_free(fr, a, b):
    """list of z3 disequations whose disjunction says a != b"""
    if type(a) is L or type(b) is L:
        # first as sums of partial fractions (inverses of denominators as independent symbols: sufficient for equality)
        l, r = clear_neg([partial_poly(a), partial_poly(b)])
        if l == r:
            return _terms(fr, l, r)
        d = a - b
        if not (type(d) is L and d.zero_mod() is False):
            l, r = clear_neg(list(cross(a, b)))
        return _terms(fr, l, r)
    l, r = clear_neg(list(cross(a, b)))
    return _terms(fr, l, r)


def _terms(fr, l, r):
    out = []
    for x, y in zip(split_I(l), split_I(r)):
        if x or y:
            out.append(fr.poly(x) != fr.poly(y))
    return out


class Phys:
    """physical translation; keeps the list of side constraints of the generators it met.
       fixed: optional dict  generator name -> concrete python value (complex / float as Fractions)"""

    def __init__(self, fixed=None):
        self.v = {}
        self.side = []
        self.pw = {}
        self.inv = {}
        self.fixed = fixed or {}
        self.names = {}

    def _new(self, name, pos=False):
        r = z3.Real(name)
        if pos:
            self.side.append(r > 0)
        return r

    def var(self, i):
        r = self.v.get(i)
        if r is not None:
            return r
        vv = P.VARS[i]
        if vv.kind == 'I':
            r = (z3.RealVal(0), z3.RealVal(1))
        elif vv.name == 'PI':
            x = self._new('PI')
            self.side += [x > z3.Q(31415926535, 10 ** 10), x < z3.Q(31415926536, 10 ** 10)]
            r = (x, None)
        elif vv.name in ('R2', 'R3'):
            x = self._new(vv.name, True)
            self.side += [x * x == (2 if vv.name == 'R2' else 3)]
            r = (x, None)
        elif vv.kind == 'real':
            f = self.fixed.get(vv.name)
            if f is not None:
                r = (zq(f), None)
            else:
                x = self._new(vv.name, vv.pos)
                self.names[vv.name] = x
                r = (x, None)
        elif vv.kind == 'cplx':
            f = self.fixed.get(vv.name)
            if f is not None:
                r = (zq(f[0]), zq(f[1]))
            else:
                r = (self._new(vv.name + '.re'), self._new(vv.name + '.im'))
                self.names[vv.name] = r
        elif vv.kind == 'cbar':
            a, b = self.var(vv.conj)
            r = (a, -b)
        elif vv.kind == 'phase':
            nm = vv.name
            f = self.fixed.get(nm)
            if f is not None:
                r = (zq(f[0]), zq(f[1]))
            else:
                c, s = self._new(nm + '.c'), self._new(nm + '.s')
                self.side.append(c * c + s * s == 1)
                self.names[nm] = (c, s)
                r = (c, s)
        elif vv.kind == 'exp':
            r = (self._new(vv.name, True), None)
        elif vv.kind == 'alg':
            x = self._new(vv.name)
            self.v[i] = (x, None)
            self.side.append(x >= 0)
            re, im = self.poly(vv.sq)
            self.side.append(x * x == re)
            r = (x, None)
        else:
            raise Unsupported(vv.kind)
        self.v[i] = r
        return r

    @staticmethod
    def mul(a, b):
        if a[1] is None and b[1] is None:
            return a[0] * b[0], None
        if a[1] is None:
            return a[0] * b[0], a[0] * b[1]
        if b[1] is None:
            return a[0] * b[0], a[1] * b[0]
        return a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]

    def power(self, v, e):
        r = self.pw.get((v, e))
        if r is None:
            r = self.var(v) if e == 1 else self.mul(self.power(v, e - 1), self.var(v))
            self.pw[(v, e)] = r
        return r

    def inverse(self, v):
        r = self.inv.get(v)
        if r is None:
            a, b = self.var(v)
            x = z3.Real('1/' + P.VARS[v].name)
            self.side.append(x * (a if b is None else a * a + b * b) == 1)
            r = self.inv[v] = (x, None) if b is None else (a * x, -b * x)
        return r

    def poly(self, p):
        re, im = [], []
        for m, c in p.items():
            t = (zq(c), None)
            for v, e in m:
                if e < 0:
                    # only phases may be inverted in place
                    if P.VARS[v].kind == 'phase':
                        a, b = self.power(v, -e)
                        t = self.mul(t, (a, -b))
                    else:
                        for _ in range(-e):
                            t = self.mul(t, self.inverse(v))
                else:
                    t = self.mul(t, self.power(v, e))
            re.append(t[0])
            if t[1] is not None:
                im.append(t[1])
        f = lambda l: z3.Sum(*l) if len(l) > 1 else (l[0] if l else z3.RealVal(0))
        return f(re), f(im)

    def frac(self, s):
        """s = n/d with d a positive monomial (shifted) times factors;  returns (n_re, n_im, [factor terms (re,im,power)], ...)"""
        num = s.num
        mins = {}
        for m in num:
            for v, e in m:
                if e < mins.get(v, 0) and P.VARS[v].kind != 'phase':
                    mins[v] = e
        dm = {}
        if mins:
            num = P.pmul(num, {tuple(sorted((v, -e) for v, e in mins.items())): 1})
            dm = {v: -e for v, e in mins.items()}
        return self.poly(num), dm

    def sign_term(self, s):
        """for real-valued s: a z3 term with the same sign as s (given the denominators do not vanish)"""
        (re, im), dm = self.frac(s)
        t = re
        for v, e in dm.items():
            vv = P.VARS[v]
            if vv.pos or e % 2 == 0 and vv.kind in ('real', 'const', 'alg', 'exp'):
                if not vv.pos:
                    self.side.append(self.var(v)[0] != 0)
                continue
            if vv.kind in ('real', 'const', 'alg', 'exp'):
                t = t * self.var(v)[0]
                self.side.append(self.var(v)[0] != 0)
            else:
                # complex monomial denominators of a real number: multiply with the conjugate
                return self._sign_general(s)
        for k, p in s.den:
            fr_, fi_ = self.poly_shift(FACTORS[k])
            if not S(P.psub(FACTORS[k], P.pconj(FACTORS[k]))).is_zero():
                return self._sign_general(s)
            self.side.append(fr_ != 0)
            if p % 2:
                t = t * fr_
        return t

    def poly_shift(self, p):
        mins = {}
        for m in p:
            for v, e in m:
                if e < mins.get(v, 0) and P.VARS[v].kind != 'phase':
                    mins[v] = e
        return self.poly(P.pmul(p, {tuple(sorted((v, -e) for v, e in mins.items())): 1}) if mins else p)

    def _sign_general(self, s):
        # s = n/d real  ->  sign(s) = sign(Re(n * conj(d)))
        n = s.num
        d = {P.ONE_M: 1}
        for k, p in s.den:
            for _ in range(p):
                d = P.pmul(d, FACTORS[k])
        mins = {}
        for m in n:
            for v, e in m:
                if e < mins.get(v, 0) and P.VARS[v].kind != 'phase':
                    mins[v] = e
        if mins:
            mono = {tuple(sorted((v, -e) for v, e in mins.items())): 1}
            n = P.pmul(n, mono)
            d = P.pmul(d, mono)
        re, im = self.poly_shift(d)
        self.side.append(z3.Or(re != 0, im != 0))
        t = P.pmul(n, P.pconj(d))
        mins = {}
        for m in t:
            for v, e in m:
                if e < mins.get(v, 0) and P.VARS[v].kind != 'phase':
                    mins[v] = e
        for v, e in mins.items():  # multiply with the positive |v|^2k
            vv = P.VARS[v]
            e = -e
            if vv.kind in ('cplx', 'cbar'):
                t = P.pmul(t, {tuple(sorted(((v, e), (vv.conj, e)))): 1})
            else:
                t = P.pmul(t, {((v, e + e % 2),): 1})
        return self.poly(t)[0]
