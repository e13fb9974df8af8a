"""Object arrays of symbolic scalars and the context manager that lets the repository's numpy code run on them."""
import cmath
import contextlib
import math
import sys
import numpy as np
from .scalar import S, lift, Unsupported
from . import poly as P


class SymArray(np.ndarray):
    __array_priority__ = 10

    @property
    def real(self):
        return _map(lambda x: x.real, self)

    @real.setter
    def real(self, v):
        self[...] = v + 1j * self.imag

    @property
    def imag(self):
        return _map(lambda x: x.imag, self)

    @imag.setter
    def imag(self, v):
        self[...] = self.real + 1j * v

    def conj(self):
        return _map(lambda x: x.conjugate(), self)

    conjugate = conj

    def astype(self, dtype, *a, **k):
        dt = _dt(dtype)
        if dt in ('obj', 'float', 'complex'):
            r = self.copy()
            return r
        if dt == 'int':
            return np.array([int(x) for x in np.ndarray.ravel(self)], dtype=int).reshape(self.shape)
        if dt == 'bool':
            return np.array([bool(x) for x in np.ndarray.ravel(self)], dtype=bool).reshape(self.shape)
        return np.ndarray.astype(self, dtype, *a, **k)

    def __getitem__(self, k):
        return np.ndarray.__getitem__(self, _idx(k))

    def __setitem__(self, k, v):
        np.ndarray.__setitem__(self, _idx(k), v)

    def mean(self, *a, **k):
        return p_mean(self, *a, **k)

    def round(self, decimals=0, out=None):
        return _map(lambda x: round(x, decimals), self)

    def view(self, *a, **k):
        if a and _dt(a[0]) == 'float':  # of a complex array
            out = O('empty')(self.shape[:-1] + (2 * self.shape[-1],), dtype=object)
            out[..., 0::2], out[..., 1::2] = self.real, self.imag
            return np.ndarray.view(out, SymArray)
        if a and _dt(a[0]) == 'complex':
            return self[..., 0::2] + 1j * self[..., 1::2]
        if a and not (isinstance(a[0], type) and issubclass(a[0], np.ndarray)):
            raise Unsupported('dtype view')
        return np.ndarray.view(self, *a, **k)

    def __array_wrap__(self, out, context=None):
        if isinstance(out, np.ndarray) and out.dtype != object:
            return np.asarray(out)[()] if out.ndim == 0 else np.asarray(out)
        return np.ndarray.__array_wrap__(self, out, context)

    def __array_finalize__(self, obj):
        pass


def _idx(k):
    if isinstance(k, np.ndarray) and k.dtype == object:
        return _concrete_index(k)
    if isinstance(k, tuple):
        return tuple(_concrete_index(x) if isinstance(x, np.ndarray) and x.dtype == object else x for x in k)
    return k


def _concrete_index(a):
    fl = list(a.ravel())
    if all(isinstance(x, (bool, np.bool_)) or type(x).__name__ == 'SBool' for x in fl):
        return np.array([bool(x) for x in fl], dtype=bool).reshape(a.shape)
    return np.array([int(x) for x in fl], dtype=int).reshape(a.shape)


def is_sym(x):
    return isinstance(x, S) or (isinstance(x, np.ndarray) and x.dtype == object)


def any_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, (list, tuple)):
        return any(any_sym(i) for i in x)
    return False


def wrap(x):
    if type(x) is np.ndarray and x.dtype == object:
        return x.view(SymArray)
    return x


def mk0(s):
    a = np.empty((), dtype=object)
    a[()] = s
    return a.view(SymArray)


def _map(f, a):
    out = np.empty(a.shape, dtype=object)
    of = out.reshape(-1)
    for i, x in enumerate(np.asarray(a).reshape(-1) if type(a) is np.ndarray else np.ndarray.view(a, np.ndarray).reshape(-1)):
        of[i] = f(x)
    return out.reshape(a.shape).view(SymArray)


class symfloat(float):
    """replacement of the builtin float inside the repository's modules while they are executed symbolically"""

    def __new__(cls, x=0.0):
        if isinstance(x, S):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return x.reshape(-1)[0]
        return float(x)


class _SymComplex(type(complex)):
    def __instancecheck__(cls, x):
        return isinstance(x, complex) or isinstance(x, S)

    def __eq__(cls, o):
        return o is complex or o is cls

    __hash__ = type.__hash__


class symcomplex(complex, metaclass=_SymComplex):
    """the same for complex"""

    def __new__(cls, x=0.0, y=0.0):
        if is_sym(x) or is_sym(y):
            x, y = [v.reshape(-1)[0] if isinstance(v, np.ndarray) else v for v in (x, y)]
            return x if type(y) is float and y == 0 else x + 1j * y
        return complex(x, y)


symcomplex.dtype = np.dtype(complex)
symfloat.dtype = np.dtype(float)          # comparisons of a dtype with it behave as with float


def _dt(d):
    if d is None:
        return 'float'
    if d in (symfloat, float, np.float64, np.float32, 'float', 'f8'):
        return 'float'
    if d in (symcomplex, complex, np.complex128, np.complex64, 'complex', 'c16'):
        return 'complex'
    if d is object or d == np.dtype(object):
        return 'obj'
    try:
        dd = np.dtype(d)
    except TypeError:
        return 'other'
    if dd.kind == 'f':
        return 'float'
    if dd.kind == 'c':
        return 'complex'
    if dd.kind in 'iu':
        return 'int'
    if dd.kind == 'b':
        return 'bool'
    if dd.kind == 'O':
        return 'obj'
    return 'other'


_o = {}


def p_arange(*a, **k):
    import operator
    from .sint import SInt
    a = [operator.index(x) if isinstance(x, SInt) else x for x in a]
    k = {n: (operator.index(x) if isinstance(x, SInt) else x) for n, x in k.items()}
    if any(isinstance(x, S) for x in a):
        a = [float(x) if isinstance(x, S) else x for x in a]
        if all(float(x) == round(x) for x in a):
            a = [int(x) for x in a]
            r = O('arange')(*a, **k)
            return r if r.dtype.kind != 'i' else r.astype(object).view(SymArray)
    return O('arange')(*a, **k)


def O(name):
    return _o[name]


def _filled(shape, val):
    a = O('empty')(shape, dtype=object)
    a[...] = val
    return a.view(SymArray)


def p_zeros(shape, dtype=None, order='C', **k):
    if _dt(dtype) in ('float', 'complex', 'obj'):
        return _filled(shape, 0)
    return O('zeros')(shape, dtype=dtype, order=order, **k)


def p_ones(shape, dtype=None, order='C', **k):
    if _dt(dtype) in ('float', 'complex', 'obj'):
        return _filled(shape, 1)
    return O('ones')(shape, dtype=dtype, order=order, **k)


class _Uninit:
    """content of np.empty: any use before assignment is an error"""
    def __repr__(self):
        return '<uninitialised>'


def p_empty(shape, dtype=None, order='C', **k):
    if _dt(dtype) in ('float', 'complex', 'obj'):
        a = O('empty')(shape, dtype=object)
        a[...] = _Uninit()
        return a.view(SymArray)
    return O('empty')(shape, dtype=dtype, order=order, **k)


def p_full(shape, fill_value, dtype=None, **k):
    if is_sym(fill_value) or _dt(dtype) in ('float', 'complex', 'obj') and not (dtype is None and isinstance(fill_value, (bool, int))):
        return _filled(shape, fill_value)
    return O('full')(shape, fill_value, dtype=dtype, **k)


def _like(val):
    def f(a, dtype=None, **k):
        a = O('asanyarray')(a)
        dt = dtype if dtype is not None else a.dtype
        if _dt(dt) in ('float', 'complex', 'obj'):
            return _filled(k.get('shape') or a.shape, val)
        return O('zeros_like' if val == 0 else 'ones_like')(a, dtype=dtype, **k)
    return f


def p_full_like(a, fill_value, dtype=None, **k):
    a = O('asanyarray')(a)
    return p_full(a.shape, fill_value, dtype=dtype if dtype is not None else a.dtype)


def p_empty_like(a, dtype=None, **k):
    a = O('asanyarray')(a)
    return p_empty(a.shape, dtype=dtype if dtype is not None else a.dtype)


def p_eye(N, M=None, k=0, dtype=float, **kw):
    if _dt(dtype) in ('float', 'complex', 'obj'):
        e = O('eye')(N, M, k, dtype=int)
        return e.astype(object).view(SymArray)
    return O('eye')(N, M, k, dtype=dtype, **kw)


def p_identity(n, dtype=None, **kw):
    return p_eye(n, dtype=dtype or float)


def _mkarray(name):
    def f(obj, dtype=None, *a, **k):
        d = _dt(dtype) if dtype is not None else None
        if any_sym(obj):
            if d == 'int' or d == 'bool':
                return O('array')(obj, dtype=object).view(SymArray).astype(dtype)
            if name == 'asarray' and isinstance(obj, SymArray):
                return obj
            r = O(name)(obj, dtype=object)
            return wrap(r)
        if dtype is symfloat:
            dtype = float
        r = O(name)(obj, dtype, *a, **k) if dtype is not None else O(name)(obj, *a, **k)
        return wrap(r)
    return f


def _generic(name):
    def f(*a, **k):
        if k.get('dtype', None) is not None and any_sym(list(a)) and _dt(k['dtype']) in ('float', 'complex'):
            k = dict(k)
            k.pop('dtype')
        return wrap(O(name)(*a, **k))
    return f


def _elementwise(name, meth):
    def f(x, *a, **k):
        if isinstance(x, S):
            return getattr(x, meth)()
        if isinstance(x, np.ndarray) and x.dtype == object:
            r = _map(lambda e: getattr(lift(e), meth)(), x)
            return r if r.ndim else r[()]
        if isinstance(x, (list, tuple)) and any_sym(x):
            return f(p_array(x))
        return O(name)(x, *a, **k)
    return f


def p_real(x):
    if isinstance(x, S):
        return x.real
    if isinstance(x, np.ndarray) and x.dtype == object:
        return _map(lambda e: e.real, x)
    return O('real')(x)


def p_imag(x):
    if isinstance(x, S):
        return x.imag
    if isinstance(x, np.ndarray) and x.dtype == object:
        return _map(lambda e: e.imag, x)
    return O('imag')(x)


def p_conj(x, *a, **k):
    if isinstance(x, S):
        return x.conjugate()
    if isinstance(x, np.ndarray) and x.dtype == object:
        return _map(lambda e: e.conjugate(), x)
    if isinstance(x, (list, tuple)) and any_sym(x):
        return p_conj(p_array(x))
    return O('conj')(x, *a, **k)


def p_abs(x, *a, **k):
    if isinstance(x, S) or type(x).__name__ == 'SInt':
        return abs(x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return _map(abs, x)
    return O('abs')(x, *a, **k)


# ------------------------------------------------------------------------------------------------ linear algebra
_INV = {}


def _det(m):
    n = len(m)
    if n == 0:
        return S.ONE
    if n == 1:
        return m[0][0]
    # expansion by minors over column subsets (Laplace with memo)
    from functools import lru_cache

    @lru_cache(maxsize=None)
    def sub(r, cols):
        if r == n:
            return S.ONE
        t = S.ZERO
        sign = 1
        for i, c in enumerate(cols):
            if not m[r][c].is_zero():
                x = m[r][c] * sub(r + 1, cols[:i] + cols[i + 1:])
                t = t + x if sign > 0 else t - x
            sign = -sign
        return t
    return sub(0, tuple(range(n)))


def _inv2d(a):
    n = a.shape[0]
    m = [[lift(a[i, j]) for j in range(n)] for i in range(n)]
    key = tuple(m[i][j].key() for i in range(n) for j in range(n))
    r = _INV.get(key)
    if r is not None:
        return r.copy()
    # permutation-free special case: block/diagonal zeros are handled by _det skipping zeros
    det = _det(m)
    if det.is_zero():
        raise np.linalg.LinAlgError('Singular matrix')
    di = det.inv()
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            mm = [[m[r][c] for c in range(n) if c != i] for r in range(n) if r != j]
            cof = _det(mm)
            out[i, j] = cof * di if (i + j) % 2 == 0 else -(cof * di)
    r = out.view(SymArray)
    _INV[key] = r.copy()
    ki = tuple(lift(out[i, j]).key() for i in range(n) for j in range(n))
    orig = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            orig[i, j] = m[i][j]
    _INV.setdefault(ki, orig.view(SymArray))
    return r


def p_inv(a):
    if is_sym(a):
        if a.ndim == 2:
            return _inv2d(a)
        sh = a.shape
        out = np.empty(sh, dtype=object)
        for ix in np.ndindex(*sh[:-2]):
            out[ix] = _inv2d(a[ix])
        return out.view(SymArray)
    return _o_inv(a)


_o_inv = np.linalg.inv
_o_solve = np.linalg.solve


def p_solve(a, b):
    if is_sym(a) or is_sym(b):
        ai = p_inv(a if is_sym(a) else O('array')(a, dtype=object).view(SymArray))
        return np.matmul(ai, b)
    return _o_solve(a, b)


_o_det = np.linalg.det


def p_det(a):
    if is_sym(a) and a.ndim == 2:
        n = a.shape[0]
        return _det([[lift(a[i, j]) for j in range(n)] for i in range(n)])
    return _o_det(a)


_o_norm = np.linalg.norm


def p_norm(x, *a, **k):
    if is_sym(x):
        try:
            x = O('array')([float(e) for e in x.ravel()]).reshape(x.shape)
        except Unsupported:
            if a or k:
                raise Unsupported('norm')
            s = S.ZERO
            for e in x.ravel():
                e = lift(e)
                s = s + e * e.conjugate()
            return s.sqrt()
    return _o_norm(x, *a, **k)


# ------------------------------------------------------------------------------------------------ fft
def _dft1(a, axis, sign):
    n = a.shape[axis]
    a = O('moveaxis')(a, axis, 0)
    from .scalar import _unit_phase_pi
    from fractions import Fraction
    out = np.empty(a.shape, dtype=object)
    w = [_unit_phase_pi(Fraction(sign * 2 * k, n)) for k in range(n)]
    for k in range(n):
        t = 0
        for j in range(n):
            t = t + a[j] * w[(j * k) % n]
        out[k] = t
    return O('moveaxis')(out.view(SymArray), 0, axis)


def _fftn(sign, name, multi):
    orig = getattr(np.fft, name)

    def f(a, s=None, axes=None, norm=None, **k):
        if not is_sym(a):
            if multi:
                return orig(a, s=s, axes=axes, norm=norm)
            return orig(a, n=s if s is not None else k.get('n'), axis=k.get('axis', -1 if axes is None else axes), norm=norm)
        if norm not in (None, 'backward') or s is not None or k.get('n') is not None:
            raise Unsupported('fft norm/s')
        if multi:
            if axes is None:
                axes = tuple(range(a.ndim)) if name in ('fftn', 'ifftn') else (-2, -1)
        else:
            axes = (k.get('axis', -1 if axes is None else axes),)
        r = a.view(SymArray) if type(a) is np.ndarray else a
        tot = 1
        for ax in axes:
            tot *= a.shape[ax]
            r = _dft1(r, ax, sign)
        if sign > 0:
            from fractions import Fraction
            r = r * lift(Fraction(1, tot))
        return r
    return f


# ------------------------------------------------------------------------------------------------ misc
def p_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if is_sym(a) or is_sym(b):
        a, b = np.broadcast_arrays(p_array(a), p_array(b))
        for x, y in zip(a.ravel(), b.ravel()):
            if not (lift(x) - lift(y)).is_zero():
                if not bool(lift(x) == y):
                    return False
        return True
    return O('allclose')(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)


def p_isclose(a, b, *ar, **k):
    if is_sym(a) or is_sym(b):
        a, b = np.broadcast_arrays(p_array(a), p_array(b))
        r = O('array')([bool(lift(x) == y) for x, y in zip(a.ravel(), b.ravel())]).reshape(a.shape)
        return r if r.ndim else bool(r)
    return O('isclose')(a, b, *ar, **k)


def p_isnan(x, *a, **k):
    if is_sym(x):
        f = lambda e: isinstance(e, (float, complex)) and e != e
        return O('array')([f(e) for e in x.ravel()], dtype=bool).reshape(np.shape(x)) if np.ndim(x) else f(x)
    return O('isnan')(x, *a, **k)


def p_isfinite(x, *a, **k):
    if is_sym(x):
        return O('ones')(np.shape(x), dtype=bool) if np.ndim(x) else True
    return O('isfinite')(x, *a, **k)


def _argext(less):
    def f(a, axis=None, **k):
        name = 'argmin' if less else 'argmax'
        a = O('asanyarray')(a)
        if a.dtype != object:
            return O(name)(a, axis=axis, **k)

        def one(v):
            best = 0
            for i in range(1, len(v)):
                c = v[i] < v[best] if less else v[i] > v[best]
                if bool(c):
                    best = i
            return best
        if axis is None:
            return one(a.ravel())
        b = O('moveaxis')(a, axis, -1)
        r = O('array')([one(v) for v in b.reshape(-1, b.shape[-1])])
        return r.reshape(b.shape[:-1]) if b.ndim > 1 else int(r[0])
    return f


def p_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if is_sym(start) or is_sym(stop):
        from fractions import Fraction
        div = num - 1 if endpoint else num
        step = (lift(stop) - lift(start)) * lift(Fraction(1, div)) if div else lift(0)
        out = O('empty')(num, dtype=object)
        for i in range(num):
            out[i] = lift(start) + step * i
        return out.view(SymArray)
    return O('linspace')(start, stop, num, endpoint=endpoint, retstep=retstep, dtype=dtype, axis=axis)


def p_trapz(y, x=None, dx=1.0, axis=-1):
    if is_sym(y) or (x is not None and is_sym(x)):
        y = p_array(y)
        y = O('moveaxis')(y, axis, -1)
        if x is None:
            d = dx
        else:
            x = p_array(x)
            d = x[..., 1:] - x[..., :-1]
        return wrap(O('sum')(d * (y[..., 1:] + y[..., :-1]) / 2, axis=-1))
    return O('trapz')(y, x=x, dx=dx, axis=axis)


def p_round(a, decimals=0, out=None):
    if isinstance(a, S):
        return round(a, decimals)
    if isinstance(a, np.ndarray) and a.dtype == object:
        return _map(lambda e: lift(e).__round__(decimals) if decimals else e.rint() if isinstance(e, S) else round(e), a)
    return O('round')(a, decimals)


def p_where(c, *a):
    if isinstance(c, np.ndarray) and c.dtype == object:
        c = _concrete_index(c)
    return wrap(O('where')(c, *a))


def p_dot(a, b, out=None):
    r = O('dot')(a, b)
    return wrap(r)


def p_einsum(*a, **k):
    if any_sym(list(a)):
        k.pop('optimize', None)
        k.pop('dtype', None)
        r = O('einsum')(*[x.view(np.ndarray) if isinstance(x, SymArray) else x for x in a], **k)
        return wrap(r)
    return O('einsum')(*a, **k)


def p_cumsum(a, *ar, **k):
    return wrap(O('cumsum')(a, *ar, **k))


def p_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if any_sym(a):
        if isinstance(a, S):
            return a
        a = O('asanyarray')(a)
        n = a.size if axis is None else int(O('prod')([a.shape[i] for i in (axis if isinstance(axis, tuple) else (axis,))]))
        from fractions import Fraction
        r = O('sum')(a, axis=axis, keepdims=keepdims)
        return wrap(r * lift(Fraction(1, n)))
    kw = {} if keepdims is False else {'keepdims': keepdims}
    if dtype is symfloat:
        dtype = float
    return wrap(O('mean')(a, axis=axis, dtype=dtype, out=out, **kw))


def p_fromiter(it, dtype=None, count=-1, **k):
    if _dt(dtype) not in ('float', 'complex', 'obj'):
        return O('fromiter')(it, dtype, count, **k)
    import itertools
    fl = [lift(x) for x in (it if count < 0 else itertools.islice(it, count))]
    out = O('empty')(len(fl), dtype=object)
    for i, x in enumerate(fl):
        out[i] = x
    return out.view(SymArray)


def p_vectorize(f=None, otypes=None, **k):
    if f is None:
        return lambda g: p_vectorize(g, otypes, **k)
    v = O('vectorize')(f, otypes=otypes, **k)

    def g(*a, **kk):
        if any_sym(list(a) + list(kk.values())):
            return wrap(O('vectorize')(f, otypes=None if otypes is None else [object if _dt(t) in ('float', 'complex') else t for t in otypes],
                                       **k)(*a, **kk))
        return v(*a, **kk)
    return g


def _formula(name, h):
    def f(*a, **k):
        return h(*a, **k) if any_sym(a) else O(name)(*a, **k)
    return f


def _anyc(x):
    return any(not lift(v).is_real() for v in np.asarray(x).ravel())


class _Ufunc:
    """arithmetic function whose results on symbolic operands (also scalars among plain arrays) are symbolic arrays; .reduce, .outer ... as they are"""
    def __init__(self, f):
        self._f = f

    def __call__(self, *a, **k):
        if k.get('dtype') is not None and _dt(k['dtype']) in ('float', 'complex') and any_sym(a):
            k = {n: v for n, v in k.items() if n != 'dtype'}
        r = self._f(*a, **k)
        return wrap(r) if isinstance(r, np.ndarray) and r.dtype == object and not isinstance(r, SymArray) else r

    def __getattr__(self, n):
        return getattr(self._f, n)


p_array = None
_PATCH = None


def _build():
    global p_array, _PATCH
    p_array = _mkarray('array')
    d = dict(arange=p_arange, zeros=p_zeros, ones=p_ones, empty=p_empty, full=p_full, zeros_like=_like(0), ones_like=_like(1),
             empty_like=p_empty_like, full_like=p_full_like, eye=p_eye, identity=p_identity,
             array=p_array, asarray=_mkarray('asarray'), asanyarray=_mkarray('asanyarray'),
             ascontiguousarray=_mkarray('ascontiguousarray'),
             real=p_real, imag=p_imag, conj=p_conj, conjugate=p_conj, abs=p_abs, absolute=p_abs,
             allclose=p_allclose, isclose=p_isclose, isnan=p_isnan, isfinite=p_isfinite,
             argmin=_argext(True), argmax=_argext(False), linspace=p_linspace, trapz=p_trapz,
             round=p_round, around=p_round, where=p_where, dot=p_dot, einsum=p_einsum, mean=p_mean)
    for n in ('exp', 'cos', 'sin', 'tan', 'cosh', 'sinh', 'tanh', 'sqrt', 'log'):
        d[n] = _elementwise(n, n)
    for n in ('concatenate', 'stack', 'vstack', 'hstack', 'column_stack', 'tile', 'take', 'repeat', 'roll', 'flip', 'transpose',
              'moveaxis', 'swapaxes', 'reshape', 'squeeze', 'expand_dims', 'diag', 'diagonal', 'outer', 'matmul', 'tensordot',
              'sum', 'prod', 'average', 'broadcast_to', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'apply_along_axis',
              'cumsum', 'copy', 'pad', 'delete', 'insert', 'append', 'fromiter', 'meshgrid', 'diff', 'kron', 'trace', 'ravel',
              'split', 'array_split', 'rollaxis', 'flipud', 'fliplr', 'rot90', 'compress', 'extract', 'choose', 'vdot', 'inner'):
        if n != 'matmul':
            d[n] = _generic(n)
    for n in ('multiply', 'add', 'subtract', 'divide', 'true_divide', 'power', 'square', 'negative', 'reciprocal', 'matmul'):
        d[n] = _Ufunc(getattr(np, n))
    d.update(fromiter=p_fromiter, vectorize=p_vectorize, float_power=_formula('float_power', lambda a, b: a ** b),
             expm1=_formula('expm1', lambda a: np.exp(a) - 1), log1p=_formula('log1p', lambda a: np.log(1 + a)),
             hypot=_formula('hypot', lambda a, b: np.sqrt(a * a + b * b)), iscomplexobj=_formula('iscomplexobj', _anyc),
             isrealobj=_formula('isrealobj', lambda x: not _anyc(x)))
    _PATCH = d
    for n in d:
        _o[n] = getattr(np, n)


_build()


def native(f):
    """f called with the unpatched numpy (compiled code that fills arrays itself)"""
    def g(*a, **k):
        now = {n: getattr(np, n) for n in _PATCH}
        try:
            for n in _PATCH:
                setattr(np, n, _o[n])
            return f(*a, **k)
        finally:
            for n, h in now.items():
                setattr(np, n, h)
    return g


MATH = {(m, n): getattr(m, n) for m in (math, cmath) for n in ('sqrt', 'exp', 'cos', 'sin', 'tan', 'cosh', 'sinh', 'tanh', 'log')}


def _math(mod, n):
    f = MATH[mod, n]

    def g(x, *a):
        if isinstance(x, S) and not a:
            return getattr(x, n)()
        return f(x, *a)
    return g


@contextlib.contextmanager
def symbolic_numpy(modules=()):
    """patch numpy (globally, in this process) so that float/complex arrays become arrays of symbolic scalars"""
    saved = {n: getattr(np, n) for n in _PATCH}
    sl = {n: getattr(np.linalg, n) for n in ('inv', 'solve', 'det', 'norm')}
    sf = {n: getattr(np.fft, n) for n in ('fft', 'ifft', 'fftn', 'ifftn', 'fft2', 'ifft2')}
    spi = np.pi
    mpi = math.pi
    PI = S({((P.PI_, 1),): 1})
    ff = {'fft': _fftn(-1, 'fft', False), 'ifft': _fftn(1, 'ifft', False), 'fftn': _fftn(-1, 'fftn', True),
          'ifftn': _fftn(1, 'ifftn', True), 'fft2': _fftn(-1, 'fft2', True), 'ifft2': _fftn(1, 'ifft2', True)}
    rnd = {n: getattr(np.random, n) for n in ('random_sample', 'random', 'rand', 'randn', 'uniform', 'normal', 'ranf', 'sample',
                                              'randint', 'choice', 'permutation', 'shuffle', 'default_rng', 'seed')}
    touched = []
    try:
        for n, f in _PATCH.items():
            setattr(np, n, f)
        np.linalg.inv, np.linalg.solve, np.linalg.det, np.linalg.norm = p_inv, p_solve, p_det, p_norm
        for n, f in ff.items():
            setattr(np.fft, n, f)
        np.pi = PI
        for n, f in rnd.items():
            setattr(np.random, n, native(f))
        for m in modules:
            for n, c in (('float', symfloat), ('complex', symcomplex)):
                if n not in m.__dict__:
                    m.__dict__[n] = c
                    touched.append((m, n))
        for mod, n in MATH:
            setattr(mod, n, _math(mod, n))
        yield
    finally:
        for n, f in saved.items():
            setattr(np, n, f)
        for n, f in sl.items():
            setattr(np.linalg, n, f)
        for n, f in sf.items():
            setattr(np.fft, n, f)
        np.pi = spi
        for n, f in rnd.items():
            setattr(np.random, n, f)
        for m, n in touched:
            m.__dict__.pop(n, None)
        for (mod, n), f in MATH.items():
            setattr(mod, n, f)


def reset():
    _INV.clear()
