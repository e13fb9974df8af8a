"""C42 Pade continuation: interpolation of the data, exactness for rational functions, selection of the physical continuations"""
import contextlib
import io
import sys
import scipy.optimize
import numpy as np
from ana_cont import continuation
from dga import pade_aux as pa
from common import replaced

EXPLANATION = ('symbolic data, frequencies and coefficients; references: the interpolation condition, rational functions written out, the derivative of a '
               'quotient, the selection rule applied to prescribed distances')
OUTSIDE = 'more data points than listed, zero denominators, convergence of the least-squares routines, rounding errors'


def freqs(ctx, n, name='v'):
    d = ctx.pos(name, (n,))
    out = d.copy()
    for i in range(1, n):
        out[i] = out[i - 1] + d[i]
    return out


def nonzero(ctx, x):
    for y in np.asarray(x).reshape(-1):
        ctx.assume(abs2(y) > 0)


def abs2(x):
    return x.real ** 2 + x.imag ** 2


def poly(c, z, monic=False):
    t = 0
    for i, x in enumerate(c):
        t = t + x * z ** i
    return t + z ** len(c) if monic else t


def interpolation(ctx, n, how):
    """the continued fraction passes through every datum"""
    v = freqs(ctx, n)
    u = ctx.cplx('u', (n,))
    nonzero(ctx, u)
    if how == 'thiele':
        got = pa.padeThiele(1j * v, u, 1j * v)
    else:
        got = pa.PadeSolver(im_axis=v, re_axis=ctx.real('w', (2,)), im_data=u).check(im_axis_fine=v)
    ctx.eq(got, u, 'interpolation')


def exact(ctx, n, poles, how):
    """a function that is a sum of poles is continued exactly"""
    v, w = freqs(ctx, n), ctx.real('w', (2,))
    if poles > 1:  # numbers instead of symbols keep the fractions small
        v = 0 * v + np.array([1, 3, 5, 7][:n])
        w = 0 * w[:1] + 2
    a, p = ctx.pos('a', (poles,)), ctx.real('p', (poles,))
    if poles > 1:
        p = np.array([p[0], 0 * p[0] - 1])
    f = lambda z: sum(a[i] / (z - p[i]) for i in range(poles))
    u = f(1j * v)
    if how == 'thiele':
        ctx.eq(pa.padeThiele(1j * v, u, w), f(w), 'real axis')
        return
    with replaced((pa.PadeSolver, 'check', lambda self, **k: setattr(self, 'ivcheck', None))):
        if how == 'problem':
            pr = continuation.AnalyticContinuationProblem(im_axis=v, re_axis=w, im_data=u, kernel_mode='freq_fermionic', beta=10.)
            r = pr.solve(method='pade')
        else:
            r = pa.PadeSolver(v, w, u).solve()
    ctx.eq(r.g_ret, f(w), 'real axis')
    ctx.eq(r.A_opt * np.pi, -np.imag(r.g_ret), 'spectrum')
    z = ctx.cplx('z')
    ctx.eq(r.numerator, r.numerator_function(w), 'numerator')
    ctx.eq(r.denominator, r.denominator_function(w), 'denominator')
    ctx.eq(r.numerator_function(z), f(z) * r.denominator_function(z), 'functions of complex argument')


def matrix(ctx, m, r):
    """Beach: the coefficients of an exact quotient of degree r solve the linear system"""
    z, x = ctx.cplx('z', (m,)), ctx.cplx('x', (2 * r,))
    den = [poly(x[r:], zz, monic=True) for zz in z]
    nonzero(ctx, den)
    f = np.array([poly(x[:r], zz) / d for zz, d in zip(z, den)])
    ctx.eq(pa.epade(z, x), f, 'value of the quotient')
    seen = []

    def lstsq(a, b, rcond=None):
        seen.append((a, b))
        return x, 0, 2 * r, [1.]
    with replaced((np.linalg, 'lstsq', lstsq)):
        ctx.eq(pa.padeMatrix(z, f, 2 * r), x, 'coefficients')
    a, b = seen[0]
    ctx.true(a.shape == (m, 2 * r), 'as many equations as data')
    ctx.eq(a @ x, b, 'linear system')
    # no other coefficients solve it unless they give the same values
    y = ctx.cplx('y', (2 * r,))
    for i in range(m):
        num, de = poly(y[:r], z[i]), poly(y[r:], z[i], monic=True)
        ctx.eq((a @ y - b)[i], num - f[i] * de, 'residual = numerator - f denominator')


def nonlinear(ctx, m, n):
    """deviation and its derivative handed to the least-squares routine"""
    r = n // 2
    z, f, x = ctx.cplx('z', (m,)), ctx.cplx('f', (m,)), ctx.cplx('x', (n,))
    den = np.array([poly(x[r:], zz, monic=True) for zz in z])
    num = np.array([poly(x[:r], zz) for zz in z])
    nonzero(ctx, den)
    seen = {}
    xr = np.concatenate((x.real, x.imag))

    def least(fun, x0, args=(), Dfun=None, **k):
        seen.update(err=fun(xr, *args), jac=Dfun(xr, *args), x0=x0)
        return xr, None, {}, '', 1
    with replaced((scipy.optimize, 'leastsq', least), (pa, 'leastsq', least)):
        ctx.eq(pa.padeNonlinear(z, f, n), x, 'coefficients')
    ctx.true(len(seen['x0']) == 2 * n, 'number of unknowns')
    dev = num / den - f
    ctx.eq(seen['err'], np.concatenate((dev.real, dev.imag)), 'deviation')
    for i in range(n):
        d = z ** i / den if i < r else -num * z ** (i - r) / den ** 2
        for j, dd in ((i, d), (n + i, 1j * d)):
            ctx.eq(seen['jac'][:, j], np.concatenate((dd.real, dd.imag)), 'derivative')


def columns(ctx, solver, ncol):
    """every column is continued on its own by the chosen method"""
    m, nz, n = 4, 2, 4
    z, zo, fs = ctx.cplx('z', (m,)), ctx.cplx('zo', (nz,)), ctx.cplx('f', (m, ncol))
    co, out = ctx.cplx('co', (ncol, n)), ctx.cplx('out', (ncol, nz))
    log = []

    def coefficients(kind):
        def g(z_, f, N):
            log.append((kind, f))
            ctx.eq(z_, z, 'points')
            ctx.true(N == n, 'number of coefficients')
            return co[len(log) - 1]
        return g

    def value(z_, x):
        ctx.eq(z_, zo, 'points on the real axis')
        ctx.eq(x, co[len(log) - 1], 'coefficients of this column')
        return out[len(log) - 1]

    def thiele(z_, f, zut):
        log.append((1, f))
        ctx.eq(zut, zo, 'points on the real axis')
        return out[len(log) - 1]
    with replaced((pa, 'padeMatrix', coefficients(0)), (pa, 'padeNonlinear', coefficients(2)), (pa, 'epade', value), (pa, 'padeThiele', thiele)):
        if solver is None:
            ctx.raises(SystemExit, lambda: pa.acPade(z, fs, 3, zo, 0), 'odd number of coefficients')
            ctx.raises(SystemExit, lambda: pa.acPade(z, fs, 2, zo, 1), 'Thiele needs as many coefficients as points')
            with contextlib.redirect_stdout(io.StringIO()):
                ctx.raises(SystemExit, lambda: pa.acPade(z, fs, n, zo, 7), 'unknown method')
            return
        got = pa.acPade(z, fs, n, zo, solver)
    ctx.true([x[0] for x in log] == [solver] * ncol, 'method')
    for i in range(ncol):
        ctx.eq(log[i][1], fs[:, i], 'data of this column')
    ctx.eq(got, out.T, 'result')


def points(ctx, n, nmin, m, cols):
    """contiguous points; below zero they are mirrored with f(z*) = f(z)*"""
    z, f = ctx.cplx('z', (n,)), ctx.cplx('f', (n, 3))
    zp, fp = pa.pick_points(z, f, nmin, m, list(cols))
    ctx.true(len(zp) == m and fp.shape == (m, len(cols)), 'number of points')
    for i in range(m):
        j = nmin + i
        for k, c in enumerate(cols):
            ctx.eq(fp[i, k], f[j, c] if j >= 0 else np.conj(f[-j - 1, c]), 'value')
        ctx.eq(zp[i], z[j] if j >= 0 else np.conj(z[-j - 1]), 'point')


def selection(ctx, imag, positive):
    """mean of the physical continuations that lie closest to the others"""
    nz = 2
    z, f, zo = ctx.cplx('z', (3,)), ctx.cplx('f', (3, 2)), ctx.cplx('zo', (nz,))
    calls, phys = [], {}
    where = [5 + 7 * i for i in range(len(imag))]
    re = ctx.real('re', (len(imag), nz, 1))

    def pick(zin, fin, nmin, M, cols):
        ctx.eq(zin, z, 'points')
        return ('z', nmin, M), ('f', nmin, M, tuple(cols))

    def ac(zp, fp, N, zout, solver):
        i = len(calls)
        ctx.eq(zout, zo, 'points on the real axis')
        calls.append((zp, fp, N, solver))
        a = ctx.zeros((nz, 1))
        a[...] = 1j
        if i in where:
            k = where.index(i)
            for j in range(nz):
                a[j, 0] = re[k, j, 0] + 1j * imag[k][j]
        elif i == positive:
            a[0, 0] = -1j  # positive imaginary part at one point only
        return a
    with replaced((pa, 'pick_points', pick), (pa, 'acPade', ac)), contextlib.redirect_stdout(io.StringIO()):
        if not imag:
            ctx.raises(SystemExit, lambda: pa.pade(z, f, zo), 'no physical continuation')
            return
        mean, fs, masks = pa.pade(z, f, zo)
    for zp, fp, N, s in calls:
        ctx.true(zp[1:] == fp[1:3] and 40 <= N <= zp[2] and 50 <= zp[2] <= 100 and N % 2 == 0 and zp[1] in (-3, -2, -1) and s == 0, 'settings')
    ctx.true(len(set((c[0], c[2]) for c in calls)) == len(calls) > where[-1], 'different settings')
    n = len(imag)
    ctx.true(fs.shape == (n, nz, 1), 'physical continuations')
    for k in range(n):
        for j in range(nz):
            ctx.eq(fs[k, j, 0], re[k, j, 0] + 1j * imag[k][j], 'physical continuation')
    if n == 1:
        want = [0]
    else:
        d = [sum(sum(abs(a - b) for a, b in zip(imag[k], imag[l])) for l in range(n)) for k in range(n)]
        order = sorted(range(n), key=lambda k: d[k])[:int(0.51 * n)]
        want = [k for k in order if d[k] <= 0.99 * sum(d) / n]
    ctx.true(sorted(np.nonzero(np.asarray(masks)[:, 0])[0].tolist()) == sorted(want), 'selected continuations')
    for j in range(nz):
        ctx.eq(mean[j, 0] * len(want), sum(re[k, j, 0] + 1j * imag[k][j] for k in want), 'mean')


def cases(tier):
    big = tier == 'thorough'
    out = []
    for how in ('thiele', 'solver'):
        for n in (1, 2, 3)[how == 'solver':] + ((4,) if big else ()):
            out.append((interpolation, dict(n=n, how=how)))
    for how in ('thiele', 'solver', 'problem'):
        for n, poles in ((2, 1), (3, 1)) + (((4, 2),) if big or how == 'thiele' else ()):
            if (how, n) != ('thiele', 3):
                out.append((exact, dict(n=n, poles=poles, how=how)))
    for m, r in ((2, 1), (3, 1), (4, 2)) + (((5, 2), (6, 3)) if big else ()):
        out.append((matrix, dict(m=m, r=r)))
        if r < 3:
            out.append((nonlinear, dict(m=m, n=2 * r)))
    for solver in (0, 1, 2, None):
        for ncol in (1, 3):
            out.append((columns, dict(solver=solver, ncol=ncol)))
    for nmin in (-3, -2, -1, 0, 1, 2):
        for m in (3, 4):
            out.append((points, dict(n=6, nmin=nmin, m=m, cols=(0, 2))))
    ims = [[], [(-1., -2.)], [(-1., -1.), (-1.2, -1.), (-5., -1.)], [(-9., 0.), (-1., -1.), (-1.1, -1.), (-1.3, -1.2), (0., -8.)],
           [(-2., -2.), (-2., -2.), (-2., -2.), (-7., -2.)]]
    for im in ims:
        for p in (2, 8):
            out.append((selection, dict(imag=im, positive=p)))
    return out
