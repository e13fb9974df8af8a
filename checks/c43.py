"""C43 kernels and problem classes of the analytic continuation"""
import numpy as np
from ana_cont import continuation as cont, kernels, solvers
from common import replaced, no_plots, NoOp
from c36 import grid, weights
import contextlib
import io

EXPLANATION = ('symbolic meshes, temperatures, data and spectra; exponentials enter through their functional equation; the optimiser is replaced by '
               'one that answers with a free spectrum and the back-transform its own kernel gives; reference: spectral representations in the '
               'caller\'s units written out')
OUTSIDE = ('the maximisation itself (C40); rounding; meshes of more points than listed; the imaginary-time boson kernel on meshes which do not start '
           'at zero (its first column is the zero-frequency limit)')


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def times(ctx, m, beta=1):
    """imaginary times between 0 and beta"""
    x = ctx.pos('x', (m,))
    t, last = [], 0
    for i in range(m):
        last = last + x[i]
        t.append(last)
    ctx.assume(last <= 1)
    return ctx.arr([beta * i for i in t], dtype=float)


def freqs(ctx, m, zero):
    x = ctx.pos('v', (m,))
    out, last = [], 0 * ctx.pos('unit') if zero else x[0]
    for i in range(m):
        out.append(last)
        last = last + ctx.pos(f'dv{i}')
    return ctx.arr(out, dtype=float)


def positive_zero(kind):
    return kind in ('freq_bosonic', 'time_bosonic')


def mesh(ctx, kind, n, at=0):
    if at:  # zero in the middle of the mesh
        up, down = [ctx.pos(f'up{i}') for i in range(n - 1 - at)], [ctx.pos(f'dn{i}') for i in range(at)]
        out = [0 * ctx.pos('unit')]
        for d in up:
            out.append(out[-1] + d)
        for d in down:
            out.insert(0, out[0] - d)
        return ctx.arr(out, dtype=float)
    if positive_zero(kind):
        return grid(ctx, n, 0 * ctx.pos('unit'))
    if 'phsym' in kind:
        return grid(ctx, n, ctx.pos('w0'))
    return grid(ctx, n)


def e(x):
    return np.exp(x)


def elem(kind, x, w, beta, first=False):
    """spectral representation of the Matsubara or imaginary-time function: contribution of a peak of unit weight at w"""
    if kind == 'freq_fermionic':
        return 1 / (1j * x - w)
    if kind == 'freq_bosonic':
        return None
    if kind == 'freq_fermionic_phsym':
        # imaginary part of 1/(iv - w) + 1/(iv + w)
        return -2 * x / (x * x + w * w)
    if kind == 'time_fermionic':
        return e(-x * w) / (1 + e(-beta * w))
    if kind == 'time_fermionic_phsym':
        # particle and hole contribution
        return e(-x * w) / (1 + e(-beta * w)) + e(x * w) / (1 + e(beta * w))
    if kind == 'time_bosonic':
        if first:
            return 1 / beta
        return w / 2 * (e(-x * w) + e(-(beta - x) * w)) / (1 - e(-beta * w))


def matrix(ctx, kind, n, m, zero=False, at=0):
    w = mesh(ctx, kind, n, at)
    x = times(ctx, m) if kind.startswith('time') else freqs(ctx, m, zero)
    with quiet():
        k = kernels.Kernel(kind=kind, re_axis=w, im_axis=x)
    ctx.true(np.shape(k.matrix) == (m, n) and (k.nw, k.niw) == (n, m), 'sizes')
    ctx.eq(k.matrix, k.original_matrix, 'no blurring to begin with')
    for i in range(m):
        for j in range(n):
            got = k.matrix[i, j]
            if kind == 'freq_bosonic':
                if j == at:
                    want = 1 if zero and i == 0 else 0
                else:
                    want = 1 if zero and i == 0 else w[j] ** 2 / (w[j] ** 2 + x[i] ** 2)
            elif kind == 'freq_bosonic_xyz':
                want = 0 if zero and i == 0 else -x[i] / (x[i] ** 2 + w[j] ** 2)
            else:
                want = elem(kind, x[i], w[j], 1, j == 0)
            if kind == 'time_fermionic' and bool(e(-w[j]) > 1e8):
                # far below the Fermi level the occupation is replaced by one
                ctx.true((got >= want * (1 - 1e-9)) & (got <= want * (1 + 1.1e-8)), 'kernel up to the neglected Boltzmann factor')
            else:
                ctx.eq(got, want, 'kernel')
    if kind == 'freq_fermionic':
        r = k.real_matrix()
        for i in range(m):
            for j in range(n):
                ctx.eq(r[i, j], -w[j] / (x[i] ** 2 + w[j] ** 2), 'real part')
                ctx.eq(r[m + i, j], -x[i] / (x[i] ** 2 + w[j] ** 2), 'imaginary part')
    else:
        ctx.eq(k.real_matrix(), k.matrix, 'real kernels stay as they are')
    k.preblur(0.0)
    ctx.eq(k.matrix, k.original_matrix, 'no blurring without width')
    if kind not in ('freq_fermionic', 'freq_bosonic'):
        k.preblur(0.25)
        ctx.eq(k.matrix, k.original_matrix, 'blurring is for the Matsubara kernels')
        ctx.raises(NotImplementedError, lambda: convolve(k), 'no blurred kernel of this kind')


def convolve(k):
    k.blur_width = 0.25
    k.convolve_kernel()


def refused(ctx):
    w = np.array([0.5, 1.0])
    for kw in (dict(kind='nonsense', re_axis=w, im_axis=w), dict(kind=None, re_axis=w, im_axis=w), dict(kind='freq_bosonic', re_axis=None, im_axis=w),
               dict(kind='freq_bosonic', re_axis=w, im_axis=None)):
        ctx.raises(ValueError, lambda: kernels.Kernel(**kw), 'incomplete or unknown kernel')
    ctx.raises(ValueError, lambda: cont.AnalyticContinuationProblem(im_axis=w, re_axis=w, im_data=w, kernel_mode='nonsense'), 'unknown kernel')
    ctx.raises(ValueError, lambda: cont.AnalyticContinuationProblem(im_axis=1j * w, re_axis=w, im_data=w, kernel_mode='freq_fermionic'),
               'imaginary frequencies are given as real numbers')
    p = cont.AnalyticContinuationProblem(im_axis=w, re_axis=w, im_data=w, kernel_mode='freq_fermionic')
    for bad in ('', 'nonsense'):
        ctx.raises(ValueError, lambda: p.solve(method=bad), 'unknown method')
    ctx.raises(NotImplementedError, lambda: p.solve(method='maxent_mc'), 'stochastic method is not available')


class Result:
    pass


def problem(ctx, kind, n, m, zero=False, partial=False, keep=2):
    """the spectrum returned reproduces, in the caller's units, the back-transform which is returned with it"""
    beta = ctx.pos('beta') if kind.startswith('time') else 1
    x0 = times(ctx, m, beta) if kind.startswith('time') else freqs(ctx, m, zero)
    if kind == 'time_bosonic':
        w = grid(ctx, n, 0 * ctx.pos('unit'))
    else:
        w = mesh(ctx, kind, n)
    if 'freq_fermionic' == kind:
        data = ctx.cplx('d', (m,))
    else:
        data = ctx.real('d', (m,))
    given = data.copy()
    seen = []
    spec = ctx.real('A', (n,))
    ustart = ctx.real('u', (3,))

    class Solver:
        def __init__(self, im_axis, re_axis, im_data, kernel_mode='', **kw):
            self.n_sv = keep
            seen.append(dict(im=im_axis, re=re_axis, d=im_data, kind=kernel_mode, kw=kw))
            with quiet():
                self.k = kernels.Kernel(kind=kernel_mode, re_axis=re_axis, im_axis=im_axis)
            self.dw = weights(re_axis)

        def answer(self):
            r = Result()
            r.A_opt = spec.copy()
            r.backtransform = sum(self.k.matrix[:, j] * (spec[j] * self.dw[j]) for j in range(n))
            return r

        def solve(self, **kw):
            seen.append(kw)
            return self.answer(), ['all']

        def maxent_optimization(self, **kw):
            seen.append(kw)
            return self.answer()
    p = cont.AnalyticContinuationProblem(im_axis=x0.copy(), re_axis=w.copy(), im_data=given, kernel_mode=kind, beta=beta)
    opts = dict(alpha_determination='chi2kink', stdev=ctx.pos('err', (m,)), model=ctx.pos('model', (n,)))
    with replaced((solvers, 'MaxentSolverSVD', Solver), (cont.solvers, 'MaxentSolverSVD', Solver)):
        if partial:
            r = p.partial_solution(method='maxent_svd', alpha=2.0, ustart=ustart, **opts)
        else:
            sol = p.solve(method='maxent_svd', **opts)
            r = sol[0]
            ctx.true(sol[1] == ['all'], 'all solutions are handed on')
    ctx.true(seen[0]['kind'] == kind, 'kernel')
    for kw in (seen[0]['kw'], seen[1]):
        for o in opts:
            ctx.true(kw[o] is opts[o], 'options are handed on')
    if partial:
        ctx.true(seen[1]['alpha'] == 2.0, 'entropy weight')
        ctx.eq(seen[1]['ustart'], ustart[:keep], 'start vector of the size of the search space')
    ctx.eq(given, data, 'data of the caller')
    dw = weights(w)
    for i in range(m):
        t = 0
        for j in range(n):
            if kind == 'freq_bosonic':
                if j == 0:
                    k = 1 if zero and i == 0 else 0
                else:
                    k = 1 if zero and i == 0 else w[j] ** 2 / (w[j] ** 2 + x0[i] ** 2)
            elif kind == 'time_fermionic' and bool(e(-beta * w[j]) > 1e8):
                k = e((beta - x0[i]) * w[j])
            else:
                k = elem(kind, x0[i], w[j], beta, j == 0)
            t = t + dw[j] * r.A_opt[j] * k
        if kind in ('time_bosonic', 'time_fermionic', 'time_fermionic_phsym'):
            # what the optimiser fits is the data of the caller in the same units as the back-transform
            f = beta if kind == 'time_bosonic' else 1
            ctx.eq(seen[0]['d'][i], data[i] * f, 'data at unit temperature')
        else:
            ctx.eq(seen[0]['d'][i], data[i], 'data')
        ctx.eq(r.backtransform[i], t, 'spectrum reproduces the back-transform')


def phsym_data(ctx, form, m):
    """particle-hole symmetric data: the imaginary part alone, or purely imaginary numbers; other data are refused"""
    x, w = freqs(ctx, m, False), grid(ctx, 2, ctx.pos('w0'))
    v = ctx.pos('im', (m,), lo=1)
    d = {'imaginary': 1j * v, 'number': v, 'number0j': v + 0j, 'mixed': (1 + 1j) * v}[form]
    f = lambda: cont.AnalyticContinuationProblem(im_axis=x, re_axis=w, im_data=d, kernel_mode='freq_fermionic_phsym')
    with quiet():
        if form == 'mixed':
            ctx.raises(SystemExit, f, 'neither real nor imaginary')
            return
        p = f()
    ctx.eq(p.im_data, v, 'imaginary part of the data')


def hidden(ctx, kind, n):
    """the spectrum shown is the hidden one averaged with the Gaussian; bosonic spectra continue evenly, nothing outside the mesh"""
    w = grid(ctx, n, 0 * ctx.pos('unit') if kind == 'freq_bosonic' else None)
    a = ctx.real('a', (n,))
    pts = 5
    k = object.__new__(kernels.Kernel)
    k.kind, k.re_axis = kind, w
    k.w_integration, k.gaussian_numeric = ctx.real('x', (pts,)), ctx.pos('g', (pts,))
    seen = {}
    values = ctx.real('y', (n, pts))

    class Spline:
        def __init__(self, x, y, ext=None, **kw):
            seen.update(x=x, y=y, ext=ext, kw=kw)

        def __call__(self, t):
            seen['t'] = t
            return values

    class Int:
        @staticmethod
        def simps(y, x=None, axis=-1):
            seen.update(f=y, over=x)
            return ctx.real('r', (n,)) if axis in (-1, 1) else None
    Int.simpson = Int.simps

    class Interp:
        InterpolatedUnivariateSpline = Spline
    with replaced((kernels, 'integ', Int), (kernels, 'interp', Interp)):
        r = k.blur(a)
    ctx.eq(r, ctx.real('r', (n,)) if ctx.sym else r, 'integral over the Gaussian')
    if kind == 'freq_bosonic':
        ctx.eq(seen['x'], np.concatenate((-w[:0:-1], w)), 'even continuation: mesh')
        ctx.eq(seen['y'], np.concatenate((a[:0:-1], a)), 'even continuation: spectrum')
    else:
        ctx.eq(seen['x'], w, 'mesh'), ctx.eq(seen['y'], a, 'spectrum')
    ctx.true(seen['ext'] in ('zeros', 1) and not seen['kw'], 'zero outside the mesh')
    for j in range(n):
        for t in range(pts):
            ctx.eq(seen['t'][j, t], w[j] + k.w_integration[t], 'shifted frequencies')
            ctx.eq(seen['f'][j, t], values[j, t] * k.gaussian_numeric[t], 'weight of the Gaussian')
    ctx.eq(seen['over'], k.w_integration, 'integration variable')


KINDS = ('freq_fermionic', 'freq_bosonic', 'freq_fermionic_phsym', 'time_fermionic', 'time_bosonic', 'time_fermionic_phsym')


def cases(tier):
    big = tier != 'quick'
    out = [(refused, {})]
    for kind in KINDS + ('freq_bosonic_xyz',):
        for n, m in ((2, 1), (3, 2), (2, 3)) + (((4, 3),) if big else ()):
            out.append((matrix, dict(kind=kind, n=n, m=m)))
            if kind in ('freq_bosonic', 'freq_bosonic_xyz'):
                out.append((matrix, dict(kind=kind, n=n, m=m, zero=True)))
                for at in range(1, n):
                    for zero in (False, True):
                        out.append((matrix, dict(kind=kind, n=n, m=m, zero=zero, at=at)))
    for kind in KINDS:
        for partial in (False, True):
            for n, m in ((2, 2), (3, 2)) + (((3, 3), (4, 2)) if big else ()):
                out.append((problem, dict(kind=kind, n=n, m=m, partial=partial)))
                if kind == 'freq_bosonic':
                    out.append((problem, dict(kind=kind, n=n, m=m, partial=partial, zero=True)))
    for form in ('imaginary', 'number', 'number0j', 'mixed'):
        for m in (1, 3):
            out.append((phsym_data, dict(form=form, m=m)))
    for kind in ('freq_bosonic', 'freq_fermionic'):
        for n in (2, 3, 4):
            out.append((hidden, dict(kind=kind, n=n)))
    return out
