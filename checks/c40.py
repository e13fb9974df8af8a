"""C40 maximum-entropy functional: deviation, entropy, stationarity condition, annealing"""
import contextlib
import io
import math
import numpy as np
from ana_cont import solvers, kernels
from common import replaced
from c36 import grid, rational
from c38 import trapz

EXPLANATION = ('symbolic data, frequencies, meshes, default model and singular vectors (the numerical decomposition is replaced by symbolic factors); '
               'reference: derivative of alpha S - chi^2 / 2 written out in real-frequency space with the kernel made of the retained factors')
OUTSIDE = ('the numerical singular value decomposition, convergence of the root search and of the fit of the kink; how many singular values are '
           'retained; more frequencies than listed')


def axis(ctx, ni, bos):
    im = ctx.zeros((ni,)).real if not ctx.sym else ctx.zeros((ni,))
    if bos:
        im[0] = 0 * ctx.pos('unit')
    for i in range(bos, ni):
        im[i] = ctx.pos(f'v{i}')
    return im


class Setup:
    pass


def unitary(ctx, n, real):
    """symbolic unitary matrix"""
    t = ctx.real('t')
    c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
    r = ctx.real('r')
    ph = 1 if real else ((1 - r * r) + 2j * r) / (1 + r * r)
    m = ctx.zeros((n, n))
    if not ctx.sym and real:
        m = m.real
    for i in range(n):
        m[i, i] = 1 + 0 * t
    m[0, 0], m[0, 1], m[1, 0], m[1, 1] = c, -s * ph, s, c * ph
    return m


def build(ctx, mode, nw, ni, nsv=None, blur=0, cov=False, offdiag=False):
    """a genuine solver object on symbolic data"""
    e = Setup()
    bos = mode == 'freq_bosonic'
    e.w = grid(ctx, nw, 0 if bos else None)
    e.im = axis(ctx, ni, bos)
    e.d = ctx.real('d', (ni,)) if bos else ctx.cplx('d', (ni,))
    e.model, e.sd = ctx.pos('model', (nw,)), ctx.pos('sd', (ni,))
    rows = ni if bos else 2 * ni
    r = min(rows, nw)
    e.U, e.V, e.S = ctx.real('U', (rows, r)), ctx.real('V', (nw, r)), 1 + ctx.pos('S', (r,))
    e.given = []

    def svd(a, full_matrices=True):
        e.given.append(a)
        return e.U, e.S, e.V.T
    raw = ctx.real('k', (ni, nw)) if bos else ctx.cplx('k', (ni, nw))  # formulas of the kernels: C36
    with replaced((np.linalg, 'svd', svd), (kernels.Kernel, 'kernel_matrix', lambda self: raw.copy()), (kernels.Kernel, 'convolve_kernel', lambda self: e.blurred)), contextlib.ExitStack() as stack:
        if blur:
            e.blurred = ctx.real('kb', (ni, nw)) if bos else ctx.cplx('kb', (ni, nw))
        noise = dict(stdev=e.sd)
        data = e.d
        e.back = k = e.blurred if blur else raw
        if cov:
            e.u = unitary(ctx, ni, bos)
            ud = np.conj(e.u.T)
            noise = dict(cov=ctx.real('cov', (ni, ni)))
            # slightly negative eigenvalues stand for their modulus
            stack.enter_context(replaced((np.linalg, 'eigh', lambda m: (ctx.eq(m, noise['cov'], 'covariance') or -e.sd ** 2, e.u))))
            data = np.array([sum(ud[i, j] * e.d[j] for j in range(ni)) for i in range(ni)])
            k = np.array([[sum(ud[i, j] * k[j, l] for j in range(ni)) for l in range(nw)] for i in range(ni)])
        e.s = solvers.MaxentSolverSVD(e.im, e.w, e.d, kernel_mode=mode, model=e.model, preblur=bool(blur), blur_width=blur,
                                      offdiag=offdiag, verbose=False, **noise)
    e.k = k if bos else np.concatenate((k.real, k.imag))
    e.data = data if bos else np.concatenate((data.real, data.imag))
    e.weight = 1 / np.concatenate((e.sd, e.sd)) ** 2 if not bos else 1 / e.sd ** 2
    e.rows = rows
    e.n = int(e.s.n_sv)
    e.dw = [((e.w[min(i + 1, nw - 1)] - e.w[i]) + (e.w[i] - e.w[max(i - 1, 0)])) / 2 for i in range(nw)]
    return e


def functional(ctx, mode, nw, ni, blur=0, cov=False):
    """deviation, entropy and back transform"""
    e = build(ctx, mode, nw, ni, blur=blur, cov=cov)
    ctx.true(0 < e.n <= min(e.rows, nw), 'singular vectors')
    ctx.eq(e.given[0], e.k, 'the decomposed matrix is the kernel')
    a, u = ctx.pos('A', (nw,)), ctx.real('u', (e.n,))
    chi2 = 0
    for k in range(e.rows):
        chi2 = chi2 + e.weight[k] * (e.data[k] - trapz([e.k[k, j] * a[j] for j in range(nw)], e.w)) ** 2
    ctx.eq(e.s.chi2(a), chi2, 'deviation from the data in units of the error')
    vu = [sum(e.V[j, m] * u[m] for m in range(e.n)) for j in range(nw)]
    ctx.eq(e.s.entropy_pos(a, u), trapz([a[j] - e.model[j] - a[j] * vu[j] for j in range(nw)], e.w), 'entropy relative to the default model')
    b = e.s.backtransform(a)
    for i in range(ni):
        ctx.eq(b[i], trapz([e.back[i, j] * a[j] for j in range(nw)], e.w), 'function on the imaginary axis')


def stationary(ctx, mode, nw, ni, cov=False, offdiag=False):
    """the root of f is the maximum of alpha S - chi^2 / 2 within the retained singular vectors, J its derivative"""
    e = build(ctx, mode, nw, ni, cov=cov, offdiag=offdiag)
    alphas, us, growns = ctx.pos('alpha', (2,)), ctx.real('u', (2, e.n)), ctx.pos('grown', (2, nw))
    for x, y in ((0, 0), (1, 0), (1, 1)):  # one solver for many weights and parameters
        alpha, u, grown = alphas[x], us[y], growns[y]
        args = []

        def exp(x):
            args.append(x)
            return grown
        with replaced((np, 'exp', exp)):
            f, j = e.s.compute_f_J_offdiag(u, alpha) if offdiag else e.s.compute_f_J_diag(u, alpha)
            a = e.s.singular_to_realspace_offdiag(u) if offdiag else e.s.singular_to_realspace_diag(u)
        vu = [sum(e.V[i, m] * u[m] for m in range(e.n)) for i in range(nw)]
        for z in args:
            ctx.eq(z, np.array(vu), 'growth of the model')
        # off-diagonal: A = D (w - 1/w), derivative D (w + 1/w) and dS/dA = -log w as for positive spectra
        ctx.eq(a, e.model * (grown - 1 / grown) if offdiag else e.model * grown, 'spectrum = model * exp(V u)')
        slope = e.model * (grown + 1 / grown) if offdiag else a
        cut = ctx.zeros((e.rows, nw))
        for k in range(e.rows):
            for l in range(nw):
                cut[k, l] = sum(e.U[k, m] * e.S[m] * e.V[l, m] for m in range(e.n))
        res = [e.weight[k] * (e.data[k] - sum(cut[k, l] * a[l] * e.dw[l] for l in range(nw))) for k in range(e.rows)]
        for l in range(nw):
            # derivative of S is -dw log(A/model), that of chi^2/2 is -dw K^T (res)
            ctx.eq(sum(e.V[l, m] * f[m] for m in range(e.n)), alpha * vu[l] - sum(cut[k, l] * res[k] for k in range(e.rows)), 'stationarity')
        for m in range(e.n):
            want = alpha * u[m] - e.S[m] * sum(e.U[k, m] * res[k] for k in range(e.rows))
            ctx.eq(f[m], want, 'projection of the gradient')
            for i in range(e.n):
                da = [slope[l] * e.V[l, i] for l in range(nw)]
                dres = [-e.weight[k] * sum(cut[k, l] * da[l] * e.dw[l] for l in range(nw)) for k in range(e.rows)]
                ctx.eq(j[m, i], (alpha if m == i else 0) - e.S[m] * sum(e.U[k, m] * dres[k] for k in range(e.rows)), 'derivative of the gradient')


def signed(ctx, mode, nw, ni):
    """entropy of spectra of either sign"""
    e = build(ctx, mode, nw, ni, offdiag=True)
    u, grown = ctx.real('u', (e.n,)), ctx.pos('grown', (nw,))
    vu = np.array([sum(e.V[i, m] * u[m] for m in range(e.n)) for i in range(nw)])
    a = e.model * (grown - 1 / grown)
    root = e.model * (grown + 1 / grown)

    def log(x):
        ctx.eq(x, grown, 'argument of the logarithm')
        return vu
    with replaced((np, 'log', log)):
        ctx.eq(e.s.entropy_posneg(a, u), trapz([root[i] - 2 * e.model[i] - a[i] * vu[i] for i in range(nw)], e.w), 'entropy')


def bayes(ctx, nw, ni, offdiag):
    """number of good data and posterior probability of alpha: eigenvalues of the curvature of chi^2 / 2 in the metric of the spectrum"""
    e = build(ctx, 'freq_bosonic', nw, ni, offdiag=offdiag)
    alpha, entropy, chi2, lam = ctx.pos('alpha'), -ctx.pos('entropy'), ctx.pos('chi2'), ctx.pos('lam', (nw,))
    met = ctx.pos('metric', (nw,))  # sqrt(A / dw), from which A follows
    dw = np.array(e.dw)
    if offdiag:
        x, y = ctx.pos('x', (nw,)), ctx.pos('y', (nw,))
        a, met = dw * (x ** 2 - y ** 2), np.sqrt(x ** 2 + y ** 2)  # any spectrum and any default model dw x y
        e.s.model = e.s.model_plus = e.s.model_minus = dw * x * y
    else:
        a = met ** 2 * dw
    curve = [[e.dw[i] * e.dw[j] * sum(e.weight[k] * e.k[k, i] * e.k[k, j] for k in range(ni)) for j in range(nw)] for i in range(nw)]
    curve = np.array([[met[i] * curve[i][j] * met[j] for j in range(nw)] for i in range(nw)])

    def eig(m):
        ctx.eq(m, curve, 'curvature')
        return lam
    with replaced((np.linalg, 'eigvalsh', eig)):
        ng, tr, conv = e.s.bayes_conv_offdiag(a, entropy, alpha) if offdiag else e.s.bayes_conv(a, entropy, alpha)
    want = sum(x / (alpha + x) for x in lam)
    ctx.eq(ng, -2 * alpha * entropy, 'good data')
    ctx.eq(tr, want, 'trace')
    ctx.eq(conv * ng, want, 'convergence')
    if offdiag:
        return
    logs = {}
    la, lr, pr = ctx.real('la'), ctx.real('lr', (nw,)), ctx.pos('pr')

    def log(x):
        if np.ndim(x):
            ctx.eq(x * (alpha + lam), alpha + 0 * lam, 'ratio of the determinants')
            return lr
        ctx.eq(x, alpha, 'prior of alpha')
        return la

    def exp(x):
        logs['p'] = x
        return pr
    with replaced((np, 'log', log), (np, 'exp', exp), (np.linalg, 'eigvalsh', eig)):
        got = e.s.posterior_probability(a, alpha, entropy, chi2)
    ctx.eq(got, pr, 'probability')
    ctx.eq(logs['p'], alpha * entropy - chi2 / 2 + la + sum(lr) / 2, 'logarithm of the probability')


def bare(n_sv=2):
    s = object.__new__(solvers.MaxentSolverSVD)
    s.n_sv, s.verbose, s.offdiag = n_sv, False, False
    return s


class Res:
    pass


def average(ctx, n, nw):
    """Bryan: probability weighted mean of the spectra of decreasing weights until the probability has decayed"""
    s = bare()
    p, spec = ctx.pos('p', (n,)), ctx.pos('spec', (n, nw))
    best = p[0]
    for i in range(1, n - 1):
        ctx.assume((p[i] > best) | (100 * p[i] >= best) if ctx.sym else bool(p[i] > best or 100 * p[i] >= best))
        if p[i] > best:
            best = p[i]
    ctx.assume(100 * p[n - 1] < best)
    log = []

    def one(alpha, ustart, use_bayes=False, **k):
        r = Res()
        i = len(log)
        ctx.true(i < n, 'stops when the probability is small')
        ctx.true(use_bayes is True, 'probabilities are asked for')
        r.alpha, r.u_opt, r.A_opt, r.probability = alpha, np.zeros(2), spec[i], p[i]
        log.append(r)
        return r
    s.maxent_optimization = one
    s.backtransform = lambda a: ('back', a)
    sol, arr = s.solve_bryan()
    ctx.true(len(log) == n and len(arr) == n, 'number of weights')
    al = [500 / 1.1 ** i for i in range(n)]
    ctx.true(all(abs(float(log[i].alpha) - al[i]) < 1e-9 * al[i] for i in range(n)), 'weights')
    al = [x.alpha for x in log]
    norm = trapz(list(p), al)
    for j in range(nw):
        ctx.eq(sol.A_opt[j] * norm, trapz([p[i] * spec[i, j] for i in range(n)], al), 'weighted mean', tol=1e-9)
    ctx.true(sol.backtransform[0] == 'back', 'back transform')
    ctx.eq(sol.backtransform[1], sol.A_opt, 'back transform of the mean')


def kind_of_spectrum(ctx, s, offdiag):
    """which of the two parametrisations (positive spectra, spectra of either sign) is selected for the optimisation"""
    for name, (off, on) in (('compute_f_J', ('compute_f_J_diag', 'compute_f_J_offdiag')), ('entropy', ('entropy_pos', 'entropy_posneg')),
                            ('singular_to_realspace', ('singular_to_realspace_diag', 'singular_to_realspace_offdiag'))):
        if hasattr(s, name):
            ctx.true(getattr(s, name) == getattr(s, on if offdiag else off), 'parametrisation of the spectrum')


def root(ctx, kind, n, offdiag=False):
    """historic and classic: decrease the weight until the criterion is exceeded, then solve criterion = 1"""
    s = bare()
    s.offdiag = offdiag
    s.niw = 7
    crit = [c for c in ctx.pos('crit', (n + 3,))]  # criterion of the successive optimisations
    if kind == 'classic':
        crit[:n] = [0.002 * 7 ** i for i in range(n - 1)] + [30.]
    for i in range(n - 1):
        ctx.assume(crit[i] < 1)
    ctx.assume(crit[n - 1] >= 1)
    log = []

    def one(alpha, ustart, use_bayes=False, iterfac=None):
        r = Res()
        i = len(log)
        kind_of_spectrum(ctx, s, offdiag)
        r.alpha, r.u_opt, r.A_opt, r.start = alpha, ctx.real(f'u{i}', (2,)), ctx.pos(f'A{i}', (2,)), ustart.copy()
        r.u = r.u_opt.copy()
        if kind == 'classic':
            ctx.true(use_bayes is True, 'Bayesian criterion is asked for')
            r.convergence = crit[i]
        else:
            r.chi2 = s.niw / crit[i]
        log.append(r)
        return r
    s.maxent_optimization = one
    mid, fin = ctx.pos('mid'), ctx.pos('fin')
    guess = []

    class Opt:
        @staticmethod
        def newton(f, x0, tol=None, args=()):
            guess.append(x0)
            ctx.eq(f(mid, *args), crit[n] - 1, 'criterion = 1')
            ctx.eq(f(fin, *args), crit[n + 1] - 1, 'criterion = 1')
            return fin
    run = s.solve_historic if kind == 'historic' else s.solve_classic
    with replaced((solvers, 'opt', Opt), (np, 'log10', lambda x: lg(ctx, x) if isinstance(x, (int, float)) else 0.0)):
        if n == 1:
            ctx.raises(RuntimeError, run, 'too large errors are refused')
            return
        sol, arr = run()
    ctx.true(len(log) == n + 3, 'number of optimisations')
    for i in range(n):
        ctx.true(abs(float(log[i].alpha) * 10 ** i - 10 ** 6) < 1e-3, 'weights')
        ctx.eq(log[i].start, np.zeros(2), 'start from the default model')
    x = math.log10(float(guess[0]))
    if kind == 'historic':
        ctx.true(abs(x - (7 - n)) < 1e-9, 'first guess')
    else:  # straight line through the logarithms of the last two criteria
        y0, y1 = math.log10(crit[n - 2]), math.log10(crit[n - 1])
        ctx.true(abs((x - (8 - n)) * (y1 - y0) - y0) < 1e-9, 'first guess')
    ctx.eq(log[n].start, log[n - 2].u, 'start of the root search')
    ctx.eq(log[n + 1].start, log[n].u, 'root search continues from the last spectrum')
    ctx.eq(log[n + 2].start, log[n + 1].u, 'final optimisation starts from the last spectrum')
    for k, a in ((n, mid), (n + 1, fin), (n + 2, fin)):
        ctx.eq(log[k].alpha, a, 'weight')
    ctx.true(sol is log[n + 2], 'result of the final optimisation')
    ctx.eq(s.alpha_opt, fin, 'final weight')
    ctx.eq(s.A_opt, log[n + 2].A_opt, 'final spectrum')


def optimise(ctx, mode, nw, ni, blur, optimizer, offdiag=False, bayesian=False):
    """result of one optimisation"""
    e = build(ctx, mode, nw, ni, blur=blur, offdiag=offdiag)
    e.s.optimizer = optimizer
    for turn in range(2):  # the second result does not depend on the first
        optimum(ctx, e, f'{turn}', nw, blur, offdiag, bayesian)


def optimum(ctx, e, turn, nw, blur, offdiag, bayesian):
    alpha, start = ctx.pos('alpha' + turn), ctx.real('start' + turn, (e.n,))
    found, grown = ctx.real('found' + turn, (e.n,)), ctx.pos('grown' + turn, (nw,))
    bl = ctx.real('bl' + turn, (nw,))
    seen = {}

    class Sol:
        x, nfev = found, 3

    class Newton:
        def __init__(self, opt_size, max_hist=1, max_iter=20000, initial_guess=None):
            seen['start'], seen['size'] = initial_guess, opt_size

        def __call__(self, function_and_jacobian, alpha):
            seen['f'], seen['alpha'] = function_and_jacobian, alpha
            return Sol

    class Root:
        @staticmethod
        def root(fun, x0, args=None, jac=None, method=None, **k):
            seen.update(f=fun, start=x0, alpha=args, jac=jac, size=len(x0))
            return Sol

    def blurit(self, h):
        seen['hidden'] = h
        return bl
    sent, numbers, prob = ctx.real('sent' + turn), ctx.pos('numbers' + turn, (3,)), ctx.pos('prob' + turn)

    def signed_entropy(A, u):
        seen['entropy'] = A, u
        return sent

    def counts(off):
        def f(A, entr, alpha):
            seen['bayes'] = off, A, entr, alpha
            return tuple(numbers)
        return f

    def posterior(A, alpha, entr, chisq):
        seen['posterior'] = A, alpha, entr, chisq
        return prob
    with replaced((solvers, 'NewtonOptimizer', Newton), (solvers, 'opt', Root), (kernels.Kernel, 'blur', blurit),
                  (np, 'exp', lambda x: grown), (np, 'log10', lambda x: 0.0), (e.s, 'entropy_posneg', signed_entropy),
                  (e.s, 'bayes_conv', counts(False)), (e.s, 'bayes_conv_offdiag', counts(True)), (e.s, 'posterior_probability', posterior)):
        r = e.s.maxent_optimization(alpha, start, use_bayes=True) if bayesian else e.s.maxent_optimization(alpha, start)
    ctx.eq(seen['start'], start, 'start')
    ctx.eq(seen['alpha'], alpha, 'weight of the entropy')
    ctx.true(seen['f'] == (e.s.compute_f_J_offdiag if offdiag else e.s.compute_f_J_diag) and seen['size'] == e.n, 'function whose root is sought')
    a = e.model * (grown - 1 / grown) if offdiag else e.model * grown
    ctx.eq(r.u_opt, found, 'parameters')
    ctx.eq(r.A_opt, bl if blur else a, 'spectrum')
    if blur:
        ctx.eq(seen['hidden'], a, 'hidden spectrum is blurred')
    ctx.eq(r.chi2, e.s.chi2(a), 'deviation')
    if offdiag:
        ctx.eq(seen['entropy'][0], a, 'spectrum in the entropy')
        ctx.eq(seen['entropy'][1], found, 'parameters in the entropy')
    ctx.eq(r.entropy, sent if offdiag else e.s.entropy_pos(a, found), 'entropy')
    if bayesian:
        for name, (A, al, en) in (('bayes', (1, 3, 2)),) + (() if offdiag else (('posterior', (0, 1, 2)),)):
            ctx.eq(seen[name][A], a, 'spectrum of the Bayesian quantities')
            ctx.eq(seen[name][al], alpha, 'alpha of the Bayesian quantities')
            ctx.eq(seen[name][en], r.entropy, 'entropy of the Bayesian quantities')
        ctx.true(seen['bayes'][0] is offdiag, 'kind of spectrum')
        ctx.eq(np.array([r.n_good, r.trace, r.convergence]), numbers, 'Bayesian quantities')
        if not offdiag:
            ctx.eq(seen['posterior'][3], r.chi2, 'deviation in the probability')
            ctx.eq(r.probability, prob, 'probability')
    else:
        ctx.true('bayes' not in seen and r.convergence is None and r.probability is None, 'no Bayesian quantities')
    ctx.eq(r.Q, alpha * r.entropy - r.chi2 / 2, 'functional')
    ctx.eq(r.norm, trapz(list(a), e.w), 'weight')
    ctx.eq(r.backtransform, e.s.backtransform(a), 'function on the imaginary axis')
    ctx.eq(r.alpha, alpha, 'alpha')


def newton(ctx, n, zero):
    """a Newton step solves the linearised equation up to a common damping that limits the relative change of large components"""
    nt = solvers.NewtonOptimizer(n, initial_guess=np.zeros(n))
    p, f, j = ctx.real('p', (n,)), ctx.real('f', (n,)), ctx.real('j', (n, n))
    if zero:
        f = ctx.zeros((n,))
    if n == 1:
        ctx.assume(j[0, 0] * j[0, 0] > 0)
        inc = [-f[0] / j[0, 0]]
        pin = lambda m: np.array([[1 / m[0, 0]]])
    else:
        det = j[0, 0] * j[1, 1] - j[0, 1] * j[1, 0]
        ctx.assume(det * det > 0)
        pin = lambda m: np.array([[m[1, 1], -m[0, 1]], [-m[1, 0], m[0, 0]]]) / (m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0])
        inc = [-(j[1, 1] * f[0] - j[0, 1] * f[1]) / det, -(j[0, 0] * f[1] - j[1, 0] * f[0]) / det]
    for x in p:
        ctx.assume(x * x > 0)
    with replaced((np.linalg, 'pinv', pin)):
        r = nt.iteration_function(p, f, j)
    if zero:
        ctx.eq(r, p, 'roots are fixed points')
        return
    step = [r[i] - p[i] for i in range(n)]
    if n == 2:
        ctx.eq(step[0] * inc[1], step[1] * inc[0], 'direction of the Newton step')
    if n == 1:
        ctx.true(step[0] * inc[0] >= 0, 'sense of the Newton step')
        ctx.true(step[0] * step[0] <= inc[0] * inc[0] * (1 if ctx.sym else 1 + 1e-9), 'damped')
        small = p[0] * p[0] <= Fr(1, 10 ** 8)
        if small:
            ctx.eq(step[0], inc[0], 'undamped step of small parameters')
        else:
            ctx.true(step[0] * step[0] <= p[0] * p[0], 'relative change')


def search(ctx, n, steps):
    """the root search evaluates function, Jacobian and step at one and the same point, mixes old and new points evenly and only ends at a
    point that the step does not move any more"""
    start = ctx.real('start', (n,))
    alpha = ctx.pos('alpha')
    nt = solvers.NewtonOptimizer(n, max_hist=1, max_iter=steps, initial_guess=start.copy())
    calls, answers = [], []

    def fun(u, a):
        i = len(calls)
        calls.append([u.copy(), a, ctx.real(f'f{i}', (n,)), ctx.real(f'j{i}', (n, n))])
        return calls[-1][2].copy(), calls[-1][3].copy()

    def step(proposal, f, j):
        i = len(answers)
        ctx.eq(proposal, calls[i][0], 'point of the step')
        ctx.eq(f, calls[i][2], 'function of the step')
        ctx.eq(j, calls[i][3], 'Jacobian of the step')
        answers.append(proposal + ctx.real(f'd{i}', (n,)))
        return answers[-1].copy()

    def small(i):
        return all([bool(abs(x) < 1e-4) for x in list(answers[i] - calls[i][0])])

    out = None
    try:
        with replaced((nt, 'iteration_function', step)), contextlib.redirect_stdout(io.StringIO()):
            out = nt(fun, alpha).x
    except RuntimeWarning:
        pass
    ctx.true(len(calls) == len(answers), 'one step per evaluation')
    ctx.eq(calls[0][0], start, 'start')
    for i, c in enumerate(calls):
        ctx.eq(c[1], alpha, 'alpha')
        if i:
            ctx.eq(c[0], (calls[i - 1][0] + answers[i - 1]) / 2, 'even mixture of the last point and its step')
            if i < len(calls) - 1:
                ctx.true(not small(i), 'goes on while points move')
    if out is None:
        ctx.true(not small(len(calls) - 1) or len(calls) > steps + 1, 'gives up only after the allowed number of steps')
    else:
        ctx.eq(out, answers[-1], 'result of the last step')
        ctx.true(small(len(calls) - 1), 'ends only where points rest')


def linear(ctx, sign):
    """the root of a linear function close to the start is found exactly"""
    r = ctx.pos('r')
    ctx.assume(r <= Fr(1, 1400))
    r, j = sign * r, ctx.pos('slope')
    nt = solvers.NewtonOptimizer(1, max_hist=1, initial_guess=ctx.zeros((1,)))
    pin = lambda m: 1 / m
    with replaced((np.linalg, 'pinv', pin)), contextlib.redirect_stdout(io.StringIO()):
        x = nt(lambda u, a: ((u - r) * j, ctx.arr([[j]])), 1.0).x
    ctx.eq(x[0], r, 'root')


def Fr(a, b):
    from fractions import Fraction
    return Fraction(a, b)


def kink(ctx, start, end, div, fail=(), fit='ok', fit_position=2.5):
    """annealing from large to small weights; the final weight lies fit_position widths below the centre of the kink"""
    s = object.__new__(solvers.MaxentSolverSVD)
    s.n_sv, s.verbose = 2, False
    log = []
    c, d = 3.0, 2.0

    class Res:
        pass

    def one(alpha=None, ustart=None, **k):
        i = len(log)
        r = Res()
        r.u_opt, r.chi2, r.alpha = ctx.real(f'u{i}', (2,)), 10.0 ** (i + 1), alpha
        log.append((alpha, ustart, r))
        if i in fail:
            raise RuntimeError('diverged')
        return r
    asked = {}

    class Opt:
        @staticmethod
        def curve_fit(f, x, y, p0=None):
            asked['x'], asked['y'] = list(x), list(y)
            asked['f'] = f
            if fit == 'fails':
                raise ValueError
            return [0.0, 5.0, c, -d if fit == 'negative' else d], None
    s.maxent_optimization = lambda *a, **k: one(*a, **k) if not a else one(a[0], a[1])
    with replaced((solvers, 'opt', Opt), (np, 'log10', lambda x: lg(ctx, x))), contextlib.redirect_stdout(io.StringIO()):
        run = lambda: s.solve(alpha_determination='chi2kink', alpha_start=start, alpha_end=end, alpha_div=div, fit_position=fit_position, stdev=None)
        if fit == 'negative':
            ctx.raises(RuntimeError, run, 'a kink in the wrong direction is refused')
            return
        sol, arr = run()
    want = []
    al = start
    while True:
        want.append(al)
        al = al / div
        if al < end:
            break
    ctx.true([x[0] for x in log[:len(want)]] == want, 'weights of the annealing')
    good = [i for i in range(len(want)) if i not in fail]
    last = np.zeros(2)
    for i in range(len(want)):
        ctx.eq(log[i][1], last, 'start from the previous solution')
        if i in good:
            last = log[i][2].u_opt
    ctx.true(len(asked['x']) == len(good), 'fitted points')
    for i, g in enumerate(good):
        ctx.true(abs(float(asked['x'][i]) - math.log10(want[g])) < 1e-9 and abs(float(asked['y'][i]) - (g + 1)) < 1e-9, 'fitted points')
    ctx.true(len(arr) == len(good), 'solutions of all weights')
    if fit == 'fails':
        ctx.true(sol is arr[-1], 'last solution without fit')
        return
    opt = c - fit_position / d
    ctx.true(len(log) == len(want) + 1 and abs(math.log10(float(log[-1][0])) - opt) < 1e-9, 'final weight')
    near = min(good, key=lambda i: abs(math.log10(want[i]) - opt))
    if not fail:
        ctx.eq(log[-1][1], log[near][2].u_opt, 'final start from the closest weight')
    ctx.true(sol is log[-1][2], 'result of the final optimisation')


def lg(ctx, x):
    if np.ndim(x):
        return np.array([math.log10(float(a)) for a in x])
    return math.log10(float(x))


def method(ctx):
    s = object.__new__(solvers.MaxentSolverSVD)
    called = []
    for n in ('historic', 'classic', 'bryan'):
        setattr(s, 'solve_' + n, lambda n=n: called.append(n))
    for n in ('historic', 'classic', 'bryan'):
        s.solve(alpha_determination=n)
    ctx.true(called == ['historic', 'classic', 'bryan'], 'choice of the method')
    ctx.raises(ValueError, lambda: s.solve(alpha_determination='other'), 'unknown methods are refused')
    ctx.raises(KeyError, lambda: s.solve(), 'the method has to be given')


def blurring(ctx, mode, nw, ni):
    """the blurred kernel is the Gaussian average of the kernel, symmetrised for bosons"""
    bos = mode == 'freq_bosonic'
    w = grid(ctx, nw, 0 if bos else None)
    im = axis(ctx, ni, bos)
    k = kernels.Kernel(kind=mode, re_axis=w, im_axis=im)
    b = ctx.pos('b')
    pts = 5
    seen = []
    gs = ctx.pos('gauss', (pts,))
    arg = []

    class Int:
        @staticmethod
        def simps(y, x=None, axis=-1):
            seen.append((y, x))
            return y[..., 0]
    lin = np.linspace

    def linspace(lo, hi, num=50, endpoint=True):
        return lin(lo, hi, num=pts, endpoint=endpoint)
    with replaced((kernels, 'integ', Int), (np, 'linspace', linspace), (np, 'exp', lambda x: arg.append(x) or gs)):
        k.preblur(b)
    x = [-5 * b + 10 * b * i / (pts - 1) for i in range(pts)]
    ctx.eq(seen[0][1], np.array(x), 'range of the Gaussian')
    ctx.eq(arg[0], np.array([-(t / b) ** 2 / 2 for t in x]), 'exponent of the Gaussian')
    root = np.sqrt(2 * np.pi)
    y = seen[0][0]
    for i in range(ni):
        for j in range(nw):
            for t in range(pts):
                if bos:
                    kern = 1 if i == 0 else sum((x[t] + s * w[j]) ** 2 / ((x[t] + s * w[j]) ** 2 + im[i] ** 2) for s in (1, -1)) / 2
                else:
                    kern = 1 / (1j * im[i] - w[j] - x[t])
                ctx.eq(y[i, j, t] * b * root, gs[t] * kern, 'Gaussian average')
    ctx.eq(k.matrix, y[..., 0], 'kernel')
    k.preblur(0.0)
    ctx.eq(k.matrix, k.original_matrix, 'no blurring without width')


def cases(tier):
    big = tier == 'thorough'
    out = []
    for mode in ('freq_fermionic', 'freq_bosonic'):
        for nw, ni in ((3, 1), (2, 2), (3, 2)) + (((4, 2), (3, 3)) if big else ()):
            out.append((functional, dict(mode=mode, nw=nw, ni=ni + (mode == 'freq_bosonic'))))
            out.append((stationary, dict(mode=mode, nw=nw, ni=ni + (mode == 'freq_bosonic'))))
        out.append((functional, dict(mode=mode, nw=2, ni=2, blur=0.5)))
        out.append((functional, dict(mode=mode, nw=2, ni=2, cov=True)))
        out.append((functional, dict(mode=mode, nw=3, ni=2, cov=True, blur=0.5)))
        out.append((stationary, dict(mode=mode, nw=3, ni=2, cov=True)))
        out.append((stationary, dict(mode=mode, nw=3, ni=2, offdiag=True)))
        out.append((signed, dict(mode=mode, nw=3, ni=2)))
        out.append((optimise, dict(mode=mode, nw=3, ni=2, blur=0, optimizer='newton', offdiag=True)))
        out.append((optimise, dict(mode=mode, nw=3, ni=2, blur=0.5, optimizer='newton', offdiag=True, bayesian=True)))
        out.append((optimise, dict(mode=mode, nw=3, ni=2, blur=0, optimizer='scipy_lm', bayesian=True)))
        for blur in (0, 0.5):
            for o in ('newton', 'scipy_lm'):
                out.append((optimise, dict(mode=mode, nw=3, ni=2, blur=blur, optimizer=o)))
        out.append((blurring, dict(mode=mode, nw=2, ni=2)))
    for n in (1, 2):
        for zero in (False, True):
            out.append((newton, dict(n=n, zero=zero)))
    for n, m in ((1, 0), (1, 1), (1, 2), (2, 0), (2, 1)):
        out.append((search, dict(n=n, steps=m)))
    for sign in (1, -1):
        out.append((linear, dict(sign=sign)))
    for start, end, div in ((1e4, 1e-1, 10.), (1e3, 1e-2, 5.), (1e2, 1e2, 10.), (1e5, 1e1, 100.)):
        for fit in ('ok', 'fails', 'negative'):
            out.append((kink, dict(start=start, end=end, div=div, fit=fit)))
        out.append((kink, dict(start=start, end=end, div=div, fit_position=2.)))
    out.append((kink, dict(start=1e4, end=1e-1, div=10., fail=(2, 5))))
    out.append((method, dict()))
    for off in (False, True):
        for nw, ni in ((2, 2), (3, 2)):
            out.append((bayes, dict(nw=nw, ni=ni, offdiag=off)))
    for n in (2, 3) + ((4,) if big else ()):
        out.append((average, dict(n=n, nw=2)))
    for kind in ('historic', 'classic'):
        for n in (1, 2, 3, 4):
            out.append((root, dict(kind=kind, n=n)))
        out.append((root, dict(kind=kind, n=2, offdiag=True)))
    return out
