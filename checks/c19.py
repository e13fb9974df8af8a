"""C19 lambda correction"""
import numpy as np
from dga import lambda_correction as lc
from common import total

EXPLANATION = ('symbolic (real and complex) ladder susceptibilities; reference: chi/(1 + lambda chi) and the sum rules; the Newton '
               'iteration is followed symbolically for up to 3 steps, every branch of it explored')
OUTSIDE = 'more than three Newton steps; convergence of the iteration'


def use(ctx, shape):
    chi, lam = ctx.cplx('chi', shape), ctx.real('lam')
    r = lc.use_lambda(chi, lam)
    for ix in np.ndindex(*shape):
        ctx.eq(r[ix] * (1 + lam * chi[ix]), chi[ix], 'chi/(1 + lambda chi)')
    ctx.eq(lc.use_lambda(chi, 0 * lam), chi, 'lambda = 0 changes nothing')
    a = ctx.real('a')
    ctx.eq(lc.use_lambda(lc.use_lambda(chi, lam), a), lc.use_lambda(chi, lam + a), 'additive in lambda')


def start(ctx, nq, nw):
    """at lambda > start all static susceptibilities are positive; at the start value the largest one diverges"""
    chi = ctx.real('chi', (nq, nw))
    w0 = nw // 2
    s = lc.get_lambda_start(chi)
    prod = 1
    for q in range(nq):
        ctx.assume(chi[q, w0] != 0)
        ctx.true(1 / chi[q, w0] + s >= 0, 'no pole to the right of the start value')
        prod = prod * (1 / chi[q, w0] + s)
    ctx.eq(prod, 0 * s, 'pole at the start value')


def step(ctx, nq, nw, maxiter):
    """the iteration returns Newton steps of sum rule(lambda), restarted closer to the start value when it moves left"""
    beta, l0, dl, tgt = ctx.pos('beta'), ctx.real('l0'), ctx.pos('dl'), ctx.real('tgt')
    chi = ctx.real('chi', (nq, nw))
    for ix in np.ndindex(nq, nw):
        ctx.assume(chi[ix] != 0)
    eps = 1e-7
    old = l0 + dl
    lam = old
    d = dl

    def f(x):
        return sum(1 / (1 / chi[ix] + x) for ix in np.ndindex(nq, nw)) / nq / beta - tgt

    def df(x):
        return -sum(1 / (1 / chi[ix] + x) ** 2 for ix in np.ndindex(nq, nw)) / nq / beta
    for ix in np.ndindex(nq, nw):
        ctx.assume(1 + old * chi[ix] != 0)
    got = lc.lambda_correction_single(beta, lambda_start=l0, chir=chi, chi_loc_sum=tgt, maxiter=maxiter, eps=eps, delta=dl)
    for _ in range(maxiter):
        fl = f(lam)
        lam = old - fl / df(old if maxiter == 1 else lam)
        if bool(abs(fl) < eps):
            break
        if bool(lam < old):
            d = d / 2
            old = l0 + d
            lam = old
        else:
            old = lam
    ctx.eq(got, lam, 'Newton step')


def exact(ctx, nq, nw, maxiter):
    """started at the exact solution the iteration stays there and the corrected susceptibility fulfils the sum rule"""
    beta, l0 = ctx.pos('beta'), ctx.real('l0')
    chi = ctx.real('chi', (nq, nw))
    dl = 0.1
    lam = l0 + dl
    for ix in np.ndindex(nq, nw):
        ctx.assume(chi[ix] != 0)
        ctx.assume(1 + lam * chi[ix] != 0)
    tgt = sum(1 / (1 / chi[ix] + lam) for ix in np.ndindex(nq, nw)) / nq / beta
    got = lc.lambda_correction_single(beta, lambda_start=l0, chir=chi, chi_loc_sum=tgt, maxiter=maxiter)
    ctx.eq(got, lam, 'fixed point')
    r = lc.use_lambda(chi, got)
    ctx.eq(total(r) / nq / beta, tgt, 'sum rule')


class Single:
    """stands for the iteration: records the sum rule it is asked to fulfil"""

    def __init__(self, ctx):
        self.ctx, self.calls, self.out = ctx, [], []

    def __call__(self, beta, lambda_start=0, chir=None, chi_loc_sum=None, **kw):
        self.calls.append((beta, lambda_start, chir, chi_loc_sum))
        self.out.append(self.ctx.real(f'lam{len(self.calls)}'))
        return self.out[-1]


def modes(ctx, mode, nq, nw):
    beta = ctx.pos('beta')
    cd, cm = ctx.real('cd', (nq, nw)), ctx.real('cm', (nq, nw))
    ld, lm = ctx.real('ld', (nw,)), ctx.real('lm', (nw,))
    keep = cd.copy(), cm.copy()
    for q in range(nq):
        ctx.assume(cd[q, nw // 2] > 0)
        ctx.assume(cm[q, nw // 2] > 0)
    if mode == 'unknown':
        ctx.raises(NotImplementedError, lambda: lc.lambda_correction(cd, cm, beta, ld, lm, lambda_corr='other'), 'unknown type')
        return
    s = Single(ctx)
    old = lc.lambda_correction_single
    lc.lambda_correction_single = s
    try:
        rd, rm, lamd, lamm = lc.lambda_correction(cd, cm, beta, ld, lm, lambda_corr=mode)
    finally:
        lc.lambda_correction_single = old
    st = lambda c: -min_(1 / c[q, nw // 2] for q in range(nq))
    if mode == 'none':
        ctx.true(len(s.calls) == 0, 'no iteration')
        ctx.eq(rd, cd, 'density unchanged')
        ctx.eq(rm, cm, 'magnetic unchanged')
        ctx.eq(lamd, 0, 'zero')
        ctx.eq(lamm, 0, 'zero')
    elif mode == 'spch':
        ctx.true(len(s.calls) == 2, 'two iterations')
        for (b, l0, c, t), cc, loc in zip(s.calls, (cd, cm), (ld, lm)):
            ctx.eq(b, beta, 'beta')
            ctx.eq(c, cc, 'own channel')
            ctx.eq(l0, st(cc), 'start value of the channel')
            ctx.eq(t, total(loc) / beta, 'local sum rule of the channel')
        ctx.eq(rd, lc.use_lambda(cd, lamd), 'density corrected')
        ctx.eq(rm, lc.use_lambda(cm, lamm), 'magnetic corrected')
        ctx.eq(lamd, s.out[0], 'density lambda')
        ctx.eq(lamm, s.out[1], 'magnetic lambda')
    else:
        ctx.true(len(s.calls) == 1, 'one iteration')
        b, l0, c, t = s.calls[0]
        ctx.eq(b, beta, 'beta')
        ctx.eq(c, cm, 'magnetic channel')
        ctx.eq(l0, st(cm), 'start value')
        ctx.eq(t, (total(ld) + total(lm)) / beta - total(cd) / nq / beta, 'sum rule of both channels together')
        ctx.eq(rd, cd, 'density unchanged')
        ctx.eq(rm, lc.use_lambda(cm, lamm), 'magnetic corrected')
        ctx.eq(lamd, 0, 'no density lambda')
        ctx.eq(lamm, s.out[0], 'magnetic lambda')
    ctx.eq(cd, keep[0], 'input unchanged')
    ctx.eq(cm, keep[1], 'input unchanged')


def min_(xs):
    xs = list(xs)
    m = xs[0]
    for x in xs[1:]:
        if bool(x < m):
            m = x
    return m


def cases(tier):
    th = tier != 'quick'
    out = []
    for sh in ((1, 1), (2, 3), (2, 2, 1, 3)):
        out.append((use, dict(shape=sh)))
    for nq, nw in ((1, 1), (2, 1), (2, 3), (3, 3), (2, 5), (2, 7)):
        out.append((start, dict(nq=nq, nw=nw)))
    for nq, nw in ((1, 1), (2, 1), (1, 3)):
        for m in (1, 2) + ((3,) if th and nq * nw == 1 else ()):
            if nq * nw > 1 and m > 1:
                continue
            out.append((step, dict(nq=nq, nw=nw, maxiter=m)))
    for nq, nw in ((1, 1), (2, 1), (2, 3)):
        for m in (1, 2, 1000):
            out.append((exact, dict(nq=nq, nw=nw, maxiter=m)))
    for mode in ('spch', 'sp', 'none', 'unknown'):
        for nq, nw in ((1, 1), (2, 3), (3, 3), (2, 5)):
            out.append((modes, dict(mode=mode, nq=nq, nw=nw)))
    return out
