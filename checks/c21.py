"""C21 linearised Eliashberg equation: kernel, eigenvalue, orthogonalisation"""
import numpy as np
from dga import eliashberg_equation as eq
from common import inv_sym, total, replaced, random_numbers

EXPLANATION = ('symbolic pairing vertices, propagators and start vectors; the iteration is stopped after one or two steps by its own '
               'max_count and compared with the momentum convolution written out; every branch of the loop is explored')
OUTSIDE = 'convergence of the power iteration; more than two steps; meshes and windows larger than listed'


def kernel(nk, gamma, w, norm, gap):
    """1/norm sum_{k',v'} gamma(k-k'; v, v') |G(k',v')|^2 gap(k',v')"""
    out = gap.copy()
    n = gap.shape[-1]
    for k in np.ndindex(*nk):
        for v in range(n):
            t = 0
            for p in np.ndindex(*nk):
                d = tuple((a - b) % m for a, b, m in zip(k, p, nk))
                for vp in range(n):
                    t = t + gamma[d + (v, vp)] * w[p + (vp,)] * gap[p + (vp,)]
            out[k + (v,)] = t / norm
    return out


def inner(a, b):
    return total(np.conj(a) * b)


def orth(v, basis):
    out = v
    for u in basis:
        out = out - inner(u, v) / inner(u, u) * u
    return out


def run(ctx, nk, gamma, w, norm, gap, shift, basis, maxcount, eps):
    """reference of one power iteration"""
    old_lam = 1
    c = 0
    while True:
        c += 1
        gap = orth(gap, basis)
        new = kernel(nk, gamma, w, norm, gap)
        if shift is not None:
            new = new - shift * gap
        lam = inner(gap, new) / inner(gap, gap)
        gap = new / lam
        if c > maxcount or bool(abs(lam - old_lam) < eps):
            return lam, gap
        old_lam = lam


def setup(ctx, nk, niv, real):
    nk = tuple(nk)
    gamma = inv_sym((ctx.real if real else ctx.cplx)('gam', nk + (2 * niv, 2 * niv)))
    gk = (ctx.real if real else ctx.cplx)('g', nk + (2 * niv,))
    gap = (ctx.real if real else ctx.cplx)('gap', nk + (2 * niv,))
    norm = ctx.pos('norm')
    return nk, gamma, gk, gk * np.conj(gk), gap, norm


def one(ctx, nk, niv, real, count):
    nk, gamma, gk, w, gap, norm = setup(ctx, nk, niv, real)
    keep = [x.copy() for x in (gamma, gk, gap)]
    p = eq.EliashberPowerIteration(gamma=gamma, gk=gk, gap0=gap, norm=norm, eps=1e-6, max_count=count, shift_mat=False, n_eig=1)
    lam, g = run(ctx, nk, gamma, w, norm, gap, None, [], count, 1e-6)
    ctx.true(len(p.lam) == 1 and len(p.gap) == 1, 'one eigenvalue')
    ctx.eq(p.lam[0], lam, 'eigenvalue estimate <gap|K gap>/<gap|gap>')
    ctx.eq(p.gap[0], g, 'gap is K gap / lambda')
    for a, b in zip((gamma, gk, gap), keep):
        ctx.eq(a, b, 'inputs unchanged')


def iterate(ctx, count, mode):
    """several steps with few unknowns: the stopping rule |lambda - lambda_old| < eps or max_count, starting from lambda_old = 1"""
    a, b, t, norm = ctx.real('a'), ctx.real('b'), ctx.real('t'), ctx.pos('norm')
    gamma = ctx.real('zero', (1, 1, 1, 2, 2)) * 0
    if mode == 'diag':
        gamma[0, 0, 0, 0, 0], gamma[0, 0, 0, 1, 1] = a, b
    else:
        gamma[0, 0, 0, 0, 1], gamma[0, 0, 0, 1, 0] = a, a
    gk = ctx.real('one', (1, 1, 1, 2)) * 0 + 1
    gap = gk.copy()
    gap[0, 0, 0, 1] = t
    p = eq.EliashberPowerIteration(gamma=gamma, gk=gk, gap0=gap.copy(), norm=norm, eps=1e-2, max_count=count, shift_mat=False, n_eig=1)
    lam, g = run(ctx, (1, 1, 1), gamma, gk, norm, gap, None, [], count, 1e-2)
    ctx.eq(p.lam[0], lam, 'eigenvalue estimate after the iteration stopped')
    ctx.eq(p.gap[0], g, 'gap after the iteration stopped')


def second(ctx, nk, niv, real):
    """the second eigenvector is searched in the complement of the first, from the same start"""
    nk, gamma, gk, w, gap, norm = setup(ctx, nk, niv, real)
    p = eq.EliashberPowerIteration(gamma=gamma, gk=gk, gap0=gap, norm=norm, eps=1e-6, max_count=0, shift_mat=False, n_eig=2)
    l1, g1 = run(ctx, nk, gamma, w, norm, gap, None, [], 0, 1e-6)
    ctx.eq(p.lam[0], l1, 'first eigenvalue')
    ctx.eq(p.gap[0], g1, 'first gap')
    l2, g2 = run(ctx, nk, gamma, w, norm, gap, None, [g1], 0, 1e-6)
    ctx.eq(p.lam[1], l2, 'second eigenvalue')
    ctx.eq(p.gap[1], g2, 'second gap')


def shifted(ctx, nk, niv):
    """a negative leading eigenvalue is shifted away and added back"""
    nk, gamma, gk, w, gap, norm = setup(ctx, nk, niv, True)
    rnd = ctx.real('rnd', nk + (2 * niv,))
    with random_numbers(rnd):
        p = eq.EliashberPowerIteration(gamma=gamma, gk=gk, gap0=gap, norm=norm, eps=1e-6, max_count=0, shift_mat=True, n_eig=1)
    ls, gs = run(ctx, nk, gamma, w, norm, rnd, None, [], 0, 1e-6)
    if bool(ls > 0):
        ls = 0
    lam, g = run(ctx, nk, gamma, w, norm, gap, ls, [], 0, 1e-6)
    ctx.eq(p.lam_s, ls, 'shift')
    ctx.eq(p.lam[0], lam + ls, 'eigenvalue with the shift added back')
    ctx.eq(p.gap[0], g, 'gap')


def schmidt(ctx, shape, nb, which):
    v = ctx.cplx('v', shape)
    basis = []
    for i in range(nb):
        basis.append(orth(ctx.cplx(f'u{i}', shape), basis))
    keep = v.copy()
    f = {'plain': lambda b: eq.gram_schmidt(v, b), 'eliash': lambda b: eq.gram_schmidt_eliash(v, b, gk=None)}[which]
    r = f(basis)
    for u in basis:
        ctx.eq(inner(u, r), 0, 'orthogonal to the basis')
    d = v - r
    for u in basis:
        d = d - inner(u, v) / inner(u, u) * u
    ctx.eq(d, 0 * v, 'only the basis is removed')
    ctx.eq(v, keep, 'input unchanged')
    ctx.eq(f([]), v, 'empty basis')


def project(ctx, shape):
    v, u = ctx.cplx('v', shape), ctx.cplx('u', shape)
    for p in (eq.proj(v, u), eq.proj_eliash(v, u, None)):
        ctx.eq(p * inner(u, u), inner(u, v) * u, 'projection')
    ctx.eq(eq.proj(eq.proj(v, u), u), eq.proj(v, u), 'idempotent')
    l = ctx.real('l')
    ctx.eq(eq.remove_prev_eigenvals(v, [u], [l]), v - l * u * inner(u, v), 'deflation')


def cases(tier):
    th = tier != 'quick'
    out = []
    for nk, niv in (((1, 1, 1), 1), ((2, 1, 1), 1), ((1, 3, 1), 1), ((1, 1, 1), 2), ((2, 2, 1), 1)) + ((((1, 2, 2), 1), ((4, 1, 1), 1), ((2, 1, 1), 2)) if th else ()):
        for real in (False, True):
            out.append((one, dict(nk=nk, niv=niv, real=real, count=0), dict(lazy=100000)))
    out.append((iterate, dict(count=1, mode='diag')))
    out.append((iterate, dict(count=1, mode='off')))
    if th:
        out.append((iterate, dict(count=2, mode='off')))
    out.append((second, dict(nk=(1, 1, 1), niv=1, real=True), dict(time_limit=600)))
    out.append((shifted, dict(nk=(1, 1, 1), niv=1)))
    for sh, nb in (((2,), 1), ((3,), 2), ((2, 1, 1, 2), 1), ((2, 1, 1, 2), 2)):
        for which in ('plain', 'eliash'):
            if nb == 2 and sh != (3,) and not th:
                continue
            out.append((schmidt, dict(shape=sh, nb=nb, which=which)))
    for sh in ((2,), (2, 1, 1, 2)):
        out.append((project, dict(shape=sh)))
    return out
