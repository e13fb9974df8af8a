"""C17 lattice Green's function"""
import numpy as np
from dga import two_point as twop, matsubara_frequencies as mf
from common import total

EXPLANATION = ('symbolic self-energies, dispersion, chemical potential and temperature; reference: Dyson equation at every momentum and '
               'every Matsubara frequency with the data inside the core and the tail outside')
OUTSIDE = 'more momenta and frequencies than listed'


def iv(ctx, beta, n):
    return 1j * (2 * n + 1) * ctx.pi / beta


def sig(ctx, d, i, core, beta, s0, s1, k):
    j = i if i >= 0 else -i - 1
    z = d[k + (j,)] if j < core else s0 - s1 / iv(ctx, beta, j)
    return z if i >= 0 else np.conj(z)


def setup(ctx, nk, niv, core, local_sigma=False):
    beta, mu, s0, s1 = ctx.pos('beta'), ctx.real('mu'), ctx.real('s0'), ctx.real('s1')
    ek = ctx.real('ek', nk)
    d = ctx.cplx('s', (1, 1, 1, niv) if local_sigma else tuple(nk) + (niv,))
    s = twop.SelfEnergy(d, beta, pos=True, smom0=s0, smom1=s1, niv_core=core)
    if local_sigma:
        d = ctx.zeros(tuple(nk) + (niv,)) + d
    ctx.assume(beta * (s0 + total(ek) / int(np.prod(nk)) - mu) < 20)
    return beta, mu, s0, s1, ek, d, s


def dyson(ctx, nk, niv, core, asy, local_sigma):
    nk = tuple(nk)
    beta, mu, s0, s1, ek, d, s = setup(ctx, nk, niv, core, local_sigma)
    if local_sigma and asy:
        # a local self-energy is combined with a lattice dispersion by broadcasting; windows stay the same
        pass
    g = twop.GreensFunction(s, ek, mu=mu, niv_asympt=asy)
    n = core + asy
    ctx.eq(g.mu, mu, 'chemical potential')
    ctx.eq(g.beta, beta, 'beta')
    ctx.eq(g.niv_core, core, 'core')
    ctx.eq(g.niv_full, n, 'full range')
    full = g.g_full()
    ctx.eq(np.shape(full), nk + (2 * n,), 'shape')
    ref = ctx.zeros(nk + (2 * n,))
    for i in range(-n, n):
        for k in np.ndindex(*nk):
            z = sig(ctx, d, i, core, beta, s0, s1, k)
            ref[k + (n + i,)] = z
            ctx.eq(full[k + (n + i,)] * (iv(ctx, beta, i) + mu - ek[k] - z), 1, 'Dyson equation')
    ctx.eq(g.core, full[..., asy:asy + 2 * core], 'core part')
    ctx.eq(g.full, full, 'stored full range')
    if not local_sigma:
        ctx.eq(g.get_sigma_full(asy), ref, 'self-energy on the full range')
    N = int(np.prod(nk))
    km = lambda a: sum(a[k] for k in np.ndindex(*nk)) / N
    ctx.eq(g.g_loc, km(full), 'local propagator')
    ctx.eq(g.k_mean('core'), km(full)[asy:asy + 2 * core], 'k mean core')
    ctx.eq(g.k_mean('full'), km(full), 'k mean full')
    ctx.raises(ValueError, lambda: g.k_mean('other'), 'unknown range')
    for i in range(n):
        ctx.eq(full[..., n - 1 - i], np.conj(full[..., n + i]), 'G(-v) = G(v)^*')
    for i in range(-n, n):
        ctx.eq(1j * g.v[n + i], iv(ctx, beta, i), 'frequencies')
    ctx.true(list(g.vn) == list(range(-n, n)), 'frequency indices')
    for i in range(-core, core):
        ctx.eq(1j * g.v_core[core + i], iv(ctx, beta, i), 'core frequencies')
    f = g.fs()
    z = full[..., n]
    ctx.eq(f, -(z - np.conj(z)) / 2j / ctx.pi, 'spectral weight at the first frequency')
    p = g.g_full(pi_shift=True)
    fp = g.fs(pi_shift=True)
    for x in range(nk[0]):
        for y in range(nk[1]):
            t = ((x + nk[0] // 2) % nk[0], (y + nk[1] // 2) % nk[1])
            ctx.eq(p[t], full[x, y], 'shifted zone')
            ctx.eq(fp[t], f[x, y], 'shifted zone')
    # re-setting the tail only changes the tail
    g.set_g_asympt(asy + 1)
    ctx.eq(g.g_full()[..., 1:-1], full, 'longer tail keeps the rest')
    ctx.eq(g.g_loc[1:-1], km(full), 'local part follows')
    ctx.eq(g.niv_full, n + 1, 'range follows')


def sequence(ctx, nk, niv, core):
    """two propagators share one self-energy; tails are set again and again"""
    nk = tuple(nk)
    beta, mu, s0, s1, ek, d, s = setup(ctx, nk, niv, core)
    mu2, ek2, d2 = ctx.real('mu2'), ctx.real('ek2', nk), ctx.cplx('d2', nk + (niv,))
    ctx.assume(beta * (s0 + total(ek2) / int(np.prod(nk)) - mu2) < 20)
    ctx.assume(beta * (s0 + total(ek) / int(np.prod(nk)) - mu2) < 20)
    other = twop.SelfEnergy(d2.copy(), beta, pos=True, smom0=s0, smom1=s1, niv_core=core)
    keep = [ek.copy(), ek2.copy(), d.copy(), d2.copy()]
    before = s.get_siw(niv)
    gs = [(twop.GreensFunction(x, e, mu=m, niv_asympt=1), m, e, y) for x, m, e, y in ((s, mu, ek, d), (s, mu2, ek2, d), (other, mu2, ek, d2))]
    kept = []
    for asy in (2, 0, 3, 1):
        for g, m, e, y in gs:
            n = core + asy
            g.set_g_asympt(asy)
            kept.append((asy, m, e, y, g.g_full(), g.full, g.core, g.g_loc, g.k_mean('full'), g.k_mean('core'), g.get_sigma_full(asy + 1), g.fs()))
            ctx.true(int(g.niv_full) == n and list(g.vn) == list(range(-n, n)), 'range')
            ctx.eq(g.mu, m, 'chemical potential')
    N = int(np.prod(nk))
    km = lambda a: sum(a[k] for k in np.ndindex(*nk)) / N
    for asy, m, e, y, full, stored, co, loc, kf, kc, sf, fs in kept:
        n = core + asy
        ctx.eq(np.shape(full), nk + (2 * n,), 'shape')
        for i in range(-n, n):
            for k in np.ndindex(*nk):
                ctx.eq(full[k + (n + i,)] * (iv(ctx, beta, i) + m - e[k] - sig(ctx, y, i, core, beta, s0, s1, k)), 1, 'Dyson equation')
        for i in range(-n - 1, n + 1):
            for k in np.ndindex(*nk):
                ctx.eq(sf[k + (n + 1 + i,)], sig(ctx, y, i, core, beta, s0, s1, k), 'self-energy of this propagator')
        ctx.eq(stored, full, 'stored'), ctx.eq(co, full[..., asy:asy + 2 * core], 'core')
        ctx.eq(loc, km(full), 'local'), ctx.eq(kf, km(full), 'mean'), ctx.eq(kc, km(co), 'core mean')
        ctx.eq(fs, -(full[..., n] - np.conj(full[..., n])) / 2j / ctx.pi, 'spectral weight at the first frequency')
    for a, b in zip((ek, ek2, d, d2), keep):
        ctx.eq(a, b, 'input unchanged')
    ctx.eq(s.get_siw(niv), before, 'self-energy unchanged')


def need(ctx, at):
    beta = ctx.pos('beta')
    s = twop.SelfEnergy(ctx.cplx('s', (4,)), beta, pos=True, smom0=0, smom1=0, niv_core=2)
    ctx.raises(ValueError, lambda: twop.GreensFunction(s, ctx.real('ek', (1, 1, 1))), 'neither mu nor n')


def parts(ctx, nk):
    nk = tuple(nk)
    v = 1j * ctx.real('v', (3,))
    ek, mu = ctx.real('ek', nk), ctx.real('mu')
    s = ctx.cplx('s', nk + (3,))
    g = twop.build_g(v, ek, mu, s)
    for k in np.ndindex(*nk):
        for i in range(3):
            ctx.eq(g[k + (i,)] * (v[i] + mu - ek[k] - s[k + (i,)]), 1, 'inverse of iv + mu - ek - sigma')
    loc = twop.get_gloc(iv=v, hk=ek, siwk=s, mu_trial=mu)
    ctx.eq(loc, sum(g[k] for k in np.ndindex(*nk)) / int(np.prod(nk)), 'local propagator')
    h = ctx.cplx('h')
    m0 = ctx.real('m0')
    gm = twop.get_g_model(mu=mu, iv=v, hloc=h, smom0=m0)
    for i in range(3):
        ctx.eq(gm[i] * (v[i] + mu - (h + np.conj(h)) / 2 - m0), 1, 'model propagator')


def cases(tier):
    th = tier != 'quick'
    out = []
    for nk in ((1, 1, 1), (2, 1, 1), (2, 3, 1), (1, 2, 2)) + (((3, 3, 1), (2, 2, 2)) if th else ()):
        for niv, core, asy in ((4, 2, 0), (4, 1, 2), (4, 2, 1), (5, 3, 1)) + (((6, 3, 3),) if th else ()):
            out.append((dyson, dict(nk=nk, niv=niv, core=core, asy=asy, local_sigma=False)))
        out.append((dyson, dict(nk=nk, niv=4, core=2, asy=0, local_sigma=True)))
        out.append((parts, dict(nk=nk)))
    for nk, niv, core in (((2, 1, 1), 2, 1), ((1, 2, 1), 3, 2)):
        out.append((sequence, dict(nk=nk, niv=niv, core=core)))
    out.append((need, dict(at=0)))
    return out
