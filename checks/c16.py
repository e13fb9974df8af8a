"""C16 self-energy: moments, asymptotic continuation, window handling"""
import numpy as np
from dga import two_point as twop, matsubara_frequencies as mf
from common import total

EXPLANATION = ('symbolic self-energies, temperature and moments; every frequency of the continued self-energy is compared with the data '
               '(inside the core) or with smom0 - smom1/iv at that frequency (outside)')
OUTSIDE = 'more frequencies than listed; the estimate of the core window is decided for real deviations from the tail at <= 3 frequencies'


def iv(ctx, beta, n):
    """i (2n+1) pi / beta for the integer index n"""
    return 1j * (2 * n + 1) * ctx.pi / beta


def tail(ctx, beta, s0, s1, n):
    return s0 - s1 / iv(ctx, beta, n)


def data(ctx, name, nk, niv):
    return ctx.cplx(name, tuple(nk) + (niv,))


def mirrored(a, i):
    """value at the integer frequency i of data given for i >= 0"""
    return a[..., i] if i >= 0 else np.conj(a[..., -i - 1])


def make(ctx, nk, niv, how):
    beta = ctx.pos('beta')
    s0, s1 = ctx.real('s0'), ctx.real('s1')
    if how == 'local':
        d = ctx.cplx('s', (niv,))
        return beta, s0, s1, d[None, None, None, :], d
    d = data(ctx, 's', nk, niv)
    if how == 'full':
        return beta, s0, s1, d, np.concatenate((np.conj(d[..., ::-1]), d), axis=-1)
    return beta, s0, s1, d, d


def value(ctx, d, i, core, beta, s0, s1):
    j = i if i >= 0 else -i - 1
    if j < core:
        return mirrored(d, i)
    t = tail(ctx, beta, s0, s1, j)
    t = t if i >= 0 else np.conj(t)
    return ctx.zeros(d.shape[:3]) + t


def window(ctx, nk, niv, core, how):
    beta, s0, s1, d, inp = make(ctx, nk, niv, how)
    keep = inp.copy()
    s = twop.SelfEnergy(inp, beta, pos=how != 'full', smom0=s0, smom1=s1, niv_core=core)
    ctx.eq(s.niv, niv, 'number of positive frequencies')
    ctx.eq(s.smom0, s0, 'given moment kept')
    ctx.eq(s.smom1, s1, 'given moment kept')
    ctx.eq(s.beta, beta, 'beta')
    c = s.sigma_core
    for i in range(-core, core):
        ctx.eq(c[..., core + i], mirrored(d, i), 'core')
    for n in sorted({1, core, core + 1, core + 2, niv, niv + 2}):
        g = s.get_siw(n)
        ctx.eq(np.shape(g), d.shape[:3] + (2 * n,), 'shape')
        for i in range(-n, n):
            ctx.eq(g[..., n + i], value(ctx, d, i, core, beta, s0, s1), 'data inside the core, tail outside')
    ctx.eq(s.get_siw(), s.get_siw(niv), 'default window')
    p = s.get_siw(core + 1, pi_shift=True)
    ref = s.get_siw(core + 1)
    nx, ny = d.shape[:2]
    for x in range(nx):
        for y in range(ny):
            ctx.eq(p[(x + nx // 2) % nx, (y + ny // 2) % ny], ref[x, y], 'shift of the zone by pi')
    for n_min in (None, 0, 2):
        m = core if n_min is None else n_min
        a = s.get_asympt(3, n_min=n_min)
        f = s.get_asympt(3, n_min=n_min, pos=False)
        for i in range(3):
            t = ctx.zeros(d.shape[:3]) + tail(ctx, beta, s0, s1, m + i)
            ctx.eq(a[..., i], t, 'tail at the frequency')
            ctx.eq(f[..., 3 + i], t, 'tail, positive part')
            ctx.eq(f[..., 2 - i], np.conj(t), 'tail, negative part')
    ctx.eq(s.k_mean(), sum(d[ix] for ix in np.ndindex(*d.shape[:3])) / int(np.prod(d.shape[:3])), 'k average')
    ctx.eq(inp, keep, 'input unchanged')


def moments(ctx, nk, niv, how):
    """least-squares moments: averages over the last max(4, 20 %) frequencies; exact for data that follow the tail"""
    beta, s0, s1, d, inp = make(ctx, nk, niv, how)
    s = twop.SelfEnergy(inp, beta, pos=how != 'full', niv_core=1)
    nf = max(int(0.2 * niv), 4)
    loc = sum(d[ix] for ix in np.ndindex(*d.shape[:3])) / int(np.prod(d.shape[:3]))
    m0 = m1 = 0
    for i in range(niv - nf, niv):
        z = loc[i]
        m0 = m0 + (z + np.conj(z)) / 2 / nf
        m1 = m1 + (z - np.conj(z)) / 2j / nf * (2 * i + 1) * ctx.pi / beta
    ctx.eq(s.smom0, m0, 'zeroth moment')
    ctx.eq(s.smom1, m1, 'first moment')


def exact(ctx, nk, niv):
    beta, s0, s1 = ctx.pos('beta'), ctx.real('s0'), ctx.real('s1')
    d = ctx.zeros(tuple(nk) + (niv,))
    for i in range(niv):
        d[..., i] = tail(ctx, beta, s0, s1, i)
    s = twop.SelfEnergy(d, beta, pos=True, niv_core=2)
    ctx.eq(s.smom0, s0, 'Hartree term recovered')
    ctx.eq(s.smom1, s1, 'first moment recovered')
    g = s.get_siw(niv + 4)
    for i in range(niv + 4):
        ctx.eq(g[..., niv + 4 + i], ctx.zeros(tuple(nk)) + tail(ctx, beta, s0, s1, i), 'tail is continued')


def atomic(ctx, at):
    """the analytic moments of the Hubbard model"""
    u, n = ctx.real('u'), ctx.real('n')
    ctx.eq(twop.get_smom0(u, n), u * n / 2, 'Hartree')
    ctx.eq(twop.get_smom1(u, n), -u * u * (n / 2) * (1 - n / 2), 'first moment')
    ctx.eq(twop.get_smom1(u, n), -u * u * twop.get_sum_chiupup(n), 'sum rule of the up-up susceptibility')


def estimate(ctx, niv, nmin, pattern):
    """the estimated core ends at the first frequency at which the data is on the tail, in both parts"""
    beta, s0, s1 = ctx.pos('beta'), ctx.real('s0'), ctx.real('s1')
    d = ctx.zeros((1, 1, 1, niv))
    dev = ctx.pos('dev', (niv,))
    dre, dim = pattern
    for i in range(niv):
        d[..., i] = tail(ctx, beta, s0, s1, i) + (dev[i] if i in dre else 0) + 1j * (dev[i] if i in dim else 0)
        ctx.assume(dev[i] > 2e-4)
    old = twop.SelfEnergy.niv_core_min
    twop.SelfEnergy.niv_core_min = nmin
    try:
        s = twop.SelfEnergy(d, beta, pos=True, smom0=s0, smom1=s1)
    finally:
        twop.SelfEnergy.niv_core_min = old
    first = lambda bad: next((i for i in range(niv) if i not in bad), niv)
    want = min(max(first(dre), first(dim), nmin), niv)
    ctx.eq(s.niv_core, want, 'core window')
    g = s.get_siw(niv + 1)
    for i in range(want):
        ctx.eq(g[..., niv + 1 + i], d[..., i], 'data kept where they deviate from the tail')
    ctx.eq(g[..., 2 * niv + 1], ctx.zeros((1, 1, 1)) + tail(ctx, beta, s0, s1, niv), 'tail outside')
    ctx.eq(np.shape(s.sigma_core)[-1], 2 * s.niv_core, 'core size fits the window')


def small(ctx, niv):
    """fewer frequencies than the minimal core"""
    beta = ctx.pos('beta')
    d = ctx.cplx('s', (2, 1, 1, niv))
    s0, s1 = ctx.real('s0'), ctx.real('s1')
    s = twop.SelfEnergy(ctx.zeros((2, 1, 1, niv)) + s0, beta, pos=True, smom0=s0, smom1=0)
    ctx.true(s.niv_core <= niv, 'core inside the data')
    g = s.get_siw(niv + 2)
    ctx.eq(g, ctx.zeros((2, 1, 1, 2 * niv + 4)) + s0, 'constant')
    s = twop.SelfEnergy(d, beta, pos=True, smom0=s0, smom1=s1, niv_core=niv)
    for i in range(-niv - 2, niv + 2):
        ctx.eq(s.get_siw(niv + 2)[..., niv + 2 + i], value(ctx, d, i, niv, beta, s0, s1), 'every frequency')


def dmft_tail(ctx, nk, core, nsh, niv, dcore):
    """lattice self-energy in the core, local one around it"""
    beta = ctx.pos('beta')
    s0, s1 = ctx.real('s0'), ctx.real('s1')
    loc = ctx.cplx('l', (niv,))
    lat = data(ctx, 's', nk, core)
    full = np.concatenate((np.conj(lat[..., ::-1]), lat), axis=-1)
    dm = twop.SelfEnergy(loc[None, None, None, :], beta, pos=True, smom0=s0, smom1=s1, niv_core=dcore)
    r = twop.create_dga_siwk_with_dmft_as_asympt(full, dm, nsh)
    ctx.eq(r.niv_core, core + nsh, 'all computed frequencies belong to the core')
    ctx.eq(r.smom0, s0, 'moment')
    ctx.eq(r.smom1, s1, 'moment')
    ctx.eq(r.beta, beta, 'beta')
    g = r.get_siw(core + nsh + 2)
    n = core + nsh + 2
    for i in range(-n, n):
        j = i if i >= 0 else -i - 1
        if j < core:
            w = mirrored(lat, i)
        elif j < core + nsh and j < dcore:
            w = ctx.zeros(tuple(nk)) + mirrored(loc, i)
        else:
            t = tail(ctx, beta, s0, s1, j)
            w = ctx.zeros(tuple(nk)) + (t if i >= 0 else np.conj(t))
        ctx.eq(g[..., n + i], w, 'lattice core, local shell, tail')


def shapes(ctx, nd):
    a = ctx.cplx('a', (2,) * nd)
    ctx.raises(ValueError, lambda: twop.SelfEnergy(a, 1.0, pos=True, niv_core=1), 'neither local nor momentum dependent')


def const(ctx, nk, niv):
    beta, delta = ctx.pos('beta'), ctx.pos('delta')
    v = mf.vn(beta, niv)
    ctx.assume(delta > 1e-3)
    s = twop.sigma_const(beta, delta, tuple(nk), v)
    g = s.get_siw(niv)
    for i in range(min(niv, 20)):  # (beyond the estimated core the fitted tail takes over)
        ctx.eq(g[..., niv + i], ctx.zeros(tuple(nk)) - 1j * delta, 'constant scattering rate')
        ctx.eq(g[..., niv - 1 - i], ctx.zeros(tuple(nk)) + 1j * delta, 'constant scattering rate')


def cases(tier):
    th = tier != 'quick'
    out = []
    for nk in ((1, 1, 1), (2, 1, 1), (2, 3, 1), (1, 2, 2)):
        for niv, core in ((4, 2), (4, 4), (5, 1), (6, 3)) + (((8, 5), (10, 4)) if th else ()):
            for how in ('pos', 'full') + (('local',) if nk == (1, 1, 1) else ()):
                out.append((window, dict(nk=nk, niv=niv, core=core, how=how)))
        for niv in (4, 5, 10, 25, 30) if nk != (2, 3, 1) else (4, 6):
            for how in ('pos', 'full') + (('local',) if nk == (1, 1, 1) else ()):
                out.append((moments, dict(nk=nk, niv=niv, how=how)))
            out.append((exact, dict(nk=nk, niv=niv)))
        for core, nsh, niv, dcore in ((2, 2, 4, 4), (2, 2, 4, 3), (1, 3, 6, 2), (3, 1, 5, 5), (2, 0, 4, 4), (2, 3, 8, 8), (2, 2, 3, 3), (1, 3, 2, 2), (1, 3, 2, 1), (3, 2, 4, 2), (2, 3, 2, 2)):
            out.append((dmft_tail, dict(nk=nk, core=core, nsh=nsh, niv=niv, dcore=dcore)))
    out.append((atomic, dict(at=0)))
    for nd in (2, 3, 5):
        out.append((shapes, dict(nd=nd)))
    for niv in (4, 5, 6):
        out.append((small, dict(niv=niv)))
    for pat in (((), ()), ((0,), ()), ((), (0, 1)), ((0, 1), (0,)), ((0,), (0, 1, 2)), ((0, 1, 2, 3), (0, 1, 2, 3)), ((0, 2), (1,))):
        for nmin in (1, 3, 6):
            out.append((estimate, dict(niv=4, nmin=nmin, pattern=[list(pat[0]), list(pat[1])])))
    for nk in ((1, 1, 1), (2, 2, 1)):
        out.append((const, dict(nk=nk, niv=22)))
    return out
