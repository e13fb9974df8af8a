"""C11 treating the irreducible vertex as the bare interaction outside the core window is done exactly"""
import numpy as np
from common import lfp, lfp4, ur, diag, extend, minv, total

EXPLANATION = ('symbolic core vertex, bubble on the extended window, temperature and interaction; reference: the Bethe-Salpeter '
               'equation solved on the whole extended window with the vertex continued by the channel interaction')
OUTSIDE = 'core windows beyond 1-2 and shells beyond 1-2 positive frequencies'


def ext(ctx, channel, niv, nsh, nw, band=False):
    beta, u = ctx.pos('beta'), ctx.real('u')
    n = 2 * (niv + nsh)
    gchi0 = ctx.cplx('gchi0', (nw, n))
    gam = ctx.cplx('gam', (nw, 2 * niv, 2 * niv))
    if band:
        for i in range(2 * niv):
            for j in range(2 * niv):
                if i != j and not (i == 0 and j == 1):
                    gam[:, i, j] = 0
    c = slice(nsh, n - nsh)
    ur_ = ur(channel, u) / beta ** 2
    full = [minv(ctx, diag(ctx, 1 / gchi0[w]) + extend(ctx, gam[w], ur_, nsh)) for w in range(nw)]
    return beta, u, gchi0, gam, c, ur_, full


def gamma(ctx, channel, niv, nsh, nw, sparse_w):
    beta, u, gchi0, gam, c, ur_, full = ext(ctx, channel, niv, nsh, nw)
    m = ctx.zeros((nw, 2 * niv, 2 * niv))
    for w in range(nw):
        m[w] = full[w][c, c]
    wn = None if not sparse_w else np.arange(nw) + 2
    chi = lfp4(ctx, channel, m.copy(), beta, u, wn)
    r = lfp.gamob2_from_gchir_urange(chi, gchi0)
    ctx.eq(r.mat, gam, 'core vertex recovered from the core part of the extended susceptibility')
    ctx.eq(chi.mat, m, 'input unchanged')
    ctx.true(r.channel == channel, 'channel kept')
    ctx.eq(r.wn, chi.wn, 'frequencies kept')


def noshell(ctx, channel, niv):
    """without a shell it is the plain inversion"""
    beta, u = ctx.pos('beta'), ctx.real('u')
    gchi0 = ctx.cplx('gchi0', (1, 2 * niv))
    m = ctx.cplx('chi', (1, 2 * niv, 2 * niv))
    chi = lfp4(ctx, channel, m.copy(), beta, u)
    r = lfp.gamob2_from_gchir_urange(chi, gchi0)
    ctx.eq(r.mat, lfp.gamob2_from_gchir(chi, gchi0).mat, 'shell of zero width')


def chi_phys(ctx, channel, niv, nsh, nw):
    beta, u, gchi0, gam, c, ur_, full = ext(ctx, channel, niv, nsh, nw)
    g = lfp4(ctx, channel, gam.copy(), beta, u)
    aux = lfp.gchi_aux_core_from_gammar(g, gchi0[:, c])
    for w in range(nw):
        ctx.eq(aux.mat[w] @ (diag(ctx, 1 / gchi0[w, c]) + gam[w] - ur_), np.eye(2 * niv), 'auxiliary susceptibility')
    alt = lfp.local_gchi_aux_from_gammar(g, gchi0[:, c])
    ctx.eq(alt.mat, aux.mat, 'both routes to the auxiliary susceptibility')
    chi_aux = aux.contract_legs()
    chi0u = gchi0.sum(axis=-1) / beta ** 2
    chi0c = gchi0[:, c].sum(axis=-1) / beta ** 2
    got = lfp.chi_phys_urange(chi_aux, chi0c, chi0u, u, channel)
    want = [total(full[w]) / beta ** 2 for w in range(nw)]
    ctx.eq(got, want, 'physical susceptibility = contraction of the extended Bethe-Salpeter solution')


def aux_urange(ctx, channel, niv, nsh, nw):
    beta, u, gchi0, gam, c, ur_, full = ext(ctx, channel, niv, nsh, nw)
    g = lfp4(ctx, channel, gam.copy(), beta, u)
    a = lfp.gchi_aux_core_from_gammar_urange(g, gchi0)
    core = lfp.gchi_aux_core_from_gammar(g, gchi0[:, c])
    n = gchi0.shape[-1]
    for w in range(nw):
        ref = diag(ctx, gchi0[w])
        ref[c, c] = core.mat[w]
        ctx.eq(a.mat[w], ref, 'bubble in the shell, core unchanged')


def aux_from_chi(ctx, channel, niv, nw):
    beta, u = ctx.pos('beta'), ctx.real('u')
    m = ctx.cplx('chi', (nw, 2 * niv, 2 * niv))
    gchi0 = ctx.cplx('gchi0', (nw, 2 * niv))
    chi = lfp4(ctx, channel, m.copy(), beta, u)
    a = lfp.gchi_aux_core(chi)
    for w in range(nw):
        # (chi^-1 - u/beta^2) a = 1  <=>  a - chi u a = chi
        ctx.eq(a.mat[w] - m[w] @ (ctx.zeros((2 * niv, 2 * niv)) + ur(channel, u) / beta ** 2) @ a.mat[w], m[w], 'chi = aux - ...')
    ctx.eq(a.mat, lfp.gchi_aux_core_from_gammar(lfp.gamob2_from_gchir(chi, gchi0), gchi0).mat, 'same as from the irreducible vertex')


def asympt(ctx, channel):
    a, b, c = ctx.cplx('a', (3,)), ctx.cplx('b', (3,)), ctx.cplx('c', (3,))
    ctx.eq(lfp.chi_phys_asympt(a, b, c), a + c - b, 'window bubble replaced by the asymptotic one')


def cases(tier):
    th = tier != 'quick'
    out = []
    for ch in ('dens', 'magn'):
        for nw in (1, 3):
            for nsh in (1, 2) if nw == 1 or th else (1,):
                for sw in (False, True):
                    out.append((gamma, dict(channel=ch, niv=1, nsh=nsh, nw=nw, sparse_w=sw)))
                out.append((chi_phys, dict(channel=ch, niv=1, nsh=nsh, nw=nw)))
                out.append((aux_urange, dict(channel=ch, niv=1, nsh=nsh, nw=nw)))
            out.append((chi_phys, dict(channel=ch, niv=1, nsh=0, nw=nw)))
            out.append((aux_from_chi, dict(channel=ch, niv=1, nw=nw)))
        for niv in (1, 2):
            out.append((noshell, dict(channel=ch, niv=niv)))
        out.append((aux_from_chi, dict(channel=ch, niv=2, nw=1)))
        out.append((gamma, dict(channel=ch, niv=2, nsh=1, nw=1, sparse_w=ch == 'magn')))
        for nsh in (0, 1, 2):
            out.append((chi_phys, dict(channel=ch, niv=2, nsh=nsh, nw=3)))
            out.append((aux_urange, dict(channel=ch, niv=2, nsh=nsh, nw=3)))
        out.append((asympt, dict(channel=ch)))
    return out
