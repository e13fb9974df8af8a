"""C09 local Bethe-Salpeter conversions: Gamma, F, chi are consistent"""
import numpy as np
from common import lfp, lfp4, ur

EXPLANATION = ('fully symbolic generalised susceptibilities / irreducible vertices and bubbles; matrix inverses are exact rational '
               'functions; the Bethe-Salpeter relations are required as identities')
OUTSIDE = 'more than two positive fermionic frequencies (matrix dimension 4)'


def diag(ctx, d):
    m = ctx.zeros((len(d), len(d)))
    for i, x in enumerate(d):
        m[i, i] = x
    return m


def setup(ctx, nw, niv, full, name, sparse=False):
    beta, u = ctx.pos('beta'), ctx.real('u')
    gchi0 = ctx.cplx('gchi0', (nw, 2 * niv))
    m = ctx.cplx(name, (nw, 2 * niv, 2 * niv))
    if sparse:  # keep a band of the matrix free (the rest zero) so that larger dimensions stay tractable
        for i in range(2 * niv):
            for j in range(2 * niv):
                if (i, j) not in sparse_pos(2 * niv):
                    m[:, i, j] = 0
    wn = None if full else np.arange(nw) * 3 - 1
    return beta, u, gchi0, m, wn


def sparse_pos(n):
    return {(i, i) for i in range(n)} | {(0, n - 1), (n - 1, 1), (1, 2 % n), (2 % n, 0)}


def gamma_chi(ctx, channel, nw, niv, full, sparse):
    beta, u, gchi0, m, wn = setup(ctx, nw, niv, full, 'chi', sparse)
    chi = lfp4(ctx, channel, m.copy(), beta, u, wn)
    gam = lfp.gamob2_from_gchir(chi, gchi0)
    eye = np.eye(2 * niv)
    for w in range(nw):
        # (gamma + chi0^-1) chi = 1
        a = gam.mat[w] + diag(ctx, 1 / gchi0[w])
        ctx.eq(a @ m[w], eye, 'chi0^-1 + gamma is the inverse of chi')
    back = lfp.gchir_from_gamob2(gam, gchi0)
    ctx.eq(back.mat, m, 'gamma -> chi undoes chi -> gamma')
    ctx.eq(chi.mat, m, 'input unchanged')
    for o in (gam, back):
        ctx.true(o.channel == channel and o.is_full_w == full, 'channel and frequency information are kept')
        ctx.eq(o.wn, chi.wn, 'frequencies are kept')
        ctx.eq(o.beta, beta, 'temperature is kept')
        ctx.eq(o.u, u, 'interaction is kept')


def chi_gamma(ctx, channel, nw, niv, sparse):
    beta, u, gchi0, m, wn = setup(ctx, nw, niv, True, 'gam', sparse)
    g = lfp4(ctx, channel, m.copy(), beta, u, wn)
    chi = lfp.gchir_from_gamob2(g, gchi0)
    eye = np.eye(2 * niv)
    for w in range(nw):
        ctx.eq(chi.mat[w] @ (m[w] + diag(ctx, 1 / gchi0[w])), eye, 'chi = (chi0^-1 + gamma)^-1')


def f_chi(ctx, channel, nw, niv, full):
    beta, u, gchi0, m, wn = setup(ctx, nw, niv, full, 'chi')
    chi = lfp4(ctx, channel, m.copy(), beta, u, wn)
    f = lfp.fob2_from_gchir(chi, gchi0)
    for w in range(nw):
        for i in range(2 * niv):
            for j in range(2 * niv):
                d = 1 if i == j else 0
                # chi = chi0 - chi0 F chi0
                ctx.eq(gchi0[w, i] * d - gchi0[w, i] * f.mat[w, i, j] * gchi0[w, j], m[w, i, j], 'chi = chi0 - chi0 F chi0')
    ctx.eq(lfp.gchir_from_fob2(f, gchi0).mat, m, 'F -> chi undoes chi -> F')
    ctx.eq(f.wn, chi.wn, 'frequencies are kept')
    ctx.eq(chi.mat, m, 'input unchanged')


def chi_from_f(ctx, channel, nw, niv, full):
    beta, u, gchi0, m, wn = setup(ctx, nw, niv, full, 'f')
    f = lfp4(ctx, channel, m.copy(), beta, u, wn)
    chi = lfp.gchir_from_fob2(f, gchi0)
    for w in range(nw):
        ctx.eq(chi.mat[w], diag(ctx, gchi0[w]) - diag(ctx, gchi0[w]) @ m[w] @ diag(ctx, gchi0[w]), 'chi = chi0 - chi0 F chi0')


def f_gamma(ctx, channel, nw, niv, sparse):
    """full vertex from the irreducible one: same F as via the susceptibility; Bethe-Salpeter equation F = Gamma - Gamma chi0 F"""
    beta, u, gchi0, m, wn = setup(ctx, nw, niv, True, 'gam', sparse)
    g = lfp4(ctx, channel, m.copy(), beta, u, wn)
    f = lfp.fob2_from_gamob2_urange(g, gchi0)
    for w in range(nw):
        ctx.eq(f.mat[w], m[w] - m[w] @ diag(ctx, gchi0[w]) @ f.mat[w], 'F = Gamma - Gamma chi0 F')
    ctx.eq(f.mat, lfp.fob2_from_gchir(lfp.gchir_from_gamob2(g, gchi0), gchi0).mat, 'same F as via the susceptibility')


def f_gamma_urange(ctx, channel, niv, nsh):
    """core vertex continued by the bare interaction in the shell"""
    beta, u = ctx.pos('beta'), ctx.real('u')
    n = 2 * (niv + nsh)
    gchi0 = ctx.cplx('gchi0', (1, n))
    m = ctx.cplx('gam', (1, 2 * niv, 2 * niv))
    g = lfp4(ctx, channel, m.copy(), beta, u)
    f = lfp.fob2_from_gamob2_urange(g, gchi0)
    ctx.eq(np.shape(f.mat), (1, n, n), 'the shell is appended')
    gu = ctx.zeros((n, n))
    for i in range(n):
        for j in range(n):
            core = nsh <= i < n - nsh and nsh <= j < n - nsh
            gu[i, j] = m[0, i - nsh, j - nsh] if core else ur(channel, u) / beta ** 2
    lhs, rhs = f.mat[0], gu - gu @ diag(ctx, gchi0[0]) @ f.mat[0]
    ctx.eq(lhs, rhs, 'F = Gamma - Gamma chi0 F on the extended window')


def cases(tier):
    th = tier != 'quick'
    out = []
    for ch in ('dens', 'magn'):
        for full in (True, False):
            for nw in (1, 3):
                out.append((gamma_chi, dict(channel=ch, nw=nw, niv=1, full=full, sparse=False)))
                for niv in (1, 2, 3):
                    out.append((f_chi, dict(channel=ch, nw=nw, niv=niv, full=full)))
                    out.append((chi_from_f, dict(channel=ch, nw=nw, niv=niv, full=full)))
            out.append((gamma_chi, dict(channel=ch, nw=1, niv=2, full=full, sparse=False)))
        out.append((chi_gamma, dict(channel=ch, nw=3, niv=1, sparse=False)))
        out.append((chi_gamma, dict(channel=ch, nw=1, niv=2, sparse=False)))
        out.append((f_gamma, dict(channel=ch, nw=1, niv=1, sparse=False)))
        out.append((f_gamma, dict(channel=ch, nw=3, niv=1, sparse=False)))
        out.append((f_gamma_urange, dict(channel=ch, niv=1, nsh=1)))
        out.append((f_gamma, dict(channel=ch, nw=1, niv=2, sparse=True)))
        out.append((f_gamma_urange, dict(channel=ch, niv=1, nsh=2)))
        if th:
            out.append((f_gamma, dict(channel=ch, nw=1, niv=2, sparse=False)))
            out.append((gamma_chi, dict(channel=ch, nw=1, niv=3, full=True, sparse=True)))
    return out
