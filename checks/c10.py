"""C10 two-particle Green's function <-> generalised susceptibility, leg contraction, symmetrisation"""
import numpy as np
from common import lfp, lfp4, lfp3, ur
from dga import matsubara_frequencies as mf

EXPLANATION = 'fully symbolic two-particle Green\'s functions, propagators and temperature'
OUTSIDE = 'sizes larger than listed'


def frequencies(kind):
    return {'full1': None, 'full3': None, 'full5': None, 'pos': np.array([0, 1, 2]), 'no0': np.array([1, 2, 3]),
            'mixed': np.array([4, -2, 0])}[kind], {'full1': 1, 'full3': 3, 'full5': 5}.get(kind, 3)


def g2_chi(ctx, channel, kind, niv, extra):
    beta, u = ctx.pos('beta'), ctx.real('u')
    wn, nw = frequencies(kind)
    g2 = ctx.cplx('g2', (nw, 2 * niv, 2 * niv))
    giw = ctx.cplx('g', (2 * (niv + extra),))
    gin = giw.copy()
    ws = list(range(-(nw // 2), nw // 2 + 1)) if wn is None else list(wn)
    obj = lfp4(ctx, channel, g2.copy(), beta, u, wn)
    chi = lfp.gchir_from_g2(obj, giw)
    want = ctx.zeros((nw, 2 * niv, 2 * niv))
    gc = giw[extra:extra + 2 * niv]
    for i, w in enumerate(ws):
        for a in range(2 * niv):
            for b in range(2 * niv):
                dis = 2 * gc[a] * gc[b] if (w == 0 and channel == 'dens') else 0
                want[i, a, b] = beta * (g2[i, a, b] - dis)
    ctx.eq(chi.mat, want, 'chi = beta (G2 - 2 G G delta_w0 delta_dens)')
    ctx.eq(obj.mat, g2, 'input object unchanged')
    ctx.eq(giw, gin, 'propagator unchanged')
    keep = chi.mat.copy()
    back = lfp.g2_from_chir(chi, giw)
    ctx.eq(back.mat, g2, 'G2 -> chi -> G2')
    ctx.eq(chi.mat, keep, 'susceptibility unchanged')
    ctx.eq(back.wn, ws, 'frequencies are kept')
    ctx.true(chi.channel == channel and back.channel == channel, 'channel is kept')


def chi_g2(ctx, channel, kind, niv, extra):
    beta, u = ctx.pos('beta'), ctx.real('u')
    wn, nw = frequencies(kind)
    c = ctx.cplx('chi', (nw, 2 * niv, 2 * niv))
    giw = ctx.cplx('g', (2 * (niv + extra),))
    obj = lfp4(ctx, channel, c.copy(), beta, u, wn)
    g2 = lfp.g2_from_chir(obj, giw)
    ctx.eq(lfp.gchir_from_g2(g2, giw).mat, c, 'chi -> G2 -> chi')
    ctx.eq(obj.mat, c, 'input unchanged')


def ggv(ctx, niv, cut):
    giw = ctx.cplx('g', (2 * niv,))
    n = niv if cut == -1 else cut
    r = lfp.get_ggv(giw, cut)
    want = [[giw[niv + a] * giw[niv + b] for b in range(-n, n)] for a in range(-n, n)]
    ctx.eq(r, want, 'G(v) G(v\')')


def contract(ctx, channel, nw, niv):
    beta, u = ctx.pos('beta'), ctx.real('u')
    c = ctx.cplx('chi', (nw, 2 * niv, 2 * niv))
    o = lfp4(ctx, channel, c.copy(), beta, u)
    w4 = []
    for i in range(nw):
        t = 0
        for a in range(2 * niv):
            for b in range(2 * niv):
                t = t + c[i, a, b]
        w4.append(t / beta ** 2)
    ctx.eq(o.contract_legs(), w4, 'sum over both fermionic frequencies / beta^2')
    l = ctx.cplx('l', (nw, 2 * niv))
    t3 = [sum(l[i, a] for a in range(2 * niv)) / beta for i in range(nw)]
    ctx.eq(lfp3(ctx, channel, l.copy(), beta, u).contract_legs(), t3, 'three-point: sum over the fermionic frequency / beta')
    ctx.eq(o.mat, c, 'unchanged')


def symmetrise(ctx, channel, nw, niv):
    beta, u = ctx.pos('beta'), ctx.real('u')
    c = ctx.cplx('chi', (nw, 2 * niv, 2 * niv))
    o = lfp4(ctx, channel, c.copy(), beta, u)
    o.symmetrize_v_vp()
    want = ctx.zeros(c.shape)
    for i in range(nw):
        for a in range(2 * niv):
            for b in range(2 * niv):
                want[i, a, b] = (c[i, a, b] + c[i, b, a]) / 2
    ctx.eq(o.mat, want, 'average of both orders of the fermionic frequencies')
    o.symmetrize_v_vp()
    ctx.eq(o.mat, want, 'symmetrising twice changes nothing')


def windows(ctx, channel, niw, niv, wcut, vcut):
    """cutting an object in its own frequencies keeps data, frequency list and sizes consistent"""
    beta, u = ctx.pos('beta'), ctx.real('u')
    c = ctx.cplx('chi', (2 * niw + 1, 2 * niv, 2 * niv))
    o = lfp4(ctx, channel, c.copy(), beta, u)
    o.cut_iv(vcut)
    want = c[:, niv - vcut:niv + vcut, niv - vcut:niv + vcut]
    ctx.eq(o.mat, want, 'fermionic cut keeps the central frequencies on both axes')
    ctx.eq(o.vn, list(range(-vcut, vcut)), 'fermionic list')
    o.cut_iw(wcut)
    ctx.eq(o.mat, want[niw - wcut:niw + wcut + 1], 'bosonic cut keeps the central frequencies')
    ctx.eq(o.wn, list(range(-wcut, wcut + 1)), 'bosonic list')
    ctx.eq(o.wn_lin, list(range(2 * wcut + 1)), 'positions')


def append(ctx, channel, nw, niv, nsh):
    beta, u = ctx.pos('beta'), ctx.real('u')
    c = ctx.cplx('chi', (nw, 2 * niv, 2 * niv))
    val = ctx.cplx('val')
    o = lfp4(ctx, channel, c.copy(), beta, u)
    r = lfp.get_urange(o, val, nsh)
    n = 2 * (niv + nsh)
    want = ctx.zeros((nw, n, n))
    want[...] = val
    want[:, nsh:n - nsh, nsh:n - nsh] = c
    ctx.eq(r.mat, want, 'shell filled with the value, core kept')
    ctx.eq(o.mat, c, 'input unchanged')
    o.append_shell(val, nsh)
    ctx.eq(o.mat, want, 'in place version')


def interaction(ctx):
    u = ctx.real('u')
    for ch in ('dens', 'magn', 'updo', 'upup'):
        ctx.eq(lfp.get_ur(u, ch), ur(ch, u), 'channel interaction')
    o = lfp4(ctx, 'magn', ctx.zeros((1, 2, 2)), 1, u)
    ctx.eq(o.u_r, -u, 'magnetic channel has -U')
    o = lfp4(ctx, 'dens', ctx.zeros((1, 2, 2)), 1, u)
    ctx.eq(o.u_r, u, 'density channel has +U')


def from_dmft(ctx, channel, niw, niv):
    d = {f'g4iw_{c}': ctx.cplx('g4' + c, (2 * niw + 1, 2 * niv, 2 * niv)) for c in ('dens', 'magn')}
    d['beta'], d['u'] = ctx.pos('beta'), ctx.real('u')
    o = lfp.get_g2_from_dmft_input(d, channel)
    ctx.eq(o.mat, d['g4iw_' + channel], 'data of the requested channel')
    ctx.eq(o.beta, d['beta'], 'temperature')
    ctx.eq(o.u, d['u'], 'interaction')
    ctx.true(o.channel == channel, 'channel')


def cases(tier):
    th = tier != 'quick'
    out = [(interaction, {})]
    for ch in ('dens', 'magn'):
        for kind in ('full1', 'full3', 'full5', 'pos', 'no0', 'mixed'):
            for niv, ex in ((1, 0), (1, 2), (2, 0), (2, 1)) + (((3, 2),) if th else ()):
                out.append((g2_chi, dict(channel=ch, kind=kind, niv=niv, extra=ex)))
                out.append((chi_g2, dict(channel=ch, kind=kind, niv=niv, extra=ex)))
        for nw in (1, 3):
            for niv in (1, 2, 3):
                out.append((contract, dict(channel=ch, nw=nw, niv=niv)))
                out.append((symmetrise, dict(channel=ch, nw=nw, niv=niv)))
                for nsh in (1, 2):
                    out.append((append, dict(channel=ch, nw=nw, niv=niv, nsh=nsh)))
        out.append((windows, dict(channel=ch, niw=2, niv=3, wcut=1, vcut=2)))
        out.append((windows, dict(channel=ch, niw=3, niv=3, wcut=2, vcut=1)))
        out.append((windows, dict(channel=ch, niw=1, niv=2, wcut=0, vcut=1)))
        out.append((from_dmft, dict(channel=ch, niw=1, niv=2)))
    for niv in (1, 2, 3):
        for cut in (-1,) + tuple(range(1, niv + 1)):
            out.append((ggv, dict(niv=niv, cut=cut)))
    return out
