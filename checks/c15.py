"""C15 momentum dependent Schwinger-Dyson equation"""
import numpy as np
from dga import four_point as fp, high_level_routines as hlr, bubble as bub, matsubara_frequencies as mf, mpi_aux
from common import (lfp, lfp3, lfp4, ur, diag, extend, minv, total, make_giwk, make_cfg, no_plots, Comm, all_q, kmean)

EXPLANATION = ('symbolic vertices, ladder susceptibilities, double-counting kernels and lattice propagators; kernels are inversion '
               'symmetric in q (as a lattice with inversion symmetry has), propagators are free')
OUTSIDE = 'k meshes and frequency windows larger than listed; tails of the lattice equation (the program runs it without a shell)'


def gat(g, v):
    return g[..., g.shape[-1] // 2 + v]


def symq(ctx, name, nk, shape):
    """array over the q list with a(-q) = a(q)"""
    qs = all_q(nk)
    a = ctx.cplx(name, (len(qs),) + shape)
    for i, q in enumerate(qs):
        j = qs.index(tuple((-x) % n for x, n in zip(q, nk)))
        a[i] = a[min(i, j)]
    return qs, a


def rolled(g, q, nk):
    out = g.copy()
    for k in np.ndindex(*nk):
        out[k] = g[tuple((a - b) % n for a, b, n in zip(k, q, nk))]
    return out


def kernel_form(ctx, channel, nq, nw, niv):
    u = ctx.real('u')
    v, chi = ctx.cplx('vrg', (nq, nw, 2 * niv)), ctx.cplx('chi', (nq, nw))
    r = fp.get_kernel(v, chi, u, channel)
    u_r = ur(channel, u)
    for ix in np.ndindex(nq, nw, 2 * niv):
        ctx.eq(r[ix], u_r / 2 * (1 - (1 - u_r * chi[ix[:2]]) * v[ix]), 'u/2 (1 - (1 - u chi) vrg)')


def setup(ctx, nk, ws, niv, extra=0):
    beta, u = ctx.pos('beta'), ctx.real('u')
    nw = len(ws)
    qs, vd = symq(ctx, 'vd', nk, (nw, 2 * niv))
    vm, cd, cm, kd = (symq(ctx, n, nk, s)[1] for n, s in
                      (('vm', (nw, 2 * niv)), ('cd', (nw,)), ('cm', (nw,)), ('kd', (nw, 2 * niv))))
    g = ctx.cplx('g', tuple(nk) + (2 * (niv + max(abs(w) for w in ws) + extra),))
    return beta, u, qs, vd, vm, cd, cm, kd, g


def reference(nk, ws, niv, beta, u, qs, vd, vm, cd, cm, kd, g):
    out = np.empty(tuple(nk) + (2 * niv,), dtype=object)
    out[...] = 0
    for i, q in enumerate(qs):
        gq = rolled(g, q, nk)
        for j, w in enumerate(ws):
            for n in range(2 * niv):
                ker = u / 2 * (1 - (1 - u * cd[i, j]) * vd[i, j, n]) - 3 * u / 2 * (1 - (1 + u * cm[i, j]) * vm[i, j, n]) - kd[i, j, n]
                out[..., n] = out[..., n] + ker * gat(gq, n - niv - w)
    return out / beta / len(qs)


def full(ctx, nk, ws, niv, extra):
    beta, u, qs, vd, vm, cd, cm, kd, g = setup(ctx, nk, ws, niv, extra)
    keep = [x.copy() for x in (vd, vm, cd, cm, kd, g)]
    got = fp.schwinger_dyson_full_q(vd, vm, cd, cm, kd, g, beta, u, np.array(qs), np.array(ws), len(qs))
    ctx.eq(got, reference(nk, ws, niv, beta, u, qs, vd, vm, cd, cm, kd, g), 'density + 3 magnetic - double counting')
    for a, b in zip((vd, vm, cd, cm, kd, g), keep):
        ctx.eq(a, b, 'inputs unchanged')


def ranks(ctx, nk, ws, niv, size):
    """the sum of the contributions of all processes is the full result"""
    beta, u, qs, vd, vm, cd, cm, kd, g = setup(ctx, nk, ws, niv)
    tot = 0
    for r in range(size):
        s = mpi_aux.MpiDistributor(ntasks=len(qs), comm=Comm(r, size)).my_slice
        tot = tot + fp.schwinger_dyson_full_q(vd[s], vm[s], cd[s], cm[s], kd[s], g, beta, u, np.array(qs)[s], np.array(ws), len(qs))
    ctx.eq(tot, fp.schwinger_dyson_full_q(vd, vm, cd, cm, kd, g, beta, u, np.array(qs), np.array(ws), len(qs)), 'sum over processes')


def channel(ctx, channel, nk, ws, niv):
    beta, u = ctx.pos('beta'), ctx.real('u')
    nw = len(ws)
    qs, v = symq(ctx, 'v', nk, (nw, 2 * niv))
    chi = symq(ctx, 'c', nk, (nw,))[1]
    g = ctx.cplx('g', tuple(nk) + (2 * (niv + 2),))
    dup = np.ones(len(qs), dtype=int)
    u_r = ur(channel, u)
    want = np.empty(tuple(nk) + (2 * niv,), dtype=object)
    want[...] = 0
    for i, q in enumerate(qs):
        gq = rolled(g, q, nk)
        for j, w in enumerate(ws):
            for n in range(2 * niv):
                want[..., n] = want[..., n] + (1 - (1 - u_r * chi[i, j]) * v[i, j, n]) * gat(gq, n - niv - w)
    want = want * (u_r / 2 / beta / len(qs))
    ctx.eq(fp.schwinger_dyson_vrg_q(v, chi, g, beta, u, channel, np.array(qs), dup, np.array(ws), len(qs)), want, 'one channel')
    ctx.eq(fp.schwinger_dyson_channel_q(v, chi, channel, g, beta, u, np.array(qs), dup, np.array(ws), len(qs)), want, 'one channel')
    ker = fp.get_kernel(v, chi, u, channel)
    ctx.eq(fp.schwinger_dyson_kernel_q(ker, g, beta, np.array(qs), np.array(ws), len(qs)), want, 'kernel form')


def shell(ctx, nk, ws, niv, nsh):
    beta, u = ctx.pos('beta'), ctx.real('u')
    qs, chi = symq(ctx, 'c', nk, (len(ws),))
    g = ctx.cplx('g', tuple(nk) + (2 * (niv + nsh + 2),))
    want = np.empty(tuple(nk) + (2 * nsh,), dtype=object)
    want[...] = 0
    for i, q in enumerate(qs):
        gq = rolled(g, q, nk)
        for j, w in enumerate(ws):
            for m, n in enumerate(list(range(-niv - nsh, -niv)) + list(range(niv, niv + nsh))):
                want[..., m] = want[..., m] + chi[i, j] * gat(gq, n - w)
    ctx.eq(fp.schwinger_dyson_q_shell(chi, g, beta, u, nsh, niv, np.array(ws), np.array(qs), len(qs)),
           want * (u * u / 2 / beta / len(qs)), 'tail of one channel')


def duplicity(ctx, nk, ws, niv):
    """the irreducible zone with multiplicities gives the same k-average as the full zone"""
    beta, u = ctx.pos('beta'), ctx.real('u')
    nw = len(ws)
    g = ctx.cplx('g', tuple(nk) + (2 * (niv + 2),))
    qs, v = symq(ctx, 'v', nk, (nw, 2 * niv))
    chi = symq(ctx, 'c', nk, (nw,))[1]
    irr = [i for i, q in enumerate(qs) if qs.index(tuple((-x) % n for x, n in zip(q, nk))) >= i]
    dup = np.array([1 if qs.index(tuple((-x) % n for x, n in zip(qs[i], nk))) == i else 2 for i in irr])
    a = fp.schwinger_dyson_vrg_q(v[irr], chi[irr], g, beta, u, 'magn', np.array(qs)[irr], dup, np.array(ws), len(qs))
    b = fp.schwinger_dyson_vrg_q(v, chi, g, beta, u, 'magn', np.array(qs), np.ones(len(qs), int), np.array(ws), len(qs))
    ctx.eq(kmean(a), kmean(b), 'k average')
    x = ctx.cplx('x', (len(qs), nw, 2 * niv))
    c = fp.schwinger_dyson_dc(x, g, u, np.array(qs), np.ones(len(qs), int), np.array(ws), len(qs))
    want = 0
    gl = kmean(g)
    for j, w in enumerate(ws):
        want = want + np.array([kmean_q(x[:, j, n]) * gat(gl, n - niv - w) for n in range(2 * niv)], dtype=object)
    ctx.eq(kmean(c), want * u, 'double counting term with local vertex and momentum dependent bubble, k average')


def kmean_q(a):
    return sum(a[i] for i in range(len(a))) / len(a)


def local_kernel(ctx, nk, ws, niv):
    """a momentum independent kernel gives the local equation for every k"""
    beta, u = ctx.pos('beta'), ctx.real('u')
    nw = len(ws)
    g = ctx.cplx('g', tuple(nk) + (2 * (niv + 2),))
    vl, cl = ctx.cplx('vl', (nw, 2 * niv)), ctx.cplx('cl', (nw,))
    qs = all_q(nk)
    v = ctx.zeros((len(qs), nw, 2 * niv)) + vl[None]
    c = ctx.zeros((len(qs), nw)) + cl[None]
    for ch in ('dens', 'magn'):
        k = fp.get_kernel(v, c, u, ch)
        s = fp.schwinger_dyson_kernel_q(k, g, beta, np.array(qs), np.array(ws), len(qs))
        loc = lfp.schwinger_dyson_vrg(lfp3(ctx, ch, vl, beta, u, np.array(ws)), cl, kmean(g))
        for kk in np.ndindex(*nk):
            ctx.eq(s[kk], loc, 'local equation at every k')


def one_site(ctx, niw, niv, nsh, free=('dens', 'magn')):
    """on a single-momentum lattice the whole ladder reproduces the local self-energy: double counting is exact"""
    beta, u, n = ctx.pos('beta'), ctx.real('u'), ctx.real('n')
    obj, gl = make_giwk(ctx, (1, 1, 1), niv + nsh + niw, beta)
    cfg = make_cfg(ctx, nk=(1, 1, 1), niw=niw, niv=niv, nsh=nsh, beta=beta, u=u, n=n, comm=Comm(0, 1))
    wn = cfg.box.wn
    nw = len(wn)
    bg = bub.BubbleGenerator(wn=wn, giwk_obj=obj, is_full_wn=True)
    gam = {c: lfp4(ctx, c, ctx.cplx('gam' + c, (nw, 2 * niv, 2 * niv)), beta, u) for c in ('dens', 'magn')}
    for c in gam:
        if c not in free:
            gam[c].mat = gam[c].mat * 0
    qs = np.array([(0, 0, 0)])
    md = mpi_aux.MpiDistributor(ntasks=1, comm=cfg.comm)
    g0u = bg.get_gchi0_q_list(niv + nsh, qs)
    g0c = mf.cut_v(g0u, niv_cut=niv, axes=-1)
    c0u, c0c = g0u.sum(axis=-1) / beta ** 2, g0c.sum(axis=-1) / beta ** 2
    loc, lad = {}, {}
    for c in gam:
        loc[c] = lfp.get_vrg_and_chir_tilde_from_gammar_urange(gam[c], bg, niv_shell=nsh)
        lad[c] = hlr.construct_vrg_and_chi_q_urange(gam[c], g0c, c0u, c0c, cfg, md)
        ctx.eq(lad[c][0][0], loc[c][0].mat, 'vertex')
        ctx.eq(lad[c][1][0], loc[c][1], 'susceptibility')
    with no_plots():
        kdc = hlr.construct_dc_kernel(gam['magn'], bg, g0u, cfg)
    s = fp.schwinger_dyson_full_q(lad['dens'][0], lad['magn'][0], lad['dens'][1], lad['magn'][1], kdc, obj.g_full(), beta, u, qs, wn, 1)
    sl = lfp.schwinger_dyson_full(loc['dens'][0], loc['magn'][0], loc['dens'][1], loc['magn'][1], obj.g_loc, n)
    ctx.eq(s[0, 0, 0] + u * n / 2, sl, 'self-energy')


def cases(tier):
    th = tier != 'quick'
    out = []
    for ch in ('dens', 'magn'):
        out.append((kernel_form, dict(channel=ch, nq=2, nw=3, niv=2)))
        for nk in ((1, 1, 1), (2, 1, 1), (3, 1, 1), (2, 2, 1)):
            out.append((channel, dict(channel=ch, nk=nk, ws=[-1, 0, 1], niv=1)))
        out.append((channel, dict(channel=ch, nk=(1, 2, 2), ws=[0, 2], niv=2)))
        out.append((channel, dict(channel=ch, nk=(3, 1, 1), ws=[-2, 0], niv=1)))
        out.append((channel, dict(channel=ch, nk=(1, 2, 3), ws=[-1, 2], niv=1)))
    for nk in ((1, 1, 1), (2, 1, 1), (3, 1, 1), (2, 2, 1), (1, 1, 3), (3, 2, 1), (1, 2, 3), (2, 2, 2)) + (((3, 3, 1), (4, 1, 1)) if th else ()):
        for ws in ([0], [-1, 0, 1], [-2, 0, 1], [-1]) + (([-2, -1, 0, 1, 2],) if th else ()):
            out.append((full, dict(nk=nk, ws=ws, niv=1, extra=0)))
            out.append((full, dict(nk=nk, ws=ws, niv=2, extra=1)))
    for size in (1, 2, 3, 4):
        out.append((ranks, dict(nk=(2, 2, 1), ws=[-1, 0, 1], niv=1, size=size)))
        out.append((ranks, dict(nk=(5, 1, 1), ws=[0, 1], niv=1, size=size)))
        out.append((ranks, dict(nk=(3, 1, 1), ws=[-2, 1], niv=2, size=size)))
        out.append((ranks, dict(nk=(1, 2, 3), ws=[-2, 1], niv=1, size=size)))
    for nk in ((2, 1, 1), (3, 2, 1)):
        out.append((shell, dict(nk=nk, ws=[-1, 0, 1], niv=1, nsh=1)))
        out.append((shell, dict(nk=nk, ws=[0, 2], niv=1, nsh=2)))
        out.append((shell, dict(nk=nk, ws=[-2, 1], niv=1, nsh=1)))
        out.append((duplicity, dict(nk=nk, ws=[-1, 0, 1], niv=1)))
        out.append((local_kernel, dict(nk=nk, ws=[-1, 0, 1], niv=1)))
        out.append((local_kernel, dict(nk=nk, ws=[0, 2], niv=2)))
    out.append((one_site, dict(niw=0, niv=1, nsh=0)))
    out.append((one_site, dict(niw=0, niv=1, nsh=1)))
    for ch in ('dens', 'magn'):
        out.append((one_site, dict(niw=1, niv=1, nsh=0, free=[ch])))
    if th:
        out.append((one_site, dict(niw=1, niv=1, nsh=0), dict(time_limit=900)))
        out.append((one_site, dict(niw=1, niv=1, nsh=1, free=['dens']), dict(time_limit=900)))
    return out
