"""C13 the momentum dependent ladder is the local ladder evaluated with the bubble of each momentum"""
import inspect
import numpy as np
from dga import pairing_vertex as pv, optics, four_point as fp, high_level_routines as hlr, bubble as bub, matsubara_frequencies as mf, mpi_aux
from common import lfp, lfp4, ur, diag, extend, minv, total, make_giwk, make_cfg, Comm, no_plots, all_q, replaced

EXPLANATION = ('symbolic irreducible vertex and a different symbolic bubble for every momentum; reference: Bethe-Salpeter equation '
               'solved for every momentum on the extended window')
OUTSIDE = 'more than one positive core frequency for the matrix inversions; more momenta than listed'


def setup(ctx, channel, nq, nw, niv, nsh):
    beta, u = ctx.pos('beta'), ctx.real('u')
    n = 2 * (niv + nsh)
    g0 = ctx.cplx('gchi0q', (nq, nw, n))
    gam = ctx.cplx('gam', (nw, 2 * niv, 2 * niv))
    c = slice(nsh, n - nsh)
    g = lfp4(ctx, channel, gam.copy(), beta, u, np.arange(nw) * 2 - 1)
    full = [[minv(ctx, diag(ctx, 1 / g0[q, w]) + extend(ctx, gam[w], ur(channel, u) / beta ** 2, nsh)) for w in range(nw)]
            for q in range(nq)]
    return beta, u, g0, gam, c, g, full


def plain(ctx, channel, nq, nw):
    beta, u, g0, gam, c, g, full = setup(ctx, channel, nq, nw, 1, 0)
    r = fp.get_gchir_from_gamma_loc_q(g, g0)
    for q in range(nq):
        for w in range(nw):
            ctx.eq(r[q, w], full[q][w], 'chi_q = (chi0_q^-1 + gamma)^-1')
    ctx.eq(g.mat, gam, 'vertex unchanged')


def ladder(ctx, channel, nq, nw, nsh):
    beta, u, g0, gam, c, g, full = setup(ctx, channel, nq, nw, 1, nsh)
    u_r = ur(channel, u)
    gc = g0[..., c]
    aux = fp.get_gchir_aux_from_gammar_q(g, gc)
    chi_aux = aux.sum(axis=(-1, -2)) / beta ** 2
    c0u, c0c = g0.sum(axis=-1) / beta ** 2, gc.sum(axis=-1) / beta ** 2
    chi = fp.chi_phys_from_chi_aux_q(chi_aux, c0u, c0c, u, channel)
    v = fp.vrg_from_gchi_aux(aux, gc)
    for q in range(nq):
        for w in range(nw):
            t = total(full[q][w]) / beta ** 2
            ctx.eq(chi[q, w], t, 'physical susceptibility at every momentum')
            ctx.eq(v[q, w] * (1 - u_r * t), full[q][w].sum(axis=-1)[c] / gc[q, w], 'vertex at every momentum')
    ca = fp.chi_phys_asympt_q(chi, c0u, c0u + 1)
    ctx.eq(ca, chi + 1, 'asymptotic bubble replaces the window bubble')
    va = fp.vrg_from_gchi_aux_asympt(aux, gc, chi, ca, u, channel)
    ctx.eq(va * (1 - u_r * ca)[..., None], v * (1 - u_r * chi)[..., None], 'rescaled vertex')


def lam(ctx, channel, nq, nw, niv):
    u = ctx.real('u')
    chi = ctx.cplx('chi', (nq, nw, 2 * niv, 2 * niv))
    g0 = ctx.cplx('g0', (nq, nw, 2 * niv))
    r = fp.lam_from_chir_q(chi, g0, channel)
    sign = 1 if channel == 'dens' else -1
    for ix in np.ndindex(nq, nw, 2 * niv):
        s = sum(chi[ix + (x,)] for x in range(2 * niv)) / g0[ix]
        ctx.eq(1 + sign * r[ix], s, '1 +- lambda = sum chi / chi0')


def dc_kernel(ctx, channel, nq, nw, niv):
    beta, u = ctx.pos('beta'), ctx.real('u')
    f = ctx.cplx('f', (nw, 2 * niv, 2 * niv))
    g0 = ctx.cplx('g0', (nq, nw, 2 * niv))
    o = lfp4(ctx, channel, f, beta, u, np.arange(nw))
    r = fp.get_kernel_dc(o, g0)
    for ix in np.ndindex(nq, nw, 2 * niv):
        s = sum(f[ix[1], ix[2], x] * g0[ix[0], ix[1], x] for x in range(2 * niv))
        ctx.eq(r[ix], ur(channel, u) * s, 'u sum_v\' F(v,v\') chi0_q(v\')')


WRITERS = {'eliash': (pv, 'write_pairing_vertex_components'), 'optics': (optics, 'write_optics_vertex_components'), 'fq': (fp, 'write_vertex_components')}


def driver(ctx, channel, nq, niw, nsh, store=()):
    """driver routine with the run configuration; the auxiliary ladder, vertex and bubble of all momenta go to the requested writers"""
    beta, u, g0, gam, c, g, full = setup(ctx, channel, nq, 2 * niw + 1, 1, nsh)
    cfg = make_cfg(ctx, nk=(2, 1, 1), niw=niw, niv=1, nsh=nsh, beta=beta, u=u)
    gc = g0[..., c]
    md = mpi_aux.MpiDistributor(ntasks=nq, comm=cfg.comm)
    cfg.eliash.do_pairing_vertex, cfg.optics.do_vertex, cfg.save_fq = ('eliash' in store), ('optics' in store), ('fq' in store)
    written = []

    def writer(key):
        sig = inspect.signature(getattr(*WRITERS[key]))

        def w(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            written.append((key, b.arguments))
        return w
    with replaced(*[(m, n, writer(key)) for key, (m, n) in WRITERS.items()]):
        v, chi = hlr.construct_vrg_and_chi_q_urange(g, gc, g0.sum(axis=-1) / beta ** 2, gc.sum(axis=-1) / beta ** 2, cfg, md)
    ctx.true(sorted(k for k, _ in written) == sorted(store), 'requested components are written, once')
    for key, a in written:
        x = list(a.values())
        ctx.true(x[0] is cfg and x[1] is md and x[2] == channel, 'settings, momenta of this process and channel')
        ctx.eq(x[4], v, 'vertex'), ctx.eq(x[5], gc, 'bubble')
        if key == 'fq':
            ctx.true(a['name'] == 'fq_', 'name of the entries')
        for q in range(nq):
            for w in range(2 * niw + 1):
                # chi_aux = (chi0^-1 + gamma - u_r/beta^2)^-1 on the core window
                k = diag(ctx, 1 / gc[q, w]) + gam[w] - ur(channel, u) / beta ** 2
                ctx.eq(k @ x[3][q, w], np.eye(2, dtype=int), 'auxiliary ladder')
    for q in range(nq):
        for w in range(2 * niw + 1):
            t = total(full[q][w]) / beta ** 2
            ctx.eq(chi[q, w], t, 'physical susceptibility')
            ctx.eq(v[q, w] * (1 - ur(channel, u) * t), full[q][w].sum(axis=-1)[c] / gc[q, w], 'vertex')


def dc_driver(ctx, niw, nsh, rank):
    """double counting kernel: local magnetic vertex on the extended window against the momentum dependent bubble"""
    beta, u = ctx.pos('beta'), ctx.real('u')
    niv = 1
    nk = (2, 1, 1)
    cfg = make_cfg(ctx, nk=nk, niw=niw, niv=niv, nsh=nsh, beta=beta, u=u, comm=Comm(rank, 2))
    obj, gl = make_giwk(ctx, nk, niv + nsh + niw, beta)
    bg = bub.BubbleGenerator(wn=cfg.box.wn, giwk_obj=obj, is_full_wn=True)
    nw = 2 * niw + 1
    gam = ctx.cplx('gam', (nw, 2 * niv, 2 * niv))
    g = lfp4(ctx, 'magn', gam.copy(), beta, u)
    g0q = ctx.cplx('g0q', (2, nw, 2 * (niv + nsh)))
    with no_plots():
        k = hlr.construct_dc_kernel(g, bg, g0q, cfg)
    g0 = bg.get_gchi0(niv + nsh)
    n = 2 * (niv + nsh)
    c = slice(nsh, n - nsh)
    for w in range(nw):
        full = minv(ctx, diag(ctx, 1 / g0[w]) + extend(ctx, gam[w], -u / beta ** 2, nsh))
        d = diag(ctx, 1 / g0[w])
        f = d - d @ full @ d
        for q in range(2):
            ctx.eq(k[q, w], -u * (f @ g0q[q, w])[c], 'kernel')


def cases(tier):
    th = tier != 'quick'
    out = []
    for ch in ('dens', 'magn'):
        for nq, nw in ((1, 1), (2, 1), (2, 3), (3, 2), (5, 4)):
            out.append((plain, dict(channel=ch, nq=nq, nw=nw)))
            for nsh in (0, 1, 2):
                out.append((ladder, dict(channel=ch, nq=nq, nw=nw, nsh=nsh)))
            for niv in (1, 2, 3):
                out.append((lam, dict(channel=ch, nq=nq, nw=nw, niv=niv)))
                out.append((dc_kernel, dict(channel=ch, nq=nq, nw=nw, niv=niv)))
        for nsh in (0, 1):
            out.append((driver, dict(channel=ch, nq=2, niw=1, nsh=nsh)))
            out.append((driver, dict(channel=ch, nq=3, niw=0, nsh=nsh)))
        out.append((driver, dict(channel=ch, nq=4, niw=2, nsh=2)))
        for st in (('eliash',), ('optics',), ('fq',), ('eliash', 'optics', 'fq')):
            out.append((driver, dict(channel=ch, nq=2, niw=0, nsh=0, store=st)))
        out.append((driver, dict(channel=ch, nq=2, niw=0, nsh=1, store=('eliash', 'fq'))))
    for rank in (0, 1):
        out.append((dc_driver, dict(niw=1, nsh=0, rank=rank)))
        out.append((dc_driver, dict(niw=0, nsh=1, rank=rank)))
    return out
