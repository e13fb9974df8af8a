"""C12 Fermi-Bose vertex, physical susceptibility and full vertex: all routes agree with the extended Bethe-Salpeter solution"""
import numpy as np
from dga import bubble as bub, matsubara_frequencies as mf, four_point as fp
from common import lfp, lfp4, ur, diag, extend, minv, total, make_giwk

EXPLANATION = ('symbolic irreducible vertices, bubbles or propagators; reference: the Bethe-Salpeter equation solved on the whole '
               'extended window')
OUTSIDE = 'core windows of more than one (thorough: two) positive frequencies, shells beyond two'


def setup(ctx, channel, niv, nsh, nw):
    beta, u = ctx.pos('beta'), ctx.real('u')
    n = 2 * (niv + nsh)
    gchi0 = ctx.cplx('gchi0', (nw, n))
    gam = ctx.cplx('gam', (nw, 2 * niv, 2 * niv))
    c = slice(nsh, n - nsh)
    ur_ = ur(channel, u) / beta ** 2
    full = [minv(ctx, diag(ctx, 1 / gchi0[w]) + extend(ctx, gam[w], ur_, nsh)) for w in range(nw)]
    return beta, u, gchi0, gam, c, full


def vrg(ctx, channel, niv, nsh, nw):
    """vrg(v) (1 - u chi) = sum_v' chi(v,v') / chi0(v)   (right) and the mirrored relation for the left vertex"""
    beta, u, gchi0, gam, c, full = setup(ctx, channel, niv, nsh, nw)
    g = lfp4(ctx, channel, gam.copy(), beta, u)
    aux = lfp.gchi_aux_core_from_gammar(g, gchi0[:, c])
    u_r = ur(channel, u)
    for ax in (-1, -2):
        v = lfp.vrg_from_gchi_aux(aux, gchi0[:, c], sum_axis=ax)
        for w in range(nw):
            chi = total(full[w]) / beta ** 2
            s = full[w].sum(axis=ax)[c] / gchi0[w, c]
            ctx.eq(v.mat[w] * (1 - u_r * chi), s, f'amputated vertex, sum over axis {ax}')
        ctx.true(v.channel == channel, 'channel kept')
        ctx.eq(v.wn, g.wn, 'frequencies kept')


def vrg_rescaled(ctx, channel, niv, nw):
    beta, u = ctx.pos('beta'), ctx.real('u')
    m = ctx.cplx('aux', (nw, 2 * niv, 2 * niv))
    gchi0 = ctx.cplx('gchi0', (nw, 2 * niv))
    cu, ca = ctx.cplx('cu', (nw,)), ctx.cplx('ca', (nw,))
    aux = lfp4(ctx, channel, m, beta, u)
    u_r = ur(channel, u)
    for ax in (-1, -2):
        v = lfp.vrg_from_gchi_aux_asympt(aux, gchi0, cu, ca, sum_axis=ax)
        b = lfp.vrg_from_gchi_aux(aux, gchi0, sum_axis=ax)
        for w in range(nw):
            ctx.eq(v.mat[w] * (1 - u_r * ca[w]), b.mat[w] * (1 - u_r * cu[w]), 'vertex times (1 - u chi) does not depend on chi')


def lattice_routes(ctx, channel, niv, nq, nw):
    """the lattice (several momenta) versions = the local definitions at every momentum"""
    beta, u = ctx.pos('beta'), ctx.real('u')
    m = ctx.cplx('aux', (nq, nw, 2 * niv, 2 * niv))
    gchi0 = ctx.cplx('gchi0', (nq, nw, 2 * niv))
    cu, ca = ctx.cplx('cu', (nq, nw)), ctx.cplx('ca', (nq, nw))
    u_r = ur(channel, u)
    m0 = m.copy()
    v = fp.vrg_from_gchi_aux(m, gchi0)
    va = fp.vrg_from_gchi_aux_asympt(m, gchi0, cu, ca, u, channel)
    lam = fp.lam_from_chir_q(m, gchi0, channel)
    lv = fp.vrg_q_tilde(lam, ca, u, channel)
    sign = 1 if channel == 'dens' else -1
    for q in range(nq):
        for w in range(nw):
            for x in range(2 * niv):
                s = sum(m0[q, w, x, y] for y in range(2 * niv)) / gchi0[q, w, x]
                ctx.eq(v[q, w, x], s, 'sum over the second fermionic frequency')
                ctx.eq(va[q, w, x] * (1 - u_r * ca[q, w]), s * (1 - u_r * cu[q, w]), 'rescaled to the physical susceptibility')
                ctx.eq(1 + sign * lam[q, w, x], s, '1 +- lambda')
                ctx.eq(lv[q, w, x] * (1 - u_r * ca[q, w]), s, 'vertex through lambda')
    ctx.eq(m, m0, 'input unchanged')


def lam_route(ctx, channel, niv, nw):
    """vertex from chi via lambda = vertex via the auxiliary susceptibility"""
    beta, u = ctx.pos('beta'), ctx.real('u')
    m = ctx.cplx('chi', (nw, 2 * niv, 2 * niv))
    gchi0 = ctx.cplx('gchi0', (nw, 2 * niv))
    chi = lfp4(ctx, channel, m.copy(), beta, u)
    lam = lfp.lam_from_chir(chi, gchi0)
    sign = 1 if channel == 'dens' else -1
    for w in range(nw):
        for v in range(2 * niv):
            s = sum(m[w, v, x] for x in range(2 * niv)) / gchi0[w, v]
            ctx.eq(1 + sign * lam.mat[w, v], s, '1 +- lambda = sum chi / chi0')
    a = lfp.vrg_from_lam(lam, chi.contract_legs())
    b = lfp.vrg_from_gchi_aux(lfp.gchi_aux_core(chi), gchi0)
    ctx.eq(a.mat, b.mat, 'both routes')


def lam_tilde(ctx, channel, niv, nsh, nw):
    """shell corrected lambda and susceptibility from the core part of the extended solution"""
    beta, u, gchi0, gam, c, full = setup(ctx, channel, niv, nsh, nw)
    m = ctx.zeros((nw, 2 * niv, 2 * niv))
    for w in range(nw):
        m[w] = full[w][c, c]
    chi = lfp4(ctx, channel, m, beta, u)
    lam = lfp.lam_from_chir(chi, gchi0[:, c])
    shell = (gchi0.sum(axis=-1) - gchi0[:, c].sum(axis=-1)) / beta ** 2
    lt = lfp.get_lam_tilde(lam, shell)
    sign = 1 if channel == 'dens' else -1
    ct = lfp.get_chir_tilde(lt, chi.contract_legs(), shell, gchi0[:, c], u)
    qc = fp.chir_tilde(chi.contract_legs()[None], fp.get_lam_tilde(lam.mat[None], shell[None], u, channel), shell[None],
                       gchi0[None, :, c], beta, u, channel)
    for w in range(nw):
        tot = total(full[w]) / beta ** 2
        s = full[w].sum(axis=-1)[c] / gchi0[w, c]
        ctx.eq(1 + sign * lt.mat[w], s, 'lambda including the shell')
        ctx.eq(ct[w], tot, 'susceptibility including the shell')
        ctx.eq(qc[0, w], tot, 'susceptibility including the shell (lattice routine)')
        v = lfp.vrg_from_lam(lt, ct)
        ctx.eq(v.mat[w] * (1 - ur(channel, u) * tot), s, 'vertex including the shell')
    qv = fp.vrg_q_tilde(fp.get_lam_tilde(lam.mat[None], shell[None], u, channel), ct[None], u, channel)
    ctx.eq(qv[0], v.mat, 'lattice routine')


def full_vertex(ctx, channel, niv, nsh, nw):
    """F from vertex + susceptibility = amputated extended solution in the core"""
    beta, u, gchi0, gam, c, full = setup(ctx, channel, niv, nsh, nw)
    g = lfp4(ctx, channel, gam.copy(), beta, u)
    g0 = gchi0[:, c]
    aux = lfp.gchi_aux_core_from_gammar(g, g0)
    vr, vl = lfp.vrg_from_gchi_aux(aux, g0, -1), lfp.vrg_from_gchi_aux(aux, g0, -2)
    chi = ctx.arr([total(full[w]) / beta ** 2 for w in range(nw)])
    f = lfp.fob2_from_vrg_and_chir(aux, vr, vl, chi, g0)
    want = ctx.zeros((nw, 2 * niv, 2 * niv))
    for w in range(nw):
        d = diag(ctx, 1 / g0[w])
        want[w] = d - d @ full[w][c, c] @ d
    ctx.eq(f.mat, want, 'amputated connected part of the extended solution')
    ext_f = lfp.fob2_from_gamob2_urange(g, gchi0)
    ctx.eq(ext_f.mat[:, c, c], want, 'core of the vertex built on the extended window')
    # ladder components
    f1, f2 = fp.ladder_vertex_from_chi_aux_components(gchi_aux=aux.mat, vrg=vr.mat, gchi0=g0, beta=beta, u_r=ur(channel, u))
    for w in range(nw):
        d = diag(ctx, 1 / g0[w])
        ctx.eq(f1[w], beta ** 2 * (d - d @ aux.mat[w] @ d), 'chi-independent component')
        ctx.eq(f2[w], ur(channel, u) * np.array([[x * y for y in vr.mat[w]] for x in vr.mat[w]]), 'component multiplying 1 - u chi')
    # for a vertex symmetric under exchange of the fermionic frequencies left and right vertex coincide


def ladder_sym(ctx, channel, niv, nsh):
    beta, u = ctx.pos('beta'), ctx.real('u')
    n = 2 * (niv + nsh)
    gchi0 = ctx.cplx('gchi0', (1, n))
    gam = ctx.cplx('gam', (1, 2 * niv, 2 * niv))
    for i in range(2 * niv):
        for j in range(i):
            gam[0, i, j] = gam[0, j, i]
    c = slice(nsh, n - nsh)
    u_r = ur(channel, u)
    full = minv(ctx, diag(ctx, 1 / gchi0[0]) + extend(ctx, gam[0], u_r / beta ** 2, nsh))
    g = lfp4(ctx, channel, gam.copy(), beta, u)
    g0 = gchi0[:, c]
    aux = lfp.gchi_aux_core_from_gammar(g, g0)
    vr = lfp.vrg_from_gchi_aux(aux, g0)
    chi = total(full) / beta ** 2
    d = diag(ctx, 1 / g0[0])
    want = beta ** 2 * (d - d @ full[c, c] @ d)
    f1, f2 = fp.ladder_vertex_from_chi_aux_components(gchi_aux=aux.mat, vrg=vr.mat, gchi0=g0, beta=beta, u_r=u_r)
    ctx.eq(f1[0] + (1 - u_r * chi) * f2[0], want, 'F = f1 + (1 - u chi) f2')
    fdc = lfp.get_f_dc_asympt(vr, aux, ctx.arr([chi]), g0, u)
    ctx.eq(fdc.mat[0], want, 'double counting vertex')


def pipeline(ctx, channel, niv, nsh, niw, full_w):
    """the driver routine on a genuine Green's function"""
    beta, u = ctx.pos('beta'), ctx.real('u')
    obj, gl = make_giwk(ctx, (1, 1, 1), niv + nsh + niw, beta)
    wn = mf.wn(niw)
    bg = bub.BubbleGenerator(wn=wn, giwk_obj=obj, is_full_wn=full_w)
    gam = ctx.cplx('gam', (len(wn), 2 * niv, 2 * niv))
    g = lfp4(ctx, channel, gam.copy(), beta, u)
    v, chi = lfp.get_vrg_and_chir_tilde_from_gammar_urange(g, bg, niv_shell=nsh)
    gchi0 = bg.get_gchi0(niv + nsh)
    n = 2 * (niv + nsh)
    c = slice(nsh, n - nsh)
    u_r = ur(channel, u)
    for w in range(len(wn)):
        full = minv(ctx, diag(ctx, 1 / gchi0[w]) + extend(ctx, gam[w], u_r / beta ** 2, nsh))
        tot = total(full) / beta ** 2
        ctx.eq(chi[w], tot, 'physical susceptibility')
        ctx.eq(v.mat[w] * (1 - u_r * tot), full.sum(axis=-1)[c] / gchi0[w, c], 'vertex')
    v2, chi2 = lfp.get_vrg_and_chir_tilde_from_gammar_uasympt(g, bg, niv_shell=nsh)
    corr = bg.get_asymptotic_correction(niv + nsh)
    ctx.eq(chi2, chi + corr, 'asymptotic version adds the bubble tail')
    ctx.eq(v2.mat * (1 - u_r * chi2)[:, None], v.mat * (1 - u_r * chi)[:, None], 'asymptotic version rescales the vertex')
    # starting from the generalised susceptibility of the core window
    x = lfp4(ctx, channel, np.array([minv(ctx, diag(ctx, 1 / gchi0[w, c]) + gam[w]) for w in range(len(wn))]) if ctx.sym else
             np.array([minv(ctx, diag(ctx, 1 / gchi0[w, c]) + gam[w]) for w in range(len(wn))], dtype=complex), beta, u)
    v3, chi3 = lfp.get_vrg_and_chir_tilde_from_chir_uasympt(x, bg, u, niv_shell=nsh)
    ctx.eq(chi3, chi2, 'susceptibility from the generalised one')
    ctx.eq(v3.mat, v2.mat, 'vertex from the generalised susceptibility')


def cases(tier):
    th = tier != 'quick'
    out = []
    for ch in ('dens', 'magn'):
        out.append((lattice_routes, dict(channel=ch, niv=1, nq=2, nw=2)))
        out.append((lattice_routes, dict(channel=ch, niv=2, nq=1, nw=1)))
        out.append((lattice_routes, dict(channel=ch, niv=2, nq=3, nw=5)))
        out.append((vrg, dict(channel=ch, niv=2, nsh=1, nw=1)))
        out.append((pipeline, dict(channel=ch, niv=2, nsh=0, niw=0, full_w=True)))
        if th or ch == 'magn':
            out.append((full_vertex, dict(channel=ch, niv=2, nsh=1, nw=1)))
        if th:
            out.append((lam_tilde, dict(channel=ch, niv=2, nsh=1, nw=1), dict(time_limit=850)))
            out.append((ladder_sym, dict(channel=ch, niv=2, nsh=1), dict(time_limit=850)))
        for nw in (1, 3):
            for nsh in (0, 1, 2) if nw == 1 or th else (0, 1):
                out.append((vrg, dict(channel=ch, niv=1, nsh=nsh, nw=nw)))
                out.append((lam_tilde, dict(channel=ch, niv=1, nsh=nsh, nw=nw)))
                out.append((full_vertex, dict(channel=ch, niv=1, nsh=nsh, nw=nw)))
            out.append((lam_route, dict(channel=ch, niv=1, nw=nw)))
            if nw == 1:
                out.append((lam_route, dict(channel=ch, niv=2, nw=nw)))
                out.append((vrg, dict(channel=ch, niv=2, nsh=0, nw=1)))
                out.append((full_vertex, dict(channel=ch, niv=2, nsh=0, nw=1)))
            for niv in (1, 2):
                out.append((vrg_rescaled, dict(channel=ch, niv=niv, nw=nw)))
        for nsh in (0, 1, 2):
            out.append((ladder_sym, dict(channel=ch, niv=1, nsh=nsh)))
        for fw in (True, False):
            out.append((pipeline, dict(channel=ch, niv=1, nsh=1, niw=0 if not fw else 1, full_w=fw)))
            out.append((pipeline, dict(channel=ch, niv=1, nsh=0, niw=1, full_w=fw)))
    return out
