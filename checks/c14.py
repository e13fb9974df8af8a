"""C14 local Schwinger-Dyson equation"""
import numpy as np
from dga import four_point as fp, high_level_routines as hlr, bubble as bub, two_point as twop, plotting
from common import lfp, lfp3, lfp4, ur, diag, extend, minv, total, make_giwk, make_cfg, no_plots, Comm, Store, replaced, fits

EXPLANATION = ('symbolic vertices, susceptibilities, propagators, temperature, interaction and filling; reference: explicit sums; the '
               'route through the full vertex and the route through the Fermi-Bose vertex are compared')
OUTSIDE = 'frequency windows larger than listed'


def freqs(kind):
    return {'w0': [0], 'w3': [-1, 0, 1], 'pos': [0, 1], 'two': [-2, 1]}[kind]


def gat(g, v):
    return g[..., g.shape[-1] // 2 + v]


def vrg_form(ctx, channel, kind, niv, extra):
    beta, u = ctx.pos('beta'), ctx.real('u')
    ws = freqs(kind)
    v = ctx.cplx('vrg', (len(ws), 2 * niv))
    chi = ctx.cplx('chi', (len(ws),))
    g = ctx.cplx('g', (2 * (niv + 2 + extra),))
    o = lfp3(ctx, channel, v, beta, u, np.array(ws))
    u_r = ur(channel, u)
    want = []
    for n in range(-niv, niv):
        t = 0
        for i, w in enumerate(ws):
            t = t + (1 - (1 - u_r * chi[i]) * v[i, n + niv]) * gat(g, n - w)
        want.append(u_r / (2 * beta) * t)
    ctx.eq(lfp.schwinger_dyson_vrg(o, chi, g), want, 'u/2beta sum_w (1 - (1 - u chi) vrg) G(v-w)')
    ctx.eq(lfp.schwinger_dyson_core_urange(o, chi, g, 0), want, 'without shell')


def shell_form(ctx, channel, kind, niv, nsh):
    beta, u = ctx.pos('beta'), ctx.real('u')
    ws = freqs(kind)
    v = ctx.cplx('vrg', (len(ws), 2 * niv))
    chi = ctx.cplx('chi', (len(ws),))
    g = ctx.cplx('g', (2 * (niv + nsh + 2),))
    o = lfp3(ctx, channel, v, beta, u, np.array(ws))
    sh = []
    for n in list(range(-niv - nsh, -niv)) + list(range(niv, niv + nsh)):
        t = 0
        for i, w in enumerate(ws):
            t = t + chi[i] * gat(g, n - w)
        sh.append(u * u / (2 * beta) * t)
    for m in (lfp, fp):
        ctx.eq(m.schwinger_dyson_shell(chi, g, beta, u, nsh, niv, np.array(ws)), sh, 'tail contribution')
    core = list(lfp.schwinger_dyson_vrg(o, chi, g))
    ctx.eq(lfp.schwinger_dyson_core_urange(o, chi, g, nsh), sh[:nsh] + core + sh[nsh:], 'tail around the core')
    # unit vertex: core and tail are the same function
    one = lfp3(ctx, channel, ctx.zeros((len(ws), 2 * (niv + nsh))) + 1, beta, u, np.array(ws))
    whole = lfp.schwinger_dyson_vrg(one, chi, g)
    ctx.eq(list(whole[:nsh]) + list(whole[nsh + 2 * niv:]), sh, 'tail = core expression with unit vertex')


def full(ctx, kind, niv, nsh):
    beta, u, n = ctx.pos('beta'), ctx.real('u'), ctx.real('n')
    ws = freqs(kind)
    vd, vm = ctx.cplx('vd', (len(ws), 2 * niv)), ctx.cplx('vm', (len(ws), 2 * niv))
    cd, cm = ctx.cplx('cd', (len(ws),)), ctx.cplx('cm', (len(ws),))
    g = ctx.cplx('g', (2 * (niv + nsh + 2),))
    od, om = lfp3(ctx, 'dens', vd, beta, u, np.array(ws)), lfp3(ctx, 'magn', vm, beta, u, np.array(ws))
    got = lfp.schwinger_dyson_full(od, om, cd, cm, g, n, niv_shell=nsh)
    want = []
    for k in range(-niv - nsh, niv + nsh):
        t = 0
        for i, w in enumerate(ws):
            if -niv <= k < niv:
                a = u * (1 - (1 - u * cd[i]) * vd[i, k + niv]) - u * (1 - (1 + u * cm[i]) * vm[i, k + niv])
            else:
                a = u * u * (cd[i] + cm[i])
            t = t + a * gat(g, k - w)
        want.append(u * n / 2 + t / (2 * beta))
    ctx.eq(got, want, 'Hartree + density + magnetic contribution')


def f_form(ctx, kind, niv, mode):
    """equation of motion with the full vertex F_updo = (F_d - F_m)/2 = Fermi-Bose form"""
    beta, u = ctx.pos('beta'), ctx.real('u')
    ws = freqs(kind)
    nw = len(ws)
    g0 = ctx.cplx('gchi0', (nw, 2 * niv))
    g = ctx.cplx('g', (2 * (niv + 2),))
    if mode == 'explicit':
        f = ctx.cplx('f', (nw, 2 * niv, 2 * niv))
        o = lfp4(ctx, 'updo', f, beta, u, np.array(ws))
        want = []
        for n in range(-niv, niv):
            t = 0
            for i, w in enumerate(ws):
                for x in range(2 * niv):
                    t = t + f[i, n + niv, x] * g0[i, x] * gat(g, n - w)
            want.append(u / beta * t)
        ctx.eq(lfp.schwinger_dyson_f(o, g0, g), want, 'u/beta sum F chi0 G')
        return
    tot = 0
    fs = {}
    for ch in ('dens', 'magn'):
        c = lfp4(ctx, ch, ctx.cplx('chi' + ch, (nw, 2 * niv, 2 * niv)), beta, u, np.array(ws))
        fs[ch] = lfp.fob2_from_gchir(c, g0)
        v = lfp.vrg_from_gchi_aux(lfp.gchi_aux_core(c), g0)
        tot = tot + lfp.schwinger_dyson_vrg(v, c.contract_legs(), g)
    fu = lfp4(ctx, 'updo', (fs['dens'].mat - fs['magn'].mat) / 2, beta, u, np.array(ws))
    ctx.eq(lfp.schwinger_dyson_f(fu, g0, g), tot, 'both forms of the equation of motion')


def driver(ctx, niw, niv, nsh, mode, free=('dens', 'magn')):
    """from the two-particle Green's function to the self-energy"""
    beta, u, n = ctx.pos('beta'), ctx.real('u'), ctx.real('n')
    obj, gl = make_giwk(ctx, (1, 1, 1), niv + nsh + niw, beta)
    g = gl[0, 0, 0]
    cfg = make_cfg(ctx, nk=(2, 1, 1), niw=niw, niv=niv, nsh=nsh, beta=beta, u=u, n=n,
                   comm=Comm(1, 2) if mode == 'rank1' else Comm(0, 1))
    saved = Store()
    cfg.sys.siw = ctx.cplx('siw', (2 * (niv + nsh),))
    cfg.verbosity = 0 if mode == 'quiet' else 1
    nw = 2 * niw + 1
    N = 2 * (niv + nsh)
    c = slice(nsh, N - nsh)
    g0 = bub.BubbleGenerator(wn=cfg.box.wn, giwk_obj=obj).get_gchi0(niv + nsh)
    gam, full_, g2 = {}, {}, {}
    for ch in ('dens', 'magn'):
        gam[ch] = ctx.cplx('gam' + ch, (nw, 2 * niv, 2 * niv))
        if ch not in free:
            gam[ch] = gam[ch] * 0
        full_[ch] = [minv(ctx, diag(ctx, 1 / g0[w]) + extend(ctx, gam[ch][w], ur(ch, u) / beta ** 2, nsh)) for w in range(nw)]
        m = ctx.zeros((nw, 2 * niv, 2 * niv))
        for w in range(nw):
            m[w] = full_[ch][w][c, c] / beta
            if ch == 'dens' and w == niw:
                gc = g[g.shape[-1] // 2 - niv:g.shape[-1] // 2 + niv]
                for a in range(2 * niv):
                    for b in range(2 * niv):
                        m[w, a, b] = m[w, a, b] + 2 * gc[a] * gc[b]
        g2[ch] = lfp4(ctx, ch, m, beta, u)
    fig = {}
    figures = [(plotting, k, fits(getattr(plotting, k), lambda k=k, **a: fig.setdefault(k, []).append(a)))
               for k in ('default_gchi_plots', 'default_gamma_plots', 'chi_checks', 'sigma_loc_checks')]
    with no_plots(), replaced((np, 'save', saved.save), *figures):
        r = hlr.local_sde_from_g2(g2['dens'], g2['magn'], obj, cfg)
    gd, gm, cd, cm, vd, vm, siw = r
    ctx.eq(gd.mat, gam['dens'], 'irreducible density vertex')
    ctx.eq(gm.mat, gam['magn'], 'irreducible magnetic vertex')
    for ch, cc, vv in (('dens', cd, vd), ('magn', cm, vm)):
        for w in range(nw):
            t = total(full_[ch][w]) / beta ** 2
            ctx.eq(cc[w], t, f'{ch} susceptibility')
            ctx.eq(vv.mat[w] * (1 - ur(ch, u) * t), full_[ch][w].sum(axis=-1)[c] / g0[w, c], f'{ch} vertex')
    # equation of motion with the extended solution
    want = []
    for k in range(-niv, niv):
        t = 0
        for i, w in enumerate(range(-niw, niw + 1)):
            a = 0
            for ch in ('dens', 'magn'):
                a = a + ur(ch, u) * (1 - sum(full_[ch][i][nsh + k + niv, x] for x in range(N)) / g0[i, nsh + k + niv])
            t = t + a * gat(g, k - w)
        want.append(u * n / 2 + t / (2 * beta))
    ctx.eq(siw[nsh:N - nsh], want, 'self-energy in the core')
    ctx.eq(np.shape(siw), (N,), 'tail attached')
    if mode == 'verbose':
        for name, x in (('siw_sde_full', siw), ('chi_dens_loc', cd), ('chi_magn_loc', cm), ('gamma_dens', gam['dens']), ('gamma_magn', gam['magn'])):
            ctx.eq(saved[cfg.output_path + name], x, 'stored ' + name)
        ctx.true(sorted(fig) == ['chi_checks', 'default_gamma_plots', 'default_gchi_plots', 'sigma_loc_checks'] and all(len(x) == 1 for x in fig.values()), 'figures')
        fig = {k: x[0] for k, x in fig.items()}
        for ch in ('dens', 'magn'):
            for w in range(nw):
                ctx.eq(fig['default_gchi_plots']['gchi_' + ch].mat[w], full_[ch][w][c, c], 'figure: generalised susceptibility')
            ctx.eq(fig['default_gamma_plots']['gamma_' + ch].mat, gam[ch], 'figure: irreducible vertex')
        for k, x in (('chi_dens', cd), ('chi_magn', cm)):
            ctx.eq(fig['chi_checks'][k][0], x, 'figure: susceptibility')
        ctx.true(fig['chi_checks']['green'] is obj, 'figure: propagator')
        ctx.eq(fig['sigma_loc_checks']['siw_arr'][0], siw, 'figure: self-energy')
        ctx.eq(fig['sigma_loc_checks']['siw_arr'][1], cfg.sys.siw, 'figure: self-energy of the input')
        ctx.eq(fig['sigma_loc_checks']['beta'], beta, 'figure: temperature')
    else:
        ctx.true(not fig, 'figures on request, by the first process')
        ctx.true(not saved, 'only the first process stores')


def cases(tier):
    th = tier != 'quick'
    out = []
    for kind in ('w0', 'w3', 'pos', 'two'):
        for ch in ('dens', 'magn'):
            for niv, ex in ((1, 0), (2, 0), (2, 1)) + (((3, 0),) if th else ()):
                out.append((vrg_form, dict(channel=ch, kind=kind, niv=niv, extra=ex)))
            for niv, nsh in ((1, 1), (2, 1), (1, 2)):
                out.append((shell_form, dict(channel=ch, kind=kind, niv=niv, nsh=nsh)))
        for niv, nsh in ((1, 0), (1, 1), (2, 2)):
            out.append((full, dict(kind=kind, niv=niv, nsh=nsh)))
        out.append((f_form, dict(kind=kind, niv=1, mode='explicit')))
        out.append((f_form, dict(kind=kind, niv=2, mode='explicit')))
        out.append((f_form, dict(kind=kind, niv=1, mode='routes')))
    for mode in ('quiet', 'rank1', 'verbose'):
        out.append((driver, dict(niw=0, niv=1, nsh=0, mode=mode)))
        if mode == 'verbose':
            continue
        out.append((driver, dict(niw=0, niv=1, nsh=1, mode=mode)))
        out.append((driver, dict(niw=1, niv=1, nsh=0, mode=mode, free=['magn'])))
        out.append((driver, dict(niw=1, niv=1, nsh=0, mode=mode, free=['dens'])))
        if th:
            out.append((driver, dict(niw=1, niv=1, nsh=0, mode=mode), dict(time_limit=900)))
            out.append((driver, dict(niw=1, niv=1, nsh=1, mode=mode, free=['magn']), dict(time_limit=900)))
    return out
