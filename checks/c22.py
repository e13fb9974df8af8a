"""C22 start vectors and symmetrisation of the Eliashberg equation"""
import numpy as np
from dga import eliashberg_equation as eq, config
from common import make_cfg, make_giwk, no_plots, replaced, fits, random_numbers

EXPLANATION = ('symbolic pairing vertices, propagators and momenta (trigonometric functions of symbolic angles); the power iteration is replaced '
               'by a recorder, so that every quantity handed to it is compared')
OUTSIDE = 'meshes and windows larger than listed'


def wave(ctx, kind, kx, ky):
    if kind == 'd-wave':
        return np.cos(ky) - np.cos(kx)
    return np.sin(ky if kind == 'p-wave-y' else kx)


def start(ctx, nk, niv, kind, parity):
    kx, ky, kz = (ctx.angle('k' + a, (n,)) for a, n in zip('xyz', nk))
    g = eq.get_gap_start(shape=tuple(nk) + (2 * niv,), k_type=kind, v_type=parity, k_grid=(kx, ky, kz))
    s = 1 if parity == 'even' else -1
    for k in np.ndindex(*nk):
        w = wave(ctx, kind, kx[k[0]], ky[k[1]])
        for v in range(-niv, niv):
            ctx.eq(g[k + (v + niv,)], w if v >= 0 else s * w, 'form factor and parity in frequency')


def random(ctx, nk, niv, kind, parity):
    """unknown kinds start from random numbers, the requested parity is still enforced"""
    shape = tuple(nk) + (2 * niv,)
    rnd = ctx.real('r', shape)
    kx, ky, kz = (ctx.angle('k' + a, (n,)) for a, n in zip('xyz', nk))
    with random_numbers(rnd):
        g = eq.get_gap_start(shape=shape, k_type=kind, v_type=parity, k_grid=(kx, ky, kz))
    s = {'even': 1, 'odd': -1}.get(parity)
    for v in range(-niv, niv):
        ctx.eq(g[..., v + niv], rnd[..., v + niv] if v >= 0 or s is None else s * rnd[..., v + 2 * niv], 'random start')


def symmetrize(ctx, nk, niv):
    shape = tuple(nk) + (2 * niv, 2 * niv)
    g = ctx.cplx('gam', shape)
    keep = g.copy()
    for ch, s in (('sing', 1), ('trip', -1)):
        r = eq.symmetrize_gamma(g, ch)
        for v in range(-niv, niv):
            ctx.eq(r[..., v + niv], (g[..., v + niv] + s * g[..., -v - 1 + niv]) / 2, 'singlet even, triplet odd in v\'')
        ctx.eq(eq.symmetrize_gamma(r, ch), r, 'idempotent')
    ctx.eq(eq.symmetrize_gamma(g, 'sing') + eq.symmetrize_gamma(g, 'trip'), g, 'parts add up')
    ctx.eq(g, keep, 'input unchanged')
    ctx.raises(ValueError, lambda: eq.symmetrize_gamma(g, 'other'), 'unknown channel')


class Recorder:
    def __init__(self, **kw):
        self.kw = kw


def equation(ctx, nk, niw, niv, extra, channel, sym, shift, verb):
    beta = ctx.pos('beta')
    nk = tuple(nk)
    cfg = make_cfg(ctx, nk=nk, niw=niw, niv=niv, beta=beta, pairing=dict(k_sym='d-wave', sym_sing=sym, sym_trip=sym, eps=0.25, max_count=17, n_eig=3))
    cfg.verbosity = verb
    npp = min(niw, niv) // 2
    f = ctx.cplx('F', nk + (2 * npp, 2 * npp))
    names, drawn = [], []
    cfg.eliash.load_data = lambda name: (names.append(name), f.copy())[1]
    cfg.eliash.output_path = '/nonexistent-output/'
    g, _ = make_giwk(ctx, nk, niv + extra, beta)
    with replaced((eq, 'EliashberPowerIteration', Recorder), (eq.lfp, 'plot_fourpoint_nu_nup', fits(eq.lfp.plot_fourpoint_nu_nup, lambda **k: drawn.append(k)))):
        r = eq.linear_eliashberg(cfg, g, channel, shift_mat=shift).kw
    ctx.true(names == [f'F_{channel}_pp'], 'vertex of the channel')
    ctx.eq(r['gk'], g.core[..., niv + extra - npp:niv + extra + npp], 'propagator on the window of the vertex')
    ctx.eq(r['norm'], beta * int(np.prod(nk)), 'normalisation')
    s = 1 if channel == 'sing' else -1
    want = -(f + s * np.flip(f, -1)) / 2 if sym else -f
    ctx.eq(r['gamma'], want, 'pairing vertex enters with a minus sign, symmetrised on request')
    ctx.true(len(drawn) == (verb > 0), 'figure of the vertex on request')
    for x in drawn:
        ctx.eq(x['mat'], sum(want[k] for k in np.ndindex(*nk)) / int(np.prod(nk)), 'figure: local part of the vertex')
        ctx.true(x['name'] == f'Gamma_{channel}_pp_loc' and x['pdir'] == cfg.eliash.output_path and x['do_save'], 'figure under its name')
    grid = cfg.lattice.q_grid
    for k in np.ndindex(*nk):
        for v in range(-npp, npp):
            w = wave(ctx, 'd-wave', grid.kx[k[0]], grid.ky[k[1]])
            ctx.eq(r['gap0'][k + (v + npp,)], w if v >= 0 or channel == 'sing' else -w, 'd-wave: even singlet, odd triplet')
    ctx.true(r['eps'] == 0.25 and r['max_count'] == 17 and r['n_eig'] == 3 and r['shift_mat'] == shift, 'parameters')


def unknown(ctx, nk):
    beta = ctx.pos('beta')
    cfg = make_cfg(ctx, nk=nk, niw=2, niv=2, beta=beta)
    g, _ = make_giwk(ctx, nk, 2, beta)
    ctx.raises(ValueError, lambda: eq.linear_eliashberg(cfg, g, 'other'), 'unknown channel')


def guess(ctx, k_sym):
    """a singlet gap is symmetric, a triplet gap antisymmetric under exchange of (k, v)"""
    c = config.EliashbergConfig(dict(k_sym=k_sym))
    sing, trip = {'d-wave': ('even', 'odd'), 'p-wave-x': ('odd', 'even'), 'p-wave-y': ('odd', 'even')}.get(k_sym, ('random', 'random'))
    for g, v in ((c.gap0_sing, sing), (c.gap0_trip, trip)):
        ctx.true(g['k'] == k_sym and g['v'] == v, 'parity of the start vector')


def cases(tier):
    th = tier != 'quick'
    out = []
    for nk, niv in (((2, 2, 1), 1), ((3, 2, 2), 2)):
        for kind in ('d-wave', 'p-wave-x', 'p-wave-y'):
            for par in ('even', 'odd'):
                out.append((start, dict(nk=nk, niv=niv, kind=kind, parity=par)))
        for kind, par in (('other', 'even'), ('other', 'odd'), ('other', 'random'), ('d-wave', 'random')):
            out.append((random, dict(nk=nk, niv=niv, kind=kind, parity=par)))
        out.append((symmetrize, dict(nk=nk, niv=niv)))
    for ch in ('sing', 'trip'):
        for sym in (True, False):
            for nk, niw, niv, ex in (((2, 2, 1), 2, 2, 0), ((3, 1, 1), 4, 5, 1), ((1, 2, 3), 2, 2, 0)):
                out.append((equation, dict(nk=nk, niw=niw, niv=niv, extra=ex, channel=ch, sym=sym, shift=sym, verb=int(not sym))))
    out.append((unknown, dict(nk=(1, 1, 1))))
    for k in ('d-wave', 'p-wave-x', 'p-wave-y', 'random'):
        out.append((guess, dict(k_sym=k)))
    return out
