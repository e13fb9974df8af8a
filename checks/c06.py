"""C06 bubble = -beta G G in every frequency notation, local and lattice"""
import numpy as np
from dga import bubble as bub, matsubara_frequencies as mf
from common import inv_sym, make_giwk, sym_g, roll, kmean, legs, all_q

EXPLANATION = 'the bubble routines run on symbolic Green\'s functions (no symmetry assumed) and symbolic beta'
OUTSIDE = 'grids and k meshes larger than listed'


def _loc(ctx, g, beta, niv, wl, nt):
    n = g.shape[-1] // 2
    out = ctx.zeros((len(wl), 2 * niv))
    for i, w in enumerate(wl):
        a, b = legs(nt, w)
        for v in range(-niv, niv):
            out[i, niv + v] = -beta * g[n + v + a] * g[n + v + b]
    return out


def _lat(ctx, gk, beta, niv, wl, nt, qs):
    n = gk.shape[-1] // 2
    out = ctx.zeros((len(qs), len(wl), 2 * niv))
    for iq, q in enumerate(qs):
        gq = roll(gk, q)
        for i, w in enumerate(wl):
            a, b = legs(nt, w)
            for v in range(-niv, niv):
                out[iq, i, niv + v] = -beta * kmean(gk[..., n + v + a] * gq[..., n + v + b])
    return out


def local(ctx, niv, wl, extra, nt):
    """generalised bubble and its 1/beta^2 contraction, object interface"""
    beta = ctx.pos('beta')
    n = niv + max(abs(w) for w in wl) + extra
    obj, g = make_giwk(ctx, (1, 1, 1), n, beta, symmetric=False)
    g = g[0, 0, 0]
    wl_a = np.array(wl)
    gen = bub.BubbleGenerator(wn=wl_a, giwk_obj=obj, freq_notation=nt)
    want = _loc(ctx, g, beta, niv, wl, nt)
    ctx.eq(gen.get_gchi0(niv), want, 'chi0(w,v) = -beta G(v+..) G(v+..)')
    ctx.eq(gen.get_chi0(niv), sum(want[:, j] for j in range(2 * niv)) / beta ** 2, 'chi0(w) = 1/beta^2 sum_v chi0(w,v)')
    for other in mf.KNOWN_FREQ_SHIFTS:
        ctx.eq(gen.get_gchi0(niv, freq_notation=other), _loc(ctx, g, beta, niv, wl, other), 'notation given per call')
    ctx.eq(gen.contract_legs(gen.get_gchi0(niv)), gen.get_chi0(niv), 'contracting the generalised bubble')
    full = gen.get_gchi0_vvp_full(gen.get_gchi0(niv))
    wf = ctx.zeros((len(wl), 2 * niv, 2 * niv))
    for j in range(2 * niv):
        wf[:, j, j] = want[:, j]
    ctx.eq(full, wf, 'diagonal embedding in (v,v\')')


def lattice(ctx, nk, niv, wl, extra, nt):
    beta = ctx.pos('beta')
    n = niv + max(abs(w) for w in wl) + extra
    obj, g = make_giwk(ctx, nk, n, beta, g=inv_sym(ctx.cplx('g', tuple(nk) + (2 * n,))))
    qs = all_q(nk)
    qs = qs + [tuple(-i for i in qs[-1]), (nk[0], nk[1] + 1, 0)]
    gen = bub.BubbleGenerator(wn=np.array(wl), giwk_obj=obj, freq_notation=nt)
    want = _lat(ctx, g, beta, niv, wl, nt, qs)
    got = gen.get_gchi0_q_list(niv, qs)
    ctx.eq(got, want, 'chi0(q,w,v) = -beta sum_k G(k,v+..) G(k-q,v+..)')
    for other in mf.KNOWN_FREQ_SHIFTS:
        ctx.eq(gen.get_gchi0_q_list(niv, qs[:2], freq_notation=other), _lat(ctx, g, beta, niv, wl, other, qs[:2]), 'notation per call')
    ctx.eq(gen.get_chi0_q_list(niv, qs), sum(want[..., j] for j in range(2 * niv)) / beta ** 2, 'chi0(q,w) contraction')


def local_limit(ctx, niv, wl, nk, nt):
    """momentum independent Green's function: every q carries the local bubble; q average = local bubble in general"""
    beta = ctx.pos('beta')
    n = niv + max(abs(w) for w in wl)
    gk = ctx.cplx('g', tuple(nk) + (2 * n,))
    obj, _ = make_giwk(ctx, nk, n, beta, g=gk)
    gen = bub.BubbleGenerator(wn=np.array(wl), giwk_obj=obj, freq_notation=nt)
    qs = all_q(nk)
    chi_q = gen.get_gchi0_q_list(niv, qs)
    ctx.eq(sum(chi_q[i] for i in range(len(qs))) / len(qs), gen.get_gchi0(niv), 'q average of the lattice bubble = local bubble')
    ctx.eq(gen.get_chi0_q_list(niv, qs), sum(chi_q[..., j] for j in range(2 * niv)) / beta ** 2,
           'contraction, for Green\'s functions without any symmetry')
    ctx.eq(sum(gen.get_chi0_q_list(niv, qs)[i] for i in range(len(qs))) / len(qs), gen.get_chi0(niv), 'same, contracted')


def sequence(ctx, nk, wl, nt):
    """one generator asked again and again for other windows, momenta and notations; earlier answers stay as they are"""
    beta = ctx.pos('beta')
    n = 3 + max(abs(w) for w in wl)
    obj, g = make_giwk(ctx, nk, n, beta, g=inv_sym(ctx.cplx('g', tuple(nk) + (2 * n,))))
    gl = obj.g_loc
    before = g.copy()
    gen = bub.BubbleGenerator(wn=np.array(wl), giwk_obj=obj, freq_notation=nt)
    qs = all_q(nk)
    kept = []
    for niv, ql, other in ((2, qs, 'plus'), (1, qs, 'minus'), (1, qs[::-1][:2], 'center'), (3, qs[-1:], None), (2, qs, None)):
        m = nt if other is None else other
        kw = {} if other is None else dict(freq_notation=other)
        wq, w = _lat(ctx, g, beta, niv, wl, m, ql), _loc(ctx, gl, beta, niv, wl, m)
        c, cq = sum(w[:, j] for j in range(2 * niv)) / beta ** 2, sum(wq[..., j] for j in range(2 * niv)) / beta ** 2
        got = [gen.get_gchi0_q_list(niv, ql, **kw), gen.get_gchi0(niv, **kw), gen.get_chi0(niv, **kw), gen.get_chi0_q_list(niv, ql, **kw)]
        ctx.eq(gen.contract_legs(got[1]), c, 'contraction')
        ctx.eq(gen.contract_legs(got[0]), cq, 'contraction at all momenta')
        kept.append((got, [wq, w, c, cq]))
    for got, want in kept:
        for x, y, t in zip(got, want, ('lattice', 'local', 'contracted', 'contracted at all momenta')):
            ctx.eq(x, y, t)
    ctx.eq(g, before, 'propagator unchanged')


def rejects(ctx, what):
    beta = ctx.pos('beta')
    obj, _ = make_giwk(ctx, (1, 1, 1), 2, beta)
    if what == 'notation':
        ctx.raises(ValueError, lambda: bub.BubbleGenerator(np.array([0]), obj, freq_notation='ph'), 'unknown notation')
    elif what == 'method':
        ctx.raises(ValueError, lambda: bub.BubbleGenerator(np.array([0]), obj, chi0_method='fft'), 'unknown method')
    else:
        ctx.raises(AssertionError, lambda: bub.BubbleGenerator(np.array([0, 1]), obj, is_full_wn=True), 'asymmetric full range')


def cases(tier):
    th = tier != 'quick'
    out = []
    for nt in mf.KNOWN_FREQ_SHIFTS:
        for niv in (1, 2):
            for wl in ([-2, -1, 0, 1, 2], [3], [2, -3, 0]):
                for ex in (0, 2):
                    out.append((local, dict(niv=niv, wl=wl, extra=ex, nt=nt)))
        for nk in ((2, 1, 1), (2, 2, 1), (3, 2, 1), (1, 2, 3)) + (((3, 3, 1), (2, 2, 2), (4, 2, 1)) if th else ()):
            for wl in ([-1, 0, 1], [2, -3]):
                for ex in (0, 1):
                    out.append((lattice, dict(nk=nk, niv=1, wl=wl, extra=ex, nt=nt)))
        out.append((lattice, dict(nk=(2, 2, 1), niv=2, wl=[-1, 0, 2], extra=1, nt=nt)))
        for nk, wl in (((2, 1, 1), [-1, 0, 2]), ((1, 3, 1), [1])):
            out.append((sequence, dict(nk=nk, wl=wl, nt=nt)))
        for nk in ((2, 2, 1), (3, 2, 1)):
            out.append((local_limit, dict(niv=1, wl=[-1, 0, 2], nk=nk, nt=nt)))
    for w in ('notation', 'method', 'range'):
        out.append((rejects, dict(what=w)))
    return out
