"""C07 exploiting the symmetry of the full bosonic range gives the same bubble"""
import numpy as np
from dga import bubble as bub, matsubara_frequencies as mf
from common import make_giwk, all_q

EXPLANATION = 'symbolic Green\'s functions with G(-v) = G(v)^* : the shortcut and the direct route are compared'
OUTSIDE = 'grids and k meshes larger than listed'


def local(ctx, niw, niv, nt):
    beta = ctx.pos('beta')
    obj, g = make_giwk(ctx, (1, 1, 1), niv + niw + 1, beta)
    wn = mf.wn(niw)
    a = bub.BubbleGenerator(wn=wn, giwk_obj=obj, is_full_wn=True, freq_notation=nt)
    b = bub.BubbleGenerator(wn=wn, giwk_obj=obj, is_full_wn=False, freq_notation=nt)
    ctx.eq(a.get_gchi0(niv), b.get_gchi0(niv), 'generalised bubble')
    ctx.eq(a.get_chi0(niv), b.get_chi0(niv), 'contracted bubble')
    ctx.eq(a.wn_pos, np.arange(0, niw + 1), 'non-negative half of the range')
    ctx.eq(a.get_chi0(niv, do_asympt=True), b.get_chi0(niv, do_asympt=True), 'with asymptotic correction')


def lattice(ctx, nk, niw, niv, nt):
    beta = ctx.pos('beta')
    obj, g = make_giwk(ctx, nk, niv + niw + 1, beta)
    wn = mf.wn(niw)
    a = bub.BubbleGenerator(wn=wn, giwk_obj=obj, is_full_wn=True, freq_notation=nt)
    b = bub.BubbleGenerator(wn=wn, giwk_obj=obj, is_full_wn=False, freq_notation=nt)
    qs = all_q(nk)
    ctx.eq(a.get_gchi0_q_list(niv, qs), b.get_gchi0_q_list(niv, qs), 'generalised bubble')
    ctx.eq(a.get_chi0_q_list(niv, qs), b.get_chi0_q_list(niv, qs), 'contracted bubble')


def conj_symmetry(ctx, nk, niw, niv, nt):
    """chi0(q,-w) = chi0(q,w)^* for the direct route; real at w = 0 after contraction for inversion symmetric G"""
    beta = ctx.pos('beta')
    obj, g = make_giwk(ctx, nk, niv + niw + 1, beta)
    wn = mf.wn(niw)
    b = bub.BubbleGenerator(wn=wn, giwk_obj=obj, freq_notation=nt)
    qs = all_q(nk)
    x = b.get_chi0_q_list(niv, qs)
    for w in range(niw + 1):
        ctx.eq(x[:, niw - w], np.conj(x[:, niw + w]), 'chi0(q,-w) = chi0(q,w)^*')


def cases(tier):
    th = tier != 'quick'
    out = []
    for nt in mf.KNOWN_FREQ_SHIFTS:
        for niw in (1, 2, 3) if not th else (1, 2, 3, 4):
            for niv in (1, 2):
                out.append((local, dict(niw=niw, niv=niv, nt=nt)))
        for nk in ((2, 1, 1), (2, 2, 1), (3, 2, 1), (1, 2, 3)) + (((3, 3, 1),) if th else ()):
            for niv in (1, 2):
                out.append((lattice, dict(nk=nk, niw=1, niv=niv, nt=nt)))
                if nt != 'center':  # the window is centred on v, not on the mirror point, when w is odd
                    out.append((conj_symmetry, dict(nk=nk, niw=1, niv=niv, nt=nt)))
            out.append((lattice, dict(nk=nk, niw=2, niv=1, nt=nt)))
    return out
