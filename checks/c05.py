"""C05 changes of the frequency notation of two-particle objects"""
import numpy as np
from dga import matsubara_frequencies as mf

EXPLANATION = 'every entry of the transformed object is compared with the required entry of the original (symbolic data)'
OUTSIDE = 'array sizes beyond those listed; objects whose bosonic range is too large for the fermionic one'


def pp(ctx, niw, niv, lead, iwn):
    m = ctx.cplx('m', tuple(lead) + (2 * niw + 1, 2 * niv, 2 * niv))
    got = mf.ph2pp_iwn(m, iwn_pp=iwn)
    n = min(niw // 3, niv // 3)
    want = ctx.zeros(tuple(lead) + (2 * n, 2 * n))
    for v in range(-n, n):
        for vp in range(-n, n):
            want[..., n + v, n + vp] = m[..., niw + v + vp + 1 - iwn, niv + v, niv + vp]
    ctx.eq(got, want, 'X_pp(w,v,v\') = X_ph(v+v\'+1-w,v,v\')')


def pp_all(ctx, niw, niv, lead):
    m = ctx.cplx('m', tuple(lead) + (2 * niw + 1, 2 * niv, 2 * niv))
    got = mf.ph2pp(m)
    n = min(niw // 3, niv // 3)
    nw = (2 * niw + 1) // 6
    want = ctx.zeros((2 * nw + 1,) + tuple(lead) + (2 * n, 2 * n))
    for w in range(-nw, nw + 1):
        for v in range(-n, n):
            for vp in range(-n, n):
                want[nw + w, ..., n + v, n + vp] = m[..., niw + v + vp + 1 - w, niv + v, niv + vp]
    ctx.eq(got, want, 'particle-particle notation, all pairing frequencies')


def ppc(ctx, niw, niv, lead):
    m = ctx.cplx('m', tuple(lead) + (2 * niw + 1, 2 * niv, 2 * niv))
    got = mf.ph2pp_wc(m)
    n = min(niw // 2, niv // 2)
    nw = (2 * niw + 1) // 4
    want = ctx.zeros((2 * nw + 1,) + tuple(lead) + (2 * n, 2 * n))
    for w in range(-nw, nw + 1):
        for v in range(-n, n):
            for vp in range(-n, n):
                want[nw + w, ..., n + v, n + vp] = -m[..., niw + v - vp, niv + v, niv + w - vp - 1]
    ctx.eq(got, want, 'crossed particle-particle notation')


def ppc_spin(ctx, niw, niv):
    d = ctx.cplx('d', (2 * niw + 1, 2 * niv, 2 * niv))
    m = ctx.cplx('m', (2 * niw + 1, 2 * niv, 2 * niv))
    a, b = mf.ph2pp_wc_md(d, m)
    n = min(niw // 2, niv // 2)
    nw = (2 * niw + 1) // 4
    wa, wb = ctx.zeros((2 * nw + 1, 2 * n, 2 * n)), ctx.zeros((2 * nw + 1, 2 * n, 2 * n))
    for w in range(-nw, nw + 1):
        for v in range(-n, n):
            for vp in range(-n, n):
                ix = (niw + v - vp, niv + v, niv + w - vp - 1)
                wa[nw + w, n + v, n + vp] = -(d[ix] + 3 * m[ix]) / 2
                wb[nw + w, n + v, n + vp] = -(d[ix] - m[ix]) / 2
    ctx.eq(a, wa, 'spin combination 1')
    ctx.eq(b, wb, 'spin combination 2')


def difference(ctx, niw, tail):
    """X(w) -> X(v-v')"""
    m = ctx.cplx('m', (2 * niw + 1,) + tuple(tail))
    got = mf.w_to_vmvp(m)
    n = niw // 2
    want = ctx.zeros((2 * n, 2 * n) + tuple(tail))
    for v in range(-n, n):
        for vp in range(-n, n):
            want[n + v, n + vp] = m[niw + v - vp]
    ctx.eq(got, want, 'bosonic object on the frequency transfer v-v\'')


def slices(ctx, n, cut, lead):
    g = ctx.cplx('g', tuple(lead) + (2 * n,))
    ws = [w for w in range(-(n - cut), n - cut + 1)]
    got = mf.wn_slices_gen(g, n_cut=cut, w=np.array(ws))
    want = ctx.zeros((len(ws),) + tuple(lead) + (2 * cut,))
    for i, w in enumerate(ws):
        for v in range(-cut, cut):
            want[i, ..., cut + v] = g[..., n + v - w]
    ctx.eq(got, want, 'G(v-w) windows')


def slices_shell(ctx, n, core, shell, lead):
    g = ctx.cplx('g', tuple(lead) + (2 * n,))
    ws = [w for w in range(-(n - core - shell), n - core - shell + 1)]
    got = mf.wn_slices_shell(g, n_shell=shell, n_core=core, w=np.array(ws))
    vs = list(range(-core - shell, -core)) + list(range(core, core + shell))
    want = ctx.zeros((len(ws),) + tuple(lead) + (2 * shell,))
    for i, w in enumerate(ws):
        for j, v in enumerate(vs):
            want[i, ..., j] = g[..., n + v - w]
    ctx.eq(got, want, 'G(v-w) in the shell windows')


def cases(tier):
    th = tier != 'quick'
    out = []
    for niw, niv in [(3, 3), (6, 6), (6, 3), (4, 7)] + ([(9, 9), (7, 12)] if th else []):
        for lead in ((), (2,)):
            for iwn in (-1, 0, 1):
                out.append((pp, dict(niw=niw, niv=niv, lead=lead, iwn=iwn)))
            if (2 * niw + 1) // 6 <= niw - 2 * min(niw // 3, niv // 3) + 1:
                out.append((pp_all, dict(niw=niw, niv=niv, lead=lead)))
    for niw, niv in [(2, 2), (2, 4), (3, 4), (4, 4), (5, 6)] + ([(6, 8), (8, 8)] if th else []):
        for lead in ((), (2,)):
            out.append((ppc, dict(niw=niw, niv=niv, lead=lead)))
        out.append((ppc_spin, dict(niw=niw, niv=niv)))
    for niw in (2, 3, 4, 5, 6):
        for tail in ((), (2,)):
            out.append((difference, dict(niw=niw, tail=tail)))
    for n, cut in [(2, 1), (3, 1), (4, 2), (5, 3)]:
        for lead in ((), (2,)):
            out.append((slices, dict(n=n, cut=cut, lead=lead)))
    for n, core, shell in [(3, 1, 1), (4, 1, 2), (5, 2, 2), (4, 0, 2), (5, 2, 1)]:
        for lead in ((), (2,)):
            out.append((slices_shell, dict(n=n, core=core, shell=shell, lead=lead)))
    return out
