"""C24 vertex part of the optical conductivity"""
import numpy as np
from dga import optics, brillouin_zone as bz, matsubara_frequencies as mf
from common import make_giwk
from c23 import ham, velocity

EXPLANATION = ('symbolic conductivity vertices, propagators, hopping amplitudes and temperature; reference: the documented sum over momentum '
               'transfer, bosonic and fermionic frequencies written out')
OUTSIDE = 'meshes, windows and frequencies beyond the listed ones'


def reference(ctx, f, la, lb, g, beta, w, wpn, qs, nktot):
    nk = la.shape
    niv, nv = g.shape[-1] // 2, f.shape[-1] // 2
    t = 0
    for i, q in enumerate(qs):
        for k in np.ndindex(*nk):
            p = tuple((a + b) % n for a, b, n in zip(k, q, nk))
            for j, wp in enumerate(wpn):
                for v in range(-nv, nv):
                    x = v + niv
                    t = t + la[k] * lb[p] * g[k + (x,)] * g[k + (x - w,)] * g[p + (x - wp,)] * g[p + (x - wp - w,)] * f[i, j, v + nv]
    return -2 * t / (beta ** 2 * nktot * int(np.prod(nk)))


def single(ctx, nk, qs, wpn, w, niv, nv):
    nk = tuple(nk)
    g, la, lb, beta = ctx.cplx('g', nk + (2 * niv,)), ctx.cplx('la', nk), ctx.cplx('lb', nk), ctx.pos('beta')
    f = ctx.cplx('f', (len(qs), len(wpn), 2 * nv))
    keep = g.copy(), la.copy(), lb.copy(), f.copy()
    n = ctx.pos('nktot')
    ctx.eq(optics.get_chijj_vertex(f, la, lb, g, beta, w, wpn, qs, n), reference(ctx, f, la, lb, g, beta, w, wpn, qs, n), 'vertex part')
    for a, b in zip((g, la, lb, f), keep):
        ctx.eq(a, b, 'input unchanged')


def full(ctx, nk, qs, niw_v, niw_c, nv, niv, da, db):
    nk = tuple(nk)
    beta = ctx.pos('beta')
    obj, g = make_giwk(ctx, nk, niv, beta)
    hr, h, w = ham(ctx, 6)
    kg = bz.KGrid(nk, [])
    wn_v, wn_c = mf.wn(niw_v), mf.wn(niw_c, pos=True)
    f = ctx.cplx('f', (len(qs), 2 * niw_v + 1, niw_c + 1, 2 * nv))
    r = optics.vec_get_chijj_vert(f, obj, hr, kg, wn_v, wn_c, qs, der_a=da, der_b=db)
    la, lb = velocity(ctx, nk, h, w, da), velocity(ctx, nk, h, w, db)
    ctx.true(len(r) == niw_c + 1, 'one value per frequency')
    for i in range(niw_c + 1):
        ctx.eq(r[i], reference(ctx, f[:, :, i], la, lb, g, beta, i, list(range(-niw_v, niw_v + 1)), qs, int(np.prod(nk))), 'vertex part at its frequency')


def adds_up(ctx, nk, cut):
    """contributions of disjoint sets of momentum transfers add up to the total"""
    nk = tuple(nk)
    g, la, lb, beta = ctx.cplx('g', nk + (6,)), ctx.cplx('la', nk), ctx.cplx('lb', nk), ctx.pos('beta')
    qs = [tuple(int(i) for i in q) for q in np.ndindex(*nk)]
    f = ctx.cplx('f', (len(qs), 1, 2))
    a = lambda s: optics.get_chijj_vertex(f[s], la, lb, g, beta, 1, [1], qs[s], len(qs))
    ctx.eq(a(slice(0, cut)) + a(slice(cut, None)), a(slice(None)), 'sum over the processes')


def refused(ctx):
    obj, g = make_giwk(ctx, (1, 1, 1), 3, ctx.pos('beta'))
    hr, h, w = ham(ctx, 2)
    kg = bz.KGrid((1, 1, 1), [])
    f = ctx.cplx('f', (1, 3, 1, 2))
    ctx.raises(AssertionError, lambda: optics.vec_get_chijj_vert(f, obj, hr, kg, mf.wn(2), mf.wn(0, pos=True), [(0, 0, 0)]), 'internal frequencies do not fit')
    ctx.raises(AssertionError, lambda: optics.vec_get_chijj_vert(f, obj, hr, kg, mf.wn(1), mf.wn(1, pos=True), [(0, 0, 0)]), 'external frequencies do not fit')


def cases(tier):
    th = tier != 'quick'
    out = [(refused, {})]
    for nk, qs, wpn, w, niv, nv in (((1, 1, 1), [(0, 0, 0)], [0], 0, 1, 1), ((1, 1, 1), [(0, 0, 0)], [-1, 0, 1], 1, 4, 2), ((3, 1, 1), [(1, 0, 0)], [1], 1, 3, 1),
                                    ((2, 3, 1), [(1, 2, 0), (0, 1, 0)], [-1, 2], 2, 5, 1), ((1, 2, 3), [(0, 1, 1)], [0, 1], 0, 3, 2)) + \
            ((((4, 3, 1), [(3, 1, 0), (1, 0, 0), (2, 2, 0)], [-2, 0, 2], 1, 5, 2),) if th else ()):
        out.append((single, dict(nk=nk, qs=qs, wpn=wpn, w=w, niv=niv, nv=nv)))
    for nk, qs, a, b, nv, niv, da, db in (((1, 1, 1), [(0, 0, 0)], 1, 1, 1, 3, 0, 0), ((2, 1, 1), [(0, 0, 0), (1, 0, 0)], 1, 0, 1, 3, 0, 0),
                                          ((1, 3, 1), [(0, 2, 0)], 0, 1, 1, 3, 1, 1), ((2, 2, 1), [(1, 1, 0)], 0, 1, 2, 4, 0, 1), ((1, 1, 2), [(0, 0, 1)], 1, 1, 1, 4, 2, 2)) + \
            ((((3, 3, 1), [(1, 2, 0), (0, 1, 0)], 1, 1, 1, 3, 0, 1),) if th else ()):
        out.append((full, dict(nk=nk, qs=qs, niw_v=a, niw_c=b, nv=nv, niv=niv, da=da, db=db)))
    for nk, c in (((2, 1, 1), 1), ((2, 2, 1), 1), ((3, 1, 1), 2)):
        out.append((adds_up, dict(nk=nk, cut=c)))
    return out
