"""C23 bubble part of the optical conductivity"""
import numpy as np
from dga import optics, wannier, brillouin_zone as bz, matsubara_frequencies as mf
from common import make_giwk, legs, kmean

EXPLANATION = ('symbolic propagators, hopping amplitudes and temperature; reference: -2/beta times the k-average of both band velocities and the '
               'product of the propagators at the two legs of the notation, summed over the window; velocities from the lattice sum')
OUTSIDE = 'meshes, windows and frequencies beyond the listed ones'

RS = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (1, 1, 0), (-1, -1, 0), (0, 0, 1), (0, 0, -1)]


def ham(ctx, nr):
    r = np.zeros((nr, 1, 1, 3))
    for i in range(nr):
        r[i, 0, 0] = RS[i]
    h, w = ctx.cplx('h', (nr, 1, 1)), ctx.pos('w', (nr, 1))
    for i in range(0, nr - 1, 2):
        h[i + 1] = np.conj(h[i])
        w[i + 1] = w[i]
    return wannier.WannierHr(h, r, w, np.ones((nr, 1, 1, 2))), h, w


def velocity(ctx, nk, h, w, der):
    out = ctx.zeros(nk)
    for k in np.ndindex(*nk):
        for i in range(len(h)):
            out[k] = out[k] + 1j * RS[i][der] * h[i, 0, 0] / w[i, 0] * np.exp(1j * sum(2 * np.pi * (a * x) / n for a, n, x in zip(k, nk, RS[i])))
    return out


def reference(beta, la, lb, g, iwn, niv_sum, notation):
    a, b = legs(notation, iwn)
    niv = g.shape[-1] // 2
    t = 0
    for v in range(-niv_sum, niv_sum):
        t = t + kmean(la * lb * g[..., v + niv + a] * g[..., v + niv + b])
    return -2 * t / beta


def single(ctx, nk, niv, niv_sum, wn):
    """one bosonic frequency, arbitrary (not conjugation symmetric) propagator and vertices"""
    nk = tuple(nk)
    g, la, lb, beta = ctx.cplx('g', nk + (2 * niv,)), ctx.cplx('la', nk), ctx.cplx('lb', nk), ctx.pos('beta')
    keep = g.copy()
    for n in ('minus', 'plus', 'center'):
        for w in wn:
            ctx.eq(optics.get_chijj_bubble(g, la, lb, beta, w, niv_sum, n), reference(beta, la, lb, g, w, niv_sum, n), 'bubble ' + n)
    ctx.eq(optics.get_chijj_bubble(g, la, lb, beta, wn[-1], niv_sum), reference(beta, la, lb, g, wn[-1], niv_sum, 'minus'), 'default notation')
    ctx.eq(g, keep, 'input unchanged')


def full(ctx, nk, niv, niv_sum, wn, nr, da, db):
    nk = tuple(nk)
    beta = ctx.pos('beta')
    obj, g = make_giwk(ctx, nk, niv, beta)
    hr, h, w = ham(ctx, nr)
    kg = bz.KGrid(nk, [])
    la, lb = velocity(ctx, nk, h, w, da), velocity(ctx, nk, h, w, db)
    for n in ('minus', 'center'):
        r = optics.vec_get_chijj_bubble(obj, hr, kg, wn, niv_sum, der_a=da, der_b=db, freq_notation=n)
        ctx.true(len(r) == len(wn), 'one value per frequency')
        for i, x in enumerate(wn):
            ctx.eq(r[i], reference(beta, la, lb, g, x, niv_sum, n), 'bubble at the listed frequency')
    ctx.eq(optics.vec_get_chijj_bubble(obj, hr, kg, wn, niv_sum, der_a=da, der_b=db)[0], reference(beta, la, lb, g, wn[0], niv_sum, 'minus'), 'default notation')


def even(ctx, nk, niv, w):
    """chi_jj(-w) = chi_jj(w)^* for conjugation symmetric propagators (centred notation), real for equal directions"""
    nk = tuple(nk)
    beta = ctx.pos('beta')
    obj, g = make_giwk(ctx, nk, niv, beta)
    hr, h, _ = ham(ctx, 2)
    kg = bz.KGrid(nk, [])
    r = optics.vec_get_chijj_bubble(obj, hr, kg, [w, -w], niv - (w + 1) // 2, freq_notation='center')
    ctx.eq(r[1], np.conj(r[0]), 'conjugate at the negative frequency')


def cases(tier):
    th = tier != 'quick'
    out = []
    for nk, niv, ns, wn in (((1, 1, 1), 3, 1, (0, 1, -2, 2)), ((2, 1, 1), 4, 2, (1, 2)), ((2, 2, 1), 5, 2, (0, 3)), ((1, 3, 2), 2, 1, (-1, 1))) + \
            ((((2, 3, 2), 6, 3, (0, 1, 2, 3)), ((4, 4, 1), 4, 2, (0, 1, 2))) if th else ()):
        out.append((single, dict(nk=nk, niv=niv, niv_sum=ns, wn=wn)))
    for nk, niv, ns, wn, nr, da, db in (((2, 1, 1), 3, 1, (0, 1, 2), 4, 0, 0), ((2, 3, 1), 3, 2, (0, 1), 4, 1, 1), ((2, 2, 1), 3, 1, (2, 0), 6, 0, 1),
                                        ((1, 2, 3), 2, 1, (1,), 8, 2, 2), ((4, 1, 3), 2, 1, (0, 1), 8, 2, 0)) + \
            ((((4, 4, 1), 4, 2, (0, 1, 2), 6, 0, 1), ((3, 3, 2), 3, 2, (0, 1), 8, 1, 2)) if th else ()):
        out.append((full, dict(nk=nk, niv=niv, niv_sum=ns, wn=wn, nr=nr, da=da, db=db)))
    for w in (0, 2):
        out.append((even, dict(nk=(2, 1, 1), niv=3, w=w)))
    return out
