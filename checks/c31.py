"""C31 analytic tight-binding dispersions"""
import numpy as np
from dga import wannier, brillouin_zone as bz

EXPLANATION = ('symbolic hopping amplitudes and momenta (cosines and sines of symbolic angles); reference: the cosine series of the documented '
               'hopping matrix (first neighbours, plane diagonals, second neighbours) and its derivative')
OUTSIDE = 'meshes larger than listed'


def disp(t, k):
    x, y, z = k
    c2 = lambda a: 2 * np.cos(a) * np.cos(a) - 1
    cp = np.cos(x) * np.cos(y) - np.sin(x) * np.sin(y)
    cm = np.cos(x) * np.cos(y) + np.sin(x) * np.sin(y)
    return -2 * (t[0, 0] * np.cos(x) + t[0, 1] * np.cos(y) + t[0, 2] * np.cos(z) + t[1, 0] * cp + t[1, 1] * cm +
                 t[2, 0] * c2(x) + t[2, 1] * c2(y) + t[2, 2] * c2(z))


def on_axes(ctx, nk):
    nk = tuple(nk)
    t = ctx.real('t', (3, 3))
    ks = [ctx.angle('k' + a, (n,)) for a, n in zip('xyz', nk)]
    e = wannier.ek_3d(ks, t)
    ctx.true(e.shape == nk, 'shape')
    for i in np.ndindex(*nk):
        ctx.eq(e[i], disp(t, [k[j] for k, j in zip(ks, i)]), 'energy at its momentum')


def on_list(ctx, n):
    t, k = ctx.real('t', (3, 3)), ctx.angle('k', (n, 3))
    e = wannier.ek_3d_klist(k, t)
    ctx.true(e.shape == (n,), 'shape')
    for i in range(n):
        ctx.eq(e[i], disp(t, k[i]), 'energy at its momentum')


def shifted(ctx):
    t, k, q = ctx.real('t', (3, 3)), ctx.angle('k', (3,)), ctx.angle('q', (3,))
    ctx.eq(wannier.ekpq_3d(*k, *q, t_mat=t), disp(t, k + q), 'energy at k + q')
    ctx.eq(wannier.ekpq_3d(*k, t_mat=t), disp(t, k), 'no shift by default')


def square(ctx):
    t, tp, tpp, (kx, ky) = ctx.real('t'), ctx.real('tp'), ctx.real('tpp'), ctx.angle('k', (2,))
    z = ctx.zeros((3, 3))
    z[:2] = [[t, t, 0], [tp, tp, 0]]
    z[2] = [tpp, tpp, 0]
    ctx.eq(wannier.ek_square(kx, ky, t, tp, tpp), disp(z, (kx, ky, 0 * kx)), 't, tp, tpp dispersion')
    s, c = np.sin(kx), np.cos(kx)
    ctx.eq(wannier.del_ek_del_kx_square(kx, ky, t, tp, tpp), 2 * t * s + 4 * tp * s * np.cos(ky) + 8 * tpp * s * c, 'velocity along x')
    hr, r, w, _ = wannier.wannier_one_band_2d_t_tp_tpp(t, tp, tpp)
    kk = ctx.zeros((3, 1))
    kk[0, 0], kk[1, 0] = kx, ky
    ctx.eq(wannier.light_vertex(hr, r, w, kk, der=0)[0, 0, 0], wannier.del_ek_del_kx_square(kx, ky, t, tp, tpp), 'agrees with the light vertex')


def tables(ctx):
    """the named hopping tables"""
    a, b, c, d, e = (ctx.real(n) for n in 'abcde')
    k = ctx.angle('k', (3,))
    cc = np.cos(k)
    c2 = 2 * cc * cc - 1
    sq = lambda t, tp, tpp: -2 * t * (cc[0] + cc[1]) - 4 * tp * cc[0] * cc[1] - 2 * tpp * (c2[0] + c2[1])
    f = lambda t: wannier.ekpq_3d(*k, t_mat=t)
    ctx.eq(f(wannier.one_band_2d_t_tp_tpp(a, b, c)), sq(a, b, c), 't, tp, tpp table')
    ctx.eq(f(wannier.unfrustrated_square(a)), sq(a, 0, 0), 'unfrustrated square')
    ctx.eq(f(wannier.standard_cuprates(a)), sq(a, -a / 5, a / 10), 'cuprates', tol=1e-9)
    ctx.eq(f(wannier.motoharu_nickelates(a)), sq(a, -a / 4, a * 3 / 25), 'nickelates', tol=1e-9)
    aniso = -2 * a * cc[0] - 2 * b * cc[1] - 2 * c * c2[0] - 2 * d * c2[1] - 4 * e * cc[0] * cc[1]
    ctx.eq(f(wannier.one_band_2d_quasi1d(a, b, c, d, e)), aniso, 'quasi one-dimensional table')
    ctx.eq(f(wannier.one_band_2d_nematic(a, b, c, d, e)), aniso, 'nematic table')
    tri = -2 * a * (cc[0] + cc[1]) - 2 * b * (cc[0] * cc[1] - np.sin(k[0]) * np.sin(k[1])) - 2 * c * (c2[0] + c2[1])
    ctx.eq(f(wannier.one_band_2d_triangular_t_tp_tpp(a, b, c)), tri, 'triangular table')


def real_space(ctx, nk):
    """momentum-space table and real-space Hamiltonian describe the same band on the mesh"""
    nk = tuple(nk)
    a, b, c, d, e = (ctx.real(n) for n in 'abcde')
    kg = bz.KGrid(nk, [])
    obj = wannier.WannierHr(*wannier.wannier_one_band_2d_t_tp_tpp(a, b, c))
    ctx.eq(obj.get_ek(kg), wannier.ek_3d(kg.grid, wannier.one_band_2d_t_tp_tpp(a, b, c)), 't, tp, tpp')
    ctx.eq(obj.get_ek(kg).reshape(-1), wannier.ek_3d_klist(kg.kmesh_list.T, wannier.one_band_2d_t_tp_tpp(a, b, c)), 't, tp, tpp on the list of momenta')
    obj = wannier.WannierHr(*wannier.wannier_one_band_2d_nematic(a, b, c, d, e))
    ctx.eq(obj.get_ek(kg), wannier.ek_3d(kg.grid, wannier.one_band_2d_nematic(a, b, c, d, e)), 'nematic')


def cases(tier):
    th = tier != 'quick'
    out = [(shifted, {}), (square, {}), (tables, {})]
    for nk in ((1, 1, 1), (2, 2, 1), (2, 1, 3), (1, 3, 2)) + (((4, 3, 2),) if th else ()):
        out.append((on_axes, dict(nk=nk)))
    for n in (1, 3):
        out.append((on_list, dict(n=n)))
    for nk in ((1, 1, 1), (2, 3, 1), (4, 4, 1), (3, 1, 2)) + (((6, 8, 1), (12, 4, 2)) if th else ()):
        out.append((real_space, dict(nk=nk)))
    return out
