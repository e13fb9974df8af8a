"""C30 Wannier Hamiltonians: H(k), Hermiticity, band velocities, model Hamiltonians"""
import numpy as np
from dga import wannier, brillouin_zone as bz

EXPLANATION = ('symbolic hopping amplitudes, degeneracy weights and momenta (phases exp(ik) of symbolic angles, or the exact roots of unity of '
               'the mesh); reference: the lattice sum sum_R h_R exp(ikR)/weight_R written out, and its derivative')
OUTSIDE = 'reading and writing of text files; orbitals and lattice vectors beyond the listed ones'

RS = [(0, 0, 0), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (1, -2, 0), (-1, 2, 0), (0, 0, 1), (0, 0, -1), (1, 1, 1), (-1, -1, -1)]


def grid(ctx, nr, nb):
    r = np.zeros((nr, nb, nb, 3))
    for i in range(nr):
        r[i] = RS[i]
    return r


def phase(k, r):
    """exp(i k.R) with R integer"""
    return np.exp(1j * (k[0] * r[0] + k[1] * r[1] + k[2] * r[2]))


def ham(h, w, rs, k, der=None):
    nr, nb = h.shape[:2]
    out = h[0] * 0
    for i in range(nr):
        f = phase(k, rs[i]) / w[i, 0]
        if der is not None:
            f = f * 1j * rs[i][der]
        out = out + f * h[i]
    return out


def lattice_sum(ctx, nr, nb, nk):
    h, w = ctx.cplx('h', (nr, nb, nb)), ctx.pos('w', (nr, 1))
    k = ctx.angle('k', (3, nk))
    keep = h.copy()
    a = wannier.convham(h, grid(ctx, nr, nb), w, k)
    b = wannier.convham2(h, grid(ctx, nr, nb), w, k) if nr > 1 else a
    ls = [wannier.light_vertex(h, grid(ctx, nr, nb), w, k, der=d) for d in range(3)]
    ctx.true(a.shape == (nk, nb, nb), 'shape')
    for i in range(nk):
        ref = ham(h, w, RS, k[:, i])
        ctx.eq(a[i], ref, 'H(k) = sum_R h_R exp(ikR) / weight')
        ctx.eq(b[i], ref, 'H(k), loop version')
        for d in range(3):
            ctx.eq(ls[d][i], ham(h, w, RS, k[:, i], d), 'light vertex = dH/dk')
    ctx.eq(h, keep, 'input unchanged')


def hermitian(ctx, nr, nb):
    """h(-R) = h(R)^dagger gives a Hermitian H(k) and light vertex"""
    h, w = ctx.cplx('h', (nr, nb, nb)), ctx.pos('w', (nr, 1))
    h[0] = h[0] + np.conj(h[0].T)
    for i in range(1, nr, 2):
        h[i + 1] = np.conj(h[i].T)
        w[i + 1] = w[i]
    k = ctx.angle('k', (3, 1))
    for a in [wannier.convham(h, grid(ctx, nr, nb), w, k)[0]] + [wannier.light_vertex(h, grid(ctx, nr, nb), w, k, der=d)[0] for d in range(3)]:
        ctx.eq(a, np.conj(a.T), 'Hermitian')


def mesh_phase(ix, nk, r):
    return np.exp(1j * sum(2 * np.pi * (i * x) / n for i, n, x in zip(ix, nk, r)))


def on_grid(ctx, nk, nr, nb, sym):
    """the methods of the Hamiltonian object on the mesh of a KGrid"""
    nk = tuple(nk)
    h, w = ctx.cplx('h', (nr, nb, nb)), ctx.pos('w', (nr, 1))
    obj = wannier.WannierHr(h, grid(ctx, nr, nb), w, np.zeros((nr, nb, nb, 2)))
    kg = bz.KGrid(nk, sym)
    ek, lv = obj.get_ek(kg, one_band=False), [obj.get_light_vertex(kg, der=d, one_band=False) for d in range(3)]
    ek1, lv1 = obj.get_ek(kg), [obj.get_light_vertex(kg, der=d) for d in range(3)]
    ctx.true(ek.shape == nk + (nb, nb) and ek1.shape == nk, 'shape')
    for ix in np.ndindex(*nk):
        ref = [0 * h[0]] * 4
        for i in range(nr):
            f = mesh_phase(ix, nk, RS[i]) / w[i, 0]
            ref = [ref[0] + f * h[i]] + [ref[d + 1] + f * 1j * RS[i][d] * h[i] for d in range(3)]
        ctx.eq(ek[ix], ref[0], 'energy at its momentum')
        ctx.eq(ek1[ix], ref[0][0, 0], 'one band energy')
        for d in range(3):
            ctx.eq(lv[d][ix], ref[d + 1], 'light vertex at its momentum')
            ctx.eq(lv1[d][ix], ref[d + 1][0, 0], 'one band light vertex')


def many(ctx, nr, nks):
    """one Hamiltonian on several meshes and two Hamiltonians on one mesh, asked in turn"""
    hs = [ctx.cplx(f'h{j}', (nr, 1, 1)) for j in range(2)]
    w = ctx.pos('w', (nr, 1))
    objs = [wannier.WannierHr(h, grid(ctx, nr, 1), w, np.zeros((nr, 1, 1, 2))) for h in hs]
    keep = [h.copy() for h in hs]
    kept = []
    for nk in nks:
        nk = tuple(nk)
        kg = bz.KGrid(nk, [])
        for obj, h in zip(objs, keep):
            kept.append((nk, h, [obj.get_ek(kg)] + [obj.get_light_vertex(kg, der=d) for d in range(3)]))
    for nk, h, got in kept:
        for ix in np.ndindex(*nk):
            ref = [0 * h[0, 0, 0]] * 4
            for i in range(nr):
                f = mesh_phase(ix, nk, RS[i]) / w[i, 0]
                ref = [ref[0] + f * h[i, 0, 0]] + [ref[d + 1] + f * 1j * RS[i][d] * h[i, 0, 0] for d in range(3)]
            for d in range(4):
                ctx.true(got[d].shape == nk, 'shape')
                ctx.eq(got[d][ix], ref[d], 'energy or velocity of this Hamiltonian on this mesh')


def models(ctx, nkl):
    """the one-band model Hamiltonians are the documented tight-binding dispersions"""
    k = ctx.angle('k', (3, nkl))
    t, tp, tpp, tx, ty, tpx, tpy, txy = (ctx.real(n) for n in ('t', 'tp', 'tpp', 'tx', 'ty', 'tpx', 'tpy', 'txy'))
    cx, cy, sx, sy = np.cos(k[0]), np.cos(k[1]), np.sin(k[0]), np.sin(k[1])
    hr, r, w, orbs = wannier.wannier_one_band_2d_t_tp_tpp(t, tp, tpp)
    ref = -2 * t * (cx + cy) - 4 * tp * cx * cy - 2 * tpp * (2 * cx ** 2 - 1 + 2 * cy ** 2 - 1)
    ctx.eq(wannier.convham(hr, r, w, k)[:, 0, 0], ref, 't, tp, tpp model')
    ctx.eq(wannier.convham2(hr, r, w, k)[:, 0, 0], ref, 't, tp, tpp model, loop version')
    ctx.eq(wannier.light_vertex(hr, r, w, k, der=0)[:, 0, 0], 2 * t * sx + 4 * tp * sx * cy + 8 * tpp * sx * cx, 'velocity along x')
    ctx.eq(wannier.light_vertex(hr, r, w, k, der=1)[:, 0, 0], 2 * t * sy + 4 * tp * cx * sy + 8 * tpp * sy * cy, 'velocity along y')
    ctx.eq(wannier.light_vertex(hr, r, w, k, der=2)[:, 0, 0], 0 * ref, 'no velocity along z')
    hr, r, w, orbs = wannier.wannier_one_band_2d_nematic(tx, ty, tpx, tpy, txy)
    ref = -2 * tx * cx - 2 * ty * cy - 4 * txy * cx * cy - 2 * tpx * (2 * cx ** 2 - 1) - 2 * tpy * (2 * cy ** 2 - 1)
    ctx.eq(wannier.convham(hr, r, w, k)[:, 0, 0], ref, 'nematic model')
    ctx.true(bool(np.all(orbs == 1)) and orbs.shape == (len(hr), 1, 1, 2) and r.shape == (len(hr), 1, 1, 3), 'labels of the single orbital')


def emery(ctx, nk):
    nk = tuple(nk)
    p = [ctx.real(n) for n in ('ed', 'ep', 'tpd', 'tpp', 'tppp')]
    kg = bz.KGrid(nk, [])
    hr, r, w, orbs = wannier.wannier_emery_model(*p)
    a = wannier.WannierHr(hr, r, w, orbs).get_ek(kg, one_band=False)
    b = wannier.emery_model_ek(kg, *p)
    ctx.eq(a, b, 'real-space and momentum-space Emery model agree')
    for ix in np.ndindex(*nk):
        ctx.eq(a[ix], np.conj(a[ix].T), 'Hermitian')
        ex, ey = mesh_phase(ix, nk, (1, 0, 0)), mesh_phase(ix, nk, (0, 1, 0))
        ctx.eq(a[ix][0, 1], p[2] * (1 - np.conj(ex)), 'd-px hopping')
        ctx.eq(a[ix][0, 2], p[2] * (1 - np.conj(ey)), 'd-py hopping')
        ctx.eq(a[ix][1, 2], p[3] * (1 - ex) * (1 - np.conj(ey)), 'px-py hopping')
        ctx.eq(a[ix][0, 0], p[0], 'd level')
        ctx.eq(a[ix][1, 1], p[1] + p[4] * (ex + np.conj(ex)), 'px band')
        ctx.eq(a[ix][2, 2], p[1] + p[4] * (ey + np.conj(ey)), 'py band')


def labels(ctx, nr, nb):
    """every block of the real-space Hamiltonian carries its lattice vector and orbital numbers"""
    r2 = {tuple(v): i for i, v in enumerate(RS[:nr])}
    r, o = wannier.create_r_grid(r2, nb), wannier.create_orbs(nr, nb)
    ctx.true(o.shape == (nr, nb, nb, 2) and r.shape == (nr, nb, nb, 3), 'shapes')
    for i in range(nr):
        for a in range(nb):
            for b in range(nb):
                ctx.true(list(np.asarray(o[i, a, b], dtype=float)) == [a + 1, b + 1], 'orbital numbers')
                ctx.true(list(np.asarray(r[i, a, b], dtype=float)) == list(RS[i]), 'lattice vector')
    h = ctx.zeros((nr, nb, nb))
    x = ctx.cplx('x')
    for i in range(nr):
        for a in range(nb):
            for b in range(nb):
                m = h.copy()
                wannier.insert_hr_elemend(m, r2, RS[i], a + 1, b + 1, x)
                ref = h.copy()
                ref[i, a, b] = x
                ctx.eq(m, ref, 'element inserted at its place')


def cases(tier):
    th = tier != 'quick'
    out = []
    for nr, nb, nk in ((1, 1, 1), (3, 1, 2), (5, 2, 1), (11, 1, 2)) + (((11, 3, 2), (7, 2, 3)) if th else ()):
        out.append((lattice_sum, dict(nr=nr, nb=nb, nk=nk)))
    for nr, nb in ((3, 1), (5, 2), (7, 3)) + (((11, 3),) if th else ()):
        out.append((hermitian, dict(nr=nr, nb=nb)))
    for nk, nr, nb, sym in (((1, 1, 1), 2, 1, []), ((2, 3, 1), 7, 1, []), ((4, 4, 1), 5, 1, ['x-inv', 'y-inv', 'x-y-sym']), ((2, 1, 4), 11, 2, [])) + \
            ((((4, 6, 1), 11, 2, []), ((8, 2, 3), 9, 1, ['x-inv'])) if th else ()):
        out.append((on_grid, dict(nk=nk, nr=nr, nb=nb, sym=sym)))
    out.append((models, dict(nkl=2)))
    for nks in (((2, 1, 1), (3, 1, 1), (2, 1, 1)), ((1, 4, 1), (2, 2, 1), (1, 1, 4))):
        out.append((many, dict(nr=5, nks=nks)))
    for nk in ((1, 1, 1), (2, 3, 1), (4, 4, 1)) + (((6, 8, 1), (4, 3, 2)) if th else ()):
        out.append((emery, dict(nk=nk)))
    for nr, nb in ((1, 1), (2, 2), (7, 3), (2, 3), (3, 2)):
        out.append((labels, dict(nr=nr, nb=nb)))
    return out
