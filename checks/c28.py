"""C28 momentum mesh bookkeeping: layouts, shifts, slices"""
import numpy as np
from dga import brillouin_zone as bz

EXPLANATION = ('symbolic fields on the mesh, symbolic momenta to be located (every branch of the search explored); reference: the entry at k - q '
               'for each mesh point, momenta 2 pi i / n')
OUTSIDE = 'meshes larger than listed'


def layout(ctx, nk, extra):
    nk = tuple(nk)
    n = int(np.prod(nk))
    g = bz.KGrid(nk, [])
    f = ctx.cplx('f', nk + tuple(extra))
    l = g.map_fbz_mesh2list(f)
    ctx.true(l.shape == (n,) + tuple(extra) and int(g.nk_tot) == n and int(g.nk_irr) == n, 'sizes')
    ctx.eq(g.map_fbz_list2mesh(l), f, 'mesh -> list -> mesh')
    q = np.asarray(g.get_q_list())
    ctx.true(q.shape == (n, 3) and bool(np.all(q == np.asarray(g.get_irrq_list()))), 'list of mesh indices')
    ind = np.asarray(g.ind).reshape(n, -1)
    mi, km, kl = np.asarray(g.kmesh_ind), g.kmesh, g.kmesh_list
    for i, k in enumerate(np.ndindex(*nk)):
        ctx.eq(l[i], f[k], 'list entry is the mesh entry of its index')
        ctx.true(tuple(int(x) for x in q[i]) == k and tuple(int(x) for x in mi[(slice(None),) + k]) == k, 'mesh index')
        if ind.shape[1] == 3:
            ctx.true(tuple(int(x) for x in ind[i]) == k, 'index tuple')
        for ax in range(3):
            ctx.eq(kl[ax][i], 2 * np.pi * k[ax] / nk[ax], 'momentum in the list')
            ctx.eq(km[ax][k], 2 * np.pi * k[ax] / nk[ax], 'momentum on the mesh')
            ctx.eq(g.grid[ax][k[ax]], 2 * np.pi * k[ax] / nk[ax], 'momentum on the axis')
    for ax, s in enumerate((g.kx_shift, g.ky_shift, g.kz_shift)):
        for i in range(nk[ax]):
            ctx.eq(s[i], 2 * np.pi * i / nk[ax] - np.pi, 'shifted axis')
    e = bz.get_extent(g)
    es = bz.get_extent_pi_shift(g)
    for i, (ax, j) in enumerate(((0, 0), (0, nk[0] - 1), (1, 0), (1, nk[1] - 1))):
        ctx.eq(e[i], 2 * np.pi * j / nk[ax], 'extent')
        ctx.eq(es[i], 2 * np.pi * j / nk[ax] - np.pi, 'extent of the shifted mesh')


def at(f, k, d):
    return f[tuple((a - b) % n for a, b, n in zip(k, d, f.shape))]


def shifts(ctx, nk, extra):
    nk = tuple(nk)
    g = bz.KGrid(nk, [])
    f = ctx.cplx('f', nk + tuple(extra))
    keep = f.copy()
    h = [n // 2 for n in nk]
    for fn, d in [(lambda: bz.shift_mat_by_pi(f), (h[0], h[1], 0)), (lambda: bz.shift_mat_by_pi(f, nk), (h[0], h[1], 0)), (lambda: g.shift_mat_by_pi(f), h),
                  (lambda: g.shift_mat_by_pi(f, axes=(0,)), (h[0], 0, 0)), (lambda: g.shift_mat_by_pi(f, axes=(2, 1)), (0, h[1], h[2]))]:
        r = fn()
        for k in np.ndindex(*nk):
            ctx.eq(r[k], at(f, k, d), 'zone centre moved to the middle of the mesh')
    for q in np.ndindex(*nk):
        kq = tuple(2 * np.pi * i / n for i, n in zip(q, nk))
        ctx.true([int(i) for i in g.find_q_ind(kq)] == list(q), 'index of a mesh momentum')
        rs = [g.shift_mat_by_q(f, kq), g.shift_mat_by_ind(f, q), bz.shift_mat_by_ind(f, q), bz.shift_mat_by_ind(f, [i - n for i, n in zip(q, nk)])]
        for r in rs:
            for k in np.ndindex(*nk):
                ctx.eq(r[k], at(f, k, q), 'field at k - q, periodic')
        a = g.add_q_to_kgrid(kq)
        for ax in range(3):
            for i in range(nk[ax]):
                ctx.eq(a[ax][i], 2 * np.pi * (i - q[ax]) / nk[ax], 'axes shifted by q')
    ctx.eq(f, keep, 'input unchanged')


def nearest(ctx, nk):
    """any momentum is assigned to the closest mesh point of each axis"""
    nk = tuple(nk)
    g = bz.KGrid(nk, [])
    q = ctx.real('q', (3,))
    ind = g.find_q_ind(q)
    for ax in range(3):
        d = abs(g.grid[ax][int(ind[ax])] - q[ax])
        for x in g.grid[ax]:
            ctx.true(d <= abs(x - q[ax]), 'closest point of the axis')


def slices(ctx, nk, dim, extra):
    nk = tuple(nk)
    g = bz.KGrid(nk, [])
    f = ctx.cplx('f', nk + tuple(extra))
    v = ctx.real('v')
    r = g.get_k_slice(f, k_slice_dim=dim, k_slice_val=v)
    ax = g.grid[dim]
    best = [i for i in range(nk[dim]) if all(bool(abs(ax[i] - v) <= abs(x - v)) for x in ax)]
    ctx.eq(r, np.take(f, best[0], axis=dim) if not ctx.sym else f[(slice(None),) * dim + (best[0],)], 'slice at the closest plane')
    ctx.raises(AssertionError, lambda: g.get_k_slice(f, k_slice_dim=3), 'unknown axis')


def repeated(ctx, nk, nk2):
    """one mesh used for many fields and momenta, and another mesh in between"""
    nk, nk2 = tuple(nk), tuple(nk2)
    g, o = bz.KGrid(nk, []), bz.KGrid(nk2, [])
    kept = []
    qs = list(np.ndindex(*nk))
    for no, (ex, q) in enumerate((((), qs[-1]), ((2,), qs[0]), ((), qs[len(qs) // 2]), ((3, 1), qs[-1]))):
        for mesh, n in ((g, nk), (o, nk2)):
            f = ctx.cplx(f'f{no}{n[0]}{n[1]}{n[2]}', n + ex)
            keep = f.copy()
            kq = tuple(2 * np.pi * (i % m) / m for i, m in zip(q, n))
            d = tuple(i % m for i, m in zip(q, n))
            h = [m // 2 for m in n]
            l = mesh.map_fbz_mesh2list(f)
            kept.append((f, keep, n, d, h, [l, mesh.map_fbz_list2mesh(l), mesh.shift_mat_by_ind(f, d), mesh.shift_mat_by_q(f, kq), mesh.shift_mat_by_pi(f),
                                            mesh.k_mean(f, 'mesh'), mesh.k_mean(l, 'list'), mesh.map_fbz2irrk(f), mesh.map_fbz2irrk(l, shape='list'),
                                            mesh.symmetrize_irrk(f)] +
                         [mesh.get_k_slice(f, k_slice_dim=a, k_slice_val=mesh.grid[a][d[a]]) for a in range(3)]))
            ctx.true([int(i) for i in mesh.find_q_ind(kq)] == list(d), 'index of a mesh momentum')
            ax = mesh.add_q_to_kgrid(kq)
            for a in range(3):
                for i in range(n[a]):
                    ctx.eq(ax[a][i], 2 * np.pi * (i - d[a]) / n[a], 'axes shifted by q')
                    ctx.eq(mesh.grid[a][i], 2 * np.pi * i / n[a], 'axes of the mesh stay')
    for f, keep, n, d, h, (l, back, by_ind, by_q, by_pi, mean, mean_l, irr, irr_l, sym, *sl) in kept:
        ctx.eq(f, keep, 'input unchanged')
        ctx.eq(back, f, 'mesh -> list -> mesh')
        total = sum(f[k] for k in np.ndindex(*n)) / int(np.prod(n))
        ctx.eq(mean, total, 'mean over the mesh')
        ctx.eq(mean_l, total, 'mean over the list')
        ctx.eq(sym, f, 'no symmetry: every point is its own class')
        for i, k in enumerate(np.ndindex(*n)):
            ctx.eq(l[i], f[k], 'list entry')
            ctx.eq(irr[i], f[k], 'irreducible entry')
            ctx.eq(irr_l[i], f[k], 'irreducible entry from the list')
            ctx.eq(by_ind[k], at(f, k, d), 'field at k - q')
            ctx.eq(by_q[k], at(f, k, d), 'field at k - q')
            ctx.eq(by_pi[k], at(f, k, h), 'zone centre in the middle')
        for a in range(3):
            ctx.eq(sl[a], f[(slice(None),) * a + (d[a],)], 'slice')


def cases(tier):
    th = tier != 'quick'
    out = []
    for nk, ex in (((1, 1, 1), ()), ((2, 3, 1), (2,)), ((3, 2, 4), ()), ((4, 4, 1), (1, 2))) + ((((6, 5, 3), ()), ((8, 8, 2), (2,))) if th else ()):
        out.append((layout, dict(nk=nk, extra=ex)))
    for nk, ex in (((1, 1, 1), ()), ((2, 3, 1), (2,)), ((3, 2, 2), ()), ((4, 4, 1), ())) + ((((4, 3, 3), (2,)), ((6, 6, 1), ())) if th else ()):
        out.append((shifts, dict(nk=nk, extra=ex)))
    for nk in ((1, 1, 1), (2, 3, 1), (4, 1, 2)) + (((6, 3, 2),) if th else ()):
        out.append((nearest, dict(nk=nk)))
    for nk, nk2 in (((2, 3, 1), (3, 2, 1)), ((2, 2, 2), (1, 4, 1)), ((4, 1, 1), (4, 2, 1))):
        out.append((repeated, dict(nk=nk, nk2=nk2)))
    for dim in range(3):
        for nk, ex in (((2, 3, 4), ()), ((3, 2, 1), (2,))):
            out.append((slices, dict(nk=nk, dim=dim, extra=ex)))
    return out
