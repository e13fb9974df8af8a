"""C27 irreducible Brillouin zone"""
import numpy as np
from dga import brillouin_zone as bz
from common import total

EXPLANATION = ('symbolic fields on the irreducible and on the full mesh; the maps of every listed mesh and symmetry set are those the real code '
               'builds; reference: orbits of the mesh under the group generated by the named operations')
OUTSIDE = 'meshes larger than listed'

OPS = {'x-inv': lambda k, n: ((-k[0]) % n[0], k[1], k[2]), 'y-inv': lambda k, n: (k[0], (-k[1]) % n[1], k[2]),
       'z-inv': lambda k, n: (k[0], k[1], (-k[2]) % n[2]), 'x-y-sym': lambda k, n: (k[1], k[0], k[2]) if n[0] == n[1] else k,
       'x-y-inv': lambda k, n: ((-k[0]) % n[0], (-k[1]) % n[1], k[2])}


def orbits(nk, sym):
    """representative (smallest index) of the orbit of every mesh point"""
    rep = {}
    for k in np.ndindex(*nk):
        if k in rep:
            continue
        todo = [k]
        while todo:
            p = todo.pop()
            if p in rep:
                continue
            rep[p] = k
            todo += [OPS[s](p, nk) for s in sym]
    return rep


def maps(ctx, nk, sym, extra, complete, named=None):
    nk = tuple(nk)
    g = bz.KGrid(nk, list(sym) if named is None else getattr(bz, named)())
    rep = orbits(nk, sym)
    n_orb = len(set(rep.values()))
    nirr = int(g.nk_irr)
    if complete:
        ctx.true(nirr == n_orb, 'no two irreducible points are related by symmetry')
    ctx.true(int(np.sum(np.asarray(g.irrk_count))) == int(np.prod(nk)), 'multiplicities add up to the full mesh')
    # any field on the irreducible points survives the way to the full zone and back
    f = ctx.cplx('f', (nirr,) + tuple(extra))
    keep = f.copy()
    m, l = g.map_irrk2fbz(f), g.map_irrk2fbz(f, shape='list')
    ctx.true(m.shape == nk + tuple(extra) and l.shape == (int(np.prod(nk)),) + tuple(extra), 'shapes')
    ctx.eq(g.map_fbz2irrk(m), f, 'irreducible -> mesh -> irreducible')
    ctx.eq(g.map_fbz2irrk(l, shape='list'), f, 'irreducible -> list -> irreducible')
    for i, k in enumerate(np.ndindex(*nk)):
        ctx.eq(l[i], m[k], 'list and mesh in the same order')
    ctx.eq(g.k_mean(f, 'irrk'), g.k_mean(m, 'mesh'), 'weighted irreducible mean = full mean')
    ctx.eq(g.k_mean(l, 'list'), sum(m[k] for k in np.ndindex(*nk)) / int(np.prod(nk)), 'full mean')
    ctx.eq(f, keep, 'input unchanged')
    # a field with the symmetry is reproduced at every momentum
    s = ctx.cplx('s', nk + tuple(extra))
    full = s.copy()
    for k in np.ndindex(*nk):
        full[k] = s[rep[k]]
    ctx.eq(g.map_irrk2fbz(g.map_fbz2irrk(full)), full, 'symmetric field restored from its irreducible part')
    ctx.eq(g.k_mean(g.map_fbz2irrk(full), 'irrk'), sum(full[k] for k in np.ndindex(*nk)) / int(np.prod(nk)), 'mean of a symmetric field')
    # bookkeeping of the irreducible points
    for i in range(nirr):
        k = tuple(int(x) for x in np.asarray(g.get_irrq_list())[i])
        ctx.true(tuple(int(x) for x in np.asarray(g.irrk_mesh_ind)[:, i]) == k, 'index lists agree')
        ctx.eq(g.map_fbz2irrk(s)[i], s[k], 'irreducible field is the field at the listed momentum')
        for ax in range(3):
            ctx.eq(g.irr_kmesh[ax][i], 2 * np.pi * k[ax] / nk[ax], 'momentum of the irreducible point')
            ctx.eq(g.irr_kgrid[ax][i], 2 * np.pi * k[ax] / nk[ax], 'momentum of the irreducible point')


def average(ctx, nk, sym, extra):
    """projecting an arbitrary field onto the symmetry: mean over each class of the mesh"""
    nk = tuple(nk)
    g = bz.KGrid(nk, list(sym))
    f = ctx.cplx('f', nk + tuple(extra))
    r = g.symmetrize_irrk(f)
    inv = np.asarray(g.irrk_inv).reshape(nk)
    for k in np.ndindex(*nk):
        cl = [p for p in np.ndindex(*nk) if inv[p] == inv[k]]
        ctx.eq(r[k], sum(f[p] for p in cl) / len(cl), 'mean over the equivalent momenta')
    ctx.eq(g.symmetrize_irrk(r), r, 'idempotent')


def repeated(ctx, nk, syms):
    """meshes of one size but different symmetry next to each other, each used for many fields in either layout"""
    nk = tuple(nk)
    n = int(np.prod(nk))
    grids = [bz.KGrid(nk, list(SETS[x])) for x in syms]
    kept = []
    for no, ex in enumerate(((), (2,), (), (1, 2))):
        f = ctx.cplx(f'f{no}', nk + ex)
        keep = f.copy()
        for g in grids if no % 2 else grids[::-1]:
            l = g.map_fbz_mesh2list(f)
            irr = g.map_fbz2irrk(f)
            a = g.symmetrize_irrk(f)
            kept.append((f, keep, g, irr, g.map_fbz2irrk(l, shape='list'), g.map_irrk2fbz(irr), g.map_irrk2fbz(irr, shape='list'), a,
                         g.k_mean(irr, 'irrk'), g.k_mean(f, 'mesh'), g.k_mean(l, 'list')))
    for g, x in zip(grids, syms):
        ctx.true(sum(int(i) for i in g.irrk_count) == n and len(set(orbits(nk, SETS[x]).values())) == int(g.nk_irr), 'classes of this mesh')
    for f, keep, g, irr, irr2, m, l, a, mi, mm, ml in kept:
        ctx.eq(f, keep, 'input unchanged')
        inv = np.asarray(g.irrk_inv).reshape(nk)
        q = [tuple(int(x) for x in r) for r in np.asarray(g.get_irrq_list())]
        ctx.eq(irr2, irr, 'from the list')
        cnt = [0] * len(q)
        for i, k in enumerate(np.ndindex(*nk)):
            cnt[inv[k]] += 1
            ctx.eq(m[k], f[q[inv[k]]], 'field of the representative')
            ctx.eq(l[i], f[q[inv[k]]], 'field of the representative in the list')
            cl = [p for p in np.ndindex(*nk) if inv[p] == inv[k]]
            ctx.eq(a[k], sum(f[p] for p in cl) / len(cl), 'mean over the equivalent momenta')
        ctx.eq(mi, sum(c * f[k] for c, k in zip(cnt, q)) / n, 'weighted mean')
        ctx.eq(mm, sum(f[k] for k in np.ndindex(*nk)) / n, 'full mean')
        ctx.eq(ml, sum(f[k] for k in np.ndindex(*nk)) / n, 'full mean of the list')


def inversion(ctx, nk, axis, extra):
    """in-place mirror symmetry: lower half kept, upper half mirrored"""
    nk = tuple(nk)
    f = ctx.cplx('f', nk + tuple(extra))
    m = f.copy()
    bz.inv_sym(m, axis)
    n = nk[axis]
    for k in np.ndindex(*nk):
        j = min(k[axis], (-k[axis]) % n)
        ctx.eq(m[k], f[k[:axis] + (j,) + k[axis + 1:]], 'mirror image')
    m2 = f.copy()
    bz.apply_symmetry(m2, 'xyz'[axis] + '-inv')
    ctx.eq(m2, m, 'by name')
    m3 = f.copy()
    bz.apply_symmetries(m3, [])
    ctx.eq(m3, f, 'no symmetry, no change')


def exchange(ctx, n):
    """exchange symmetry orders each pair by the smaller value"""
    f = ctx.real('f', (n, n, 1))
    m = f.copy()
    bz.x_y_sym(m)
    for i in range(n):
        for j in range(n):
            a, b = f[i, j, 0], f[j, i, 0]
            ctx.eq(m[i, j, 0], a if bool(a <= b) else b, 'smaller of the pair')


def refused(ctx):
    f = ctx.cplx('f', (2, 2, 2))
    ctx.raises(AssertionError, lambda: bz.apply_symmetry(f, 'x-inversion'), 'unknown symmetry')
    ctx.raises(AssertionError, lambda: bz.inv_sym(f, 3), 'unknown axis')
    ctx.raises(AssertionError, lambda: bz.apply_symmetries(f[0], ['x-inv']), 'two-dimensional array')
    g = bz.KGrid((2, 2, 1), [])
    for fn in (lambda: g.map_irrk2fbz(f, shape='m'), lambda: g.map_fbz2irrk(f, shape='m'), lambda: g.k_mean(f, 'm')):
        ctx.raises(ValueError, fn, 'unknown layout')


SETS = {'none': (), 'square': ('x-inv', 'y-inv', 'x-y-sym'), 'nematic': ('x-inv', 'y-inv'), 'quasi2d': ('x-inv', 'y-inv', 'z-inv', 'x-y-sym'),
        'x': ('x-inv',), 'y': ('y-inv',), 'z': ('z-inv',), 'xy': ('x-y-sym',), 'xyinv': ('x-y-inv',), 'xz': ('x-inv', 'z-inv'),
        'order': ('y-inv', 'x-inv', 'x-y-sym')}


def cases(tier):
    th = tier != 'quick'
    out = [(refused, {}), (exchange, dict(n=2))]
    for nk, x in (((4, 4, 1), ('square', 'none', 'x')), ((3, 4, 2), ('nematic', 'quasi2d')), ((2, 2, 1), ('xy', 'square'))):
        out.append((repeated, dict(nk=nk, syms=x)))
    meshes = ((1, 1, 1), (2, 2, 1), (3, 3, 1), (4, 4, 1), (5, 5, 2), (4, 2, 1), (3, 5, 2), (6, 6, 4), (2, 2, 3), (1, 4, 1)) + \
        (((8, 8, 1), (7, 7, 3), (6, 4, 5), (12, 12, 1), (9, 9, 2)) if th else ())
    for nk in meshes:
        for n, s in SETS.items():
            out.append((maps, dict(nk=nk, sym=s, extra=(), complete='x-y-inv' not in s)))
    for nk, n in (((4, 4, 1), 'square'), ((3, 2, 2), 'nematic'), ((4, 3, 1), 'square'), ((2, 4, 2), 'xy')):
        out.append((maps, dict(nk=nk, sym=SETS[n], extra=(2, 3), complete=True)))
    for named, n in (('two_dimensional_square_symmetries', 'square'), ('two_dimensional_nematic_symmetries', 'nematic'),
                     ('quasi_two_dimensional_square_symmetries', 'quasi2d'), ('quasi_one_dimensional_square_symmetries', 'nematic'),
                     ('simultaneous_x_y_inversion', 'xyinv')):
        for nk in ((4, 4, 1), (3, 3, 4)):
            out.append((maps, dict(nk=nk, sym=SETS[n], extra=(), complete=n != 'xyinv', named=named)))
    for nk, n, ex in (((2, 2, 1), 'none', ()), ((4, 4, 1), 'square', (2,)), ((4, 4, 1), 'xyinv', ()), ((3, 3, 2), 'xy', ()), ((4, 3, 2), 'nematic', (2, 1)),
                      ((3, 3, 3), 'quasi2d', ())):
        out.append((average, dict(nk=nk, sym=SETS[n], extra=ex)))
    for nk in ((1, 1, 1), (2, 3, 4), (4, 5, 1), (6, 1, 5)) + (((8, 7, 6),) if th else ()):
        for ax in range(3):
            out.append((inversion, dict(nk=nk, axis=ax, extra=(2,) if nk[0] == 2 else ())))
    return out
