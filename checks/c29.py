"""C29 paths through the Brillouin zone"""
import math
from fractions import Fraction
import numpy as np
from dga import brillouin_zone as bz
from postproc import util
from common import replaced

EXPLANATION = ('symbolic fields, energies and axis values; the path of every listed corner sequence and mesh is the one the real code builds; '
               'reference: the straight line between the corners in units of the mesh, rounded to the nearest mesh point')
OUTSIDE = 'the eigenvalue routine of numpy (diagonal Hamiltonians only); meshes and corner sequences beyond the listed ones'

KP = {'Gamma': (0, 0, 0), 'X': (.5, 0, 0), 'Y': (0, .5, 0), 'M': (.5, .5, 0), 'M2': (.25, .25, 0), 'Z': (0, 0, .5), 'R': (.5, 0, .5), 'A': (.5, .5, .5)}


def corners(path):
    return [[Fraction(x) for x in KP[p]] if p in KP else [Fraction(float(x)) for x in p.split(' ')] for p in path]


def build(ctx, nk, path, delim):
    nk = tuple(nk)
    p = bz.KPath(nk, delim.join(path), **({} if delim == '-' else dict(path_deliminator=delim)))
    cs = corners(path)
    pts = np.asarray(p.kpts)
    ctx.true([int(x) for x in pts.shape] == [sum(int(n) for n in p.nkp), 3], 'number of points')
    ctx.true(int(p.nk_tot) == len(pts) and len(p.nkp) == len(path) - 1, 'number of segments')
    off, starts = 0, [0]
    for s in range(len(path) - 1):
        a, b = [[x * n for x, n in zip(c, nk)] for c in (cs[s], cs[s + 1])]
        length = math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))
        n = int(p.nkp[s])
        ctx.true(abs(n - length) <= 0.5 + 1e-9, 'one point per mesh spacing')
        for j in range(n):
            for ax in range(3):
                want = a[ax] + (b[ax] - a[ax]) * Fraction(j, n)
                d = abs(int(pts[off + j, ax]) - want)
                d = min(d, abs(d - nk[ax]))
                ctx.true(d <= Fraction(1, 2) + Fraction(1, 10 ** 6), 'nearest mesh point of the straight line')
                ctx.true(0 <= int(pts[off + j, ax]) < nk[ax], 'inside the mesh')
        off += n
        starts.append(off)
    f = ctx.cplx('f', nk + (2,))
    m = p.map_to_kpath(f)
    for i in range(len(pts)):
        k = tuple(int(x) for x in pts[i])
        ctx.eq(m[i], f[k], 'field at the points of the path')
        ctx.true((int(p.ikx[i]), int(p.iky[i]), int(p.ikz[i])) == k, 'index lists')
        for ax in range(3):
            ctx.eq(p.k_val[ax][i], 2 * np.pi * k[ax] / nk[ax], 'momentum along the path')
            ctx.eq(p.k_points[i, ax], 2 * np.pi * k[ax] / nk[ax], 'momentum along the path')
    want = [bz.LABELS[x] if x in KP else f'K{i}' for i, x in enumerate(path)]
    # plots: equidistant axis from 0 to 1, one tick per corner at the end of its segment
    for i in range(off):
        ctx.eq(p.k_axis[i], Fraction(i, max(off - 1, 1)) if ctx.sym else i / max(off - 1, 1), 'axis of the plot')
    ctx.true(len(p.k_axis) == off, 'axis of the plot')
    ctx.true(len(p.x_ticks) == len(p.labels) == len(p.cind) == len(starts), 'one tick per label')
    for s, i in enumerate(starts if all(int(n) for n in p.nkp) else ()):
        ctx.true(abs(int(p.cind[s]) - i) <= 1 and 0 <= int(p.cind[s]) < off, 'tick next to its corner')
        ctx.eq(p.x_ticks[s], p.k_axis[int(p.cind[s])], 'tick on the axis')
    ctx.true([int(x) for x in p.nk_seg] == [int(p.cind[s + 1]) - int(p.cind[s]) for s in range(len(path) - 1)], 'points between the ticks')
    ctx.true(list(p.labels) == want and list(p.ckps) == list(path), 'labels of the corners')


def axes(ctx, nk, path):
    """own axis values of each direction"""
    nk = tuple(nk)
    ks = [ctx.real('k' + a, (n,)) for a, n in zip('xyz', nk)]
    p = bz.KPath(nk, path, kx=ks[0], ky=ks[1], kz=ks[2])
    pts = np.asarray(p.kpts)
    for i in range(len(pts)):
        for ax in range(3):
            ctx.eq(p.k_val[ax][i], ks[ax][int(pts[i, ax])], 'value of its own axis')
            ctx.eq(p.k_points[i, ax], ks[ax][int(pts[i, ax])], 'value of its own axis')


def crossing(ctx, nk, path, nf):
    """every segment of the path is given its point closest to the Fermi surface"""
    nk = tuple(nk)
    ks = [ctx.real('k' + a, (n,)) for a, n in zip('xyz', nk)]
    p = bz.KPath(nk, path, kx=ks[0], ky=ks[1], kz=ks[2])
    fermi = ctx.real('f', (nf, 2))
    square = lambda x, axis=None: (x * x).sum(axis=axis)
    # distances enter through their squares (same order)
    with replaced((np.linalg, 'norm', square)):
        r = util.find_fermi_crossing(fermi, p)
    ctx.true(len(r) == len(p.nk_seg), 'one point per segment')
    for s, i in enumerate(r):
        i = int(i)
        seg = range(int(p.cind[s]), int(p.cind[s]) + int(p.nk_seg[s]))
        ctx.true(i in seg, 'point of the segment')
        d = lambda j, f: (p.k_val[0][j] - fermi[f, 0]) ** 2 + (p.k_val[1][j] - fermi[f, 1]) ** 2
        for j in seg:
            for f in range(nf):
                c = d(i, 0) <= d(j, f)
                for h in range(1, nf):
                    c = c | (d(i, h) <= d(j, f))
                ctx.true(c, 'no point of the segment is closer')


def bands(ctx, nk, path, nb):
    """bands of a diagonal Hamiltonian: its energies in ascending order at every point"""
    nk = tuple(nk)
    p = bz.KPath(nk, path)
    e = ctx.real('e', nk + (nb,))
    h = ctx.zeros(nk + (nb, nb))
    for b in range(nb):
        h[..., b, b] = e[..., b]
    with replaced((np.linalg, 'eig', lambda m: (np.array([m[i, i] for i in range(nb)]), None))):
        r = p.get_bands(h)
    pts = np.asarray(p.kpts)
    for i in range(len(pts)):
        x = [e[tuple(int(t) for t in pts[i]) + (b,)] for b in range(nb)]
        for b in range(nb - 1):
            ctx.true(r[i, b] <= r[i, b + 1], 'ascending')
        ctx.eq(sum(r[i]), sum(x), 'all energies present')
        for b in range(nb):
            ctx.eq(sum(y ** (b + 1) for y in r[i]), sum(y ** (b + 1) for y in x), 'the same energies')


def cases(tier):
    th = tier != 'quick'
    out = []
    paths = [('Gamma', 'X', 'M', 'Gamma'), ('Gamma', 'Y', 'M2', 'Gamma'), ('Gamma', 'Z', 'R', 'A', 'Gamma'), ('X', 'Gamma'), ('0.25 0.5 0', 'Gamma', '0.75 0.25 0.5')]
    for nk in ((4, 4, 1), (8, 4, 2), (6, 6, 4)) + (((12, 12, 1), (16, 8, 4), (20, 20, 2)) if th else ()):
        for path in paths:
            out.append((build, dict(nk=nk, path=path, delim='-')))
    out.append((build, dict(nk=(4, 4, 2), path=('Gamma', 'X', 'M'), delim='_')))
    out.append((build, dict(nk=(5, 5, 1), path=('Gamma', '0.8 0.2 0'), delim='-')))
    # corners in the neighbouring zone and corners equivalent to Gamma
    for nk in ((6, 6, 1), (4, 6, 2)):
        for path in (('0.5 0 0', '1.5 0 0'), ('Gamma', '1 0 0', '1 1 0.5'), ('1 1 0', 'M', '1.5 0.5 0'), ('1.25 1.75 1', '0.25 0 0.5')):
            out.append((build, dict(nk=nk, path=path, delim='-')))
    out.append((axes, dict(nk=(4, 4, 2), path='Gamma-X-M-A')))
    out.append((axes, dict(nk=(4, 3, 2), path='0.5 0 0-1.5 1 0.5')))
    out.append((axes, dict(nk=(4, 2, 3), path='Gamma-0.5 0.5 0.7-Y')))
    out.append((bands, dict(nk=(2, 2, 1), path='Gamma-X-M', nb=2)))
    out.append((crossing, dict(nk=(4, 4, 1), path='Gamma-X-M', nf=1)))
    out.append((crossing, dict(nk=(4, 4, 1), path='Gamma-X', nf=2)) if th else (crossing, dict(nk=(6, 2, 1), path='Gamma-X', nf=2)))
    out.append((crossing, dict(nk=(4, 6, 1), path='Gamma-X-M-Gamma', nf=1)) if th else (crossing, dict(nk=(4, 6, 1), path='X-M-Gamma', nf=1)))
    if th:
        out.append((bands, dict(nk=(2, 1, 1), path='Gamma-X', nb=3)))
    return out
