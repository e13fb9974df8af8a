"""C26 momentum-dependent full vertex: storage and assembly"""
import numpy as np
from dga import four_point as fp, mpi_aux
from common import H5, replaced, no_plots, Comm, NoOp, ur
import c20

EXPLANATION = ('symbolic auxiliary susceptibilities, three-leg vertices, bubbles and ladder susceptibilities; every process writes its '
               'momenta through the real code into in-memory files; the assembled vertex is compared with f1 + (1 - u chi) f2 at every '
               '(q, w, v, v\') including negative w')
OUTSIDE = 'HDF5 itself; more momenta and frequencies than listed'


def components(ctx, nk, niw, niv, size, tasks=None):
    h5 = H5()
    with replaced((mpi_aux, 'h5py', h5), (fp, 'h5py', h5)):
        cfg = c20.setup(ctx, nk, (), niw, niv, size)
        nq = int(np.prod(nk)) if not tasks else max(tasks) + 1
        data = c20.store(ctx, cfg, size, nq, 2 * niw + 1, niv, fp.write_vertex_components, tasks)
        f1m, f2m, f1d, f2d = fp.load_vertex_from_rank_files(output_path=cfg.output_path, name='Q', mpi_size=size, nq=nq, niw=niw, niv=niv)
    for ch, f1, f2 in (('magn', f1m, f2m), ('dens', f1d, f2d)):
        a, vr, g = data[ch]
        for i, q in enumerate(tasks or range(nq)):
            for w in range(2 * niw + 1):
                for v in range(2 * niv):
                    for vp in range(2 * niv):
                        x, y = c20.f12(cfg.sys.beta, ur(ch, cfg.sys.u), a[i, w], vr[i, w], g[i, w], v, vp)
                        ctx.eq(f1[q, w, v, vp], x, 'f1 at its momentum and frequency')
                        ctx.eq(f2[q, w, v, vp], y, 'f2 at its momentum and frequency')


def built(ctx, nk, sym, niw, niv, size, nq=None):
    h5 = H5()
    out = {}
    with replaced((mpi_aux, 'h5py', h5), (fp, 'h5py', h5)):
        cfg = c20.setup(ctx, nk, sym, niw, niv, size, nq=nq)
        mesh = tuple(cfg.lattice.q_grid.nk)
        grid = cfg.lattice.q_grid
        nq = int(grid.nk_irr)
        data = c20.store(ctx, cfg, size, nq, 2 * niw + 1, niv, fp.write_vertex_components)
        chi = {ch: ctx.cplx('chi' + ch, mesh + (2 * niw + 1,)) for ch in ('magn', 'dens')}
        cfg.save_data = lambda mat, name: out.__setitem__(name, mat)
        fp.build_vertex_fq(cfg, Comm(0, size), chi['magn'], chi['dens'])
    return cfg, data, chi, out


def build(ctx, nk, sym, niw, niv, size, nq=None):
    with no_plots():
        cfg, data, chi, out = built(ctx, nk, sym, niw, niv, size, nq)
    mesh = tuple(cfg.lattice.q_grid.nk)
    inv = np.asarray(cfg.lattice.q_grid.irrk_inv).reshape(mesh)
    for ch in ('magn', 'dens'):
        a, vr, g = data[ch]
        u_r = ur(ch, cfg.sys.u)
        for k in np.ndindex(*mesh):
            q = int(inv[k])
            for w in range(2 * niw + 1):
                for v in range(2 * niv):
                    for vp in range(2 * niv):
                        x, y = c20.f12(cfg.sys.beta, u_r, a[q, w], vr[q, w], g[q, w], v, vp)
                        ctx.eq(out['F_' + ch][k + (w, v, vp)], x + (1 - u_r * chi[ch][k + (w,)]) * y, 'F = f1 + (1 - u chi) f2')


def cases(tier):
    th = tier != 'quick'
    out = []
    for nk, niw, niv, size in (((1, 1, 1), 0, 1, 1), ((1, 1, 1), 1, 1, 1), ((2, 1, 1), 1, 2, 2), ((3, 1, 1), 2, 1, 2), ((1, 2, 3), 1, 1, 2)) + \
            ((((2, 2, 1), 2, 2, 3), ((1, 1, 1), 11, 1, 1)) if th else ()):
        out.append((components, dict(nk=nk, niw=niw, niv=niv, size=size)))
    out.append((components, dict(nk=(12, 1, 1), niw=0, niv=1, size=12)))
    out.append((components, dict(nk=(1, 1, 1), niw=101, niv=1, size=1)))
    out.append((components, dict(nk=(1, 1, 1), niw=1, niv=1, size=1, tasks=(7, 11, 99, 100, 101, 999, 1000, 1234))))
    for nk, sym, niw, niv, size in (((1, 1, 1), (), 1, 1, 1), ((2, 2, 1), (), 1, 1, 3), ((2, 2, 1), 'two_dimensional_square', 1, 1, 2),
                                    ((3, 2, 1), 'quasi_one_dimensional_square', 1, 1, 2), ((1, 2, 3), ('z-inv',), 1, 1, 2),
                                    ((2, 1, 3), ('x-inv', 'z-inv'), 1, 1, 3)) + \
            ((((4, 4, 1), 'two_dimensional_square', 1, 1, 4), ((2, 1, 1), (), 2, 2, 2)) if th else ()):
        out.append((build, dict(nk=nk, sym=sym, niw=niw, niv=niv, size=size)))
    out.append((build, dict(nk=(4, 2, 1), nq=(2, 3, 1), sym=(), niw=1, niv=1, size=2)))
    out.append((build, dict(nk=(4, 4, 1), nq=(2, 2, 1), sym='two_dimensional_square', niw=1, niv=1, size=2)))
    return out
