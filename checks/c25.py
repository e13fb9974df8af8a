"""C25 vertex of the optical conductivity: slices, storage and assembly"""
import numpy as np
from dga import optics, mpi_aux
from common import H5, replaced, no_plots, Comm, ur
import c20

EXPLANATION = ('symbolic ladder quantities per momentum; every process writes its momenta through the real code into in-memory files; '
               'the assembled vertex is compared with -1/2 F_d - 3/2 F_m at (q, w\', v, v-w) for every w\' of either sign')
OUTSIDE = 'HDF5 itself; more momenta and frequencies than listed'


def slices(ctx, niv, new, nw):
    m = ctx.cplx('m', (2 * niv, 2 * niv))
    wn = np.arange(nw + 1)
    r = optics.get_vmw_v_slice(m, wn, new)
    for i, w in enumerate(wn):
        for v in range(-new, new):
            ctx.eq(r[i, v + new], m[v + niv, v - w + niv], 'F(v, v - w)')


def setup(ctx, nk, sym, niw, niv, nvert, ncond, nq=None):
    cfg = c20.setup(ctx, nk, sym, niw, niv, 1, nq=nq)
    cfg.optics.niw_vert, cfg.optics.niw_cond, cfg.optics.niv_vert = nvert, ncond, niv - ncond
    cfg.optics.output_path = '/nonexistent-output/'
    return cfg


def components(ctx, nk, niw, niv, nvert, ncond, size, tasks=None):
    h5 = H5()
    with replaced((mpi_aux, 'h5py', h5), (optics, 'h5py', h5)):
        cfg = setup(ctx, nk, (), niw, niv, nvert, ncond)
        nq = int(np.prod(nk)) if not tasks else max(tasks) + 1
        data = c20.store(ctx, cfg, size, nq, 2 * niw + 1, niv, optics.write_optics_vertex_components, tasks)
        f1m, f2m, f1d, f2d = optics.load_optics_vertex_from_rank_files(cfg.output_path, 'Q', size, nq, cfg.optics)
    nv = niv - ncond
    for ch, f1, f2 in (('magn', f1m, f2m), ('dens', f1d, f2d)):
        a, vr, g = data[ch]
        for i, q in enumerate(tasks or range(nq)):
            for wp in range(-nvert, nvert + 1):
                for w in range(ncond + 1):
                    for v in range(-nv, nv):
                        x, y = c20.f12(cfg.sys.beta, ur(ch, cfg.sys.u), a[i, wp + niw], vr[i, wp + niw], g[i, wp + niw], v + niv, v - w + niv)
                        ctx.eq(f1[q, wp + nvert, w, v + nv], x, 'f1 at its momentum and frequencies')
                        ctx.eq(f2[q, wp + nvert, w, v + nv], y, 'f2 at its momentum and frequencies')


def built(ctx, nk, sym, niw, niv, nvert, ncond, size, nq=None):
    h5 = H5()
    out = {}
    with replaced((mpi_aux, 'h5py', h5), (optics, 'h5py', h5)):
        cfg = setup(ctx, nk, sym, niw, niv, nvert, ncond, nq)
        mesh = tuple(cfg.lattice.q_grid.nk)
        grid = cfg.lattice.q_grid
        nq = int(grid.nk_irr)
        data = c20.store(ctx, cfg, size, nq, 2 * niw + 1, niv, optics.write_optics_vertex_components)
        chi = {ch: ctx.cplx('chi' + ch, mesh + (2 * niw + 1,)) for ch in ('magn', 'dens')}
        cfg.optics.save_data = lambda mat, name: out.__setitem__(name, mat)
        optics.build_vertex_for_optical_conductivity(cfg, Comm(0, size), chi['magn'], chi['dens'])
    return cfg, data, chi, out


def build(ctx, nk, sym, niw, niv, nvert, ncond, size, nq=None):
    with no_plots():
        cfg, data, chi, out = built(ctx, nk, sym, niw, niv, nvert, ncond, size, nq)
    mesh = tuple(cfg.lattice.q_grid.nk)
    inv = np.asarray(cfg.lattice.q_grid.irrk_inv).reshape(mesh)
    nv = niv - ncond
    for k in np.ndindex(*mesh):
        q = int(inv[k])
        for wp in range(-nvert, nvert + 1):
            for w in range(ncond + 1):
                for v in range(-nv, nv):
                    f = {}
                    for ch in ('magn', 'dens'):
                        a, vr, g = data[ch]
                        u_r = ur(ch, cfg.sys.u)
                        x, y = c20.f12(cfg.sys.beta, u_r, a[q, wp + niw], vr[q, wp + niw], g[q, wp + niw], v + niv, v - w + niv)
                        f[ch] = x + (1 - u_r * chi[ch][k + (wp + niw,)]) * y
                    ctx.eq(out['F_cond'][k + (wp + nvert, w, v + nv)], -f['dens'] / 2 - 3 * f['magn'] / 2, '-1/2 F_d - 3/2 F_m')


def cases(tier):
    th = tier != 'quick'
    out = []
    for niv, new, nw in ((1, 1, 0), (2, 1, 1), (3, 2, 1), (3, 1, 2)) + (((5, 3, 2),) if th else ()):
        out.append((slices, dict(niv=niv, new=new, nw=nw)))
    for nk, niw, niv, nvert, ncond, size in (((1, 1, 1), 1, 2, 1, 1, 1), ((2, 1, 1), 2, 2, 1, 1, 2), ((3, 1, 1), 1, 3, 0, 2, 2), ((1, 1, 1), 2, 3, 2, 1, 1), ((1, 2, 3), 1, 2, 1, 1, 2)) + \
            ((((2, 2, 1), 2, 3, 2, 1, 3), ((1, 1, 1), 3, 5, 3, 2, 1)) if th else ()):
        out.append((components, dict(nk=nk, niw=niw, niv=niv, nvert=nvert, ncond=ncond, size=size)))
    out.append((components, dict(nk=(12, 1, 1), niw=0, niv=1, nvert=0, ncond=0, size=12)))
    out.append((components, dict(nk=(1, 1, 1), niw=101, niv=2, nvert=101, ncond=1, size=1)))
    out.append((components, dict(nk=(1, 1, 1), niw=1, niv=2, nvert=1, ncond=1, size=1, tasks=(7, 11, 99, 100, 101, 999, 1000, 1234))))
    for nk, sym, niw, niv, nvert, ncond, size in (((1, 1, 1), (), 1, 2, 1, 1, 1), ((2, 2, 1), 'two_dimensional_square', 2, 2, 1, 1, 2),
                                                  ((3, 2, 1), 'quasi_one_dimensional_square', 1, 2, 1, 1, 2), ((1, 2, 3), ('z-inv',), 1, 2, 1, 1, 2),
                                                  ((2, 1, 3), ('x-inv', 'z-inv'), 1, 2, 1, 1, 3)) + \
            ((((4, 4, 1), 'two_dimensional_square', 1, 2, 1, 1, 4), ((2, 1, 1), (), 2, 3, 2, 1, 2)) if th else ()):
        out.append((build, dict(nk=nk, sym=sym, niw=niw, niv=niv, nvert=nvert, ncond=ncond, size=size)))
    out.append((build, dict(nk=(4, 2, 1), nq=(2, 3, 1), sym=(), niw=1, niv=2, nvert=1, ncond=1, size=2)))
    out.append((build, dict(nk=(4, 4, 1), nq=(2, 2, 1), sym='two_dimensional_square', niw=1, niv=2, nvert=1, ncond=1, size=2)))
    return out
