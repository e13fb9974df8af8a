"""C20 pairing vertex; C25/C26 share the storage of the ladder vertex"""
import numpy as np
from dga import pairing_vertex as pv, four_point as fp, mpi_aux, matsubara_frequencies as mf
from common import H5, replaced, distributor, make_cfg, no_plots, Comm, NoOp, ur

EXPLANATION = ('symbolic auxiliary susceptibilities, three-leg vertices, bubbles and ladder susceptibilities per momentum; the components are '
               'written by every process through the real code into in-memory files, read back and combined; reference: the crossing '
               'relation for every (q, v, v\')')
OUTSIDE = 'HDF5 itself; more momenta and frequencies than listed'


def ladder(ctx, tag, nq, nw, niv):
    return ctx.cplx('aux' + tag, (nq, nw, 2 * niv, 2 * niv)), ctx.cplx('vrg' + tag, (nq, nw, 2 * niv)), ctx.cplx('g0' + tag, (nq, nw, 2 * niv))


def f12(beta, u_r, aux, vrg, g0, a, b):
    """the two parts of F[a, b] = f1 + (1 - u_r chi) f2"""
    f1 = beta ** 2 * ((1 if a == b else 0) - aux[a, b] / g0[b]) / g0[a]
    return f1, u_r * vrg[a] * vrg[b]


def parts(ctx, beta, u_r, aux, vrg, g0, niv, niw, v, vp):
    """-F(w = v-v', v, -v'): parts f1 and f2"""
    a, b = v + niv, -vp - 1 + niv
    w = v - vp + niw
    f1, f2 = f12(beta, u_r, aux[w], vrg[w], g0[w], a, b)
    return -f1, -f2


def slice_(ctx, niv, npp):
    m = ctx.cplx('m', (2 * niv, 2 * niv))
    om = pv.get_omega_condition(npp)
    for w in range(-2 * npp + 1, 2 * npp):
        cond = om == w
        out = ctx.zeros((2 * npp, 2 * npp))
        out[cond] = pv.get_pp_slice_4pt(m, cond, npp)
        for v in range(-npp, npp):
            for vp in range(-npp, npp):
                ctx.eq(out[v + npp, vp + npp], -m[v + niv, -vp - 1 + niv] if v - vp == w else 0, 'w = v - v\'')


def chi_pp(ctx, nk, niw, npp):
    c = ctx.cplx('chi', tuple(nk) + (2 * niw + 1,))
    r = pv.reshape_chi(c, npp)
    for v in range(-npp, npp):
        for vp in range(-npp, npp):
            ctx.eq(r[..., v + npp, vp + npp], c[..., v - vp + niw], 'chi at v - v\'')


def from_chi_aux(ctx, niv, batch):
    beta, u = ctx.pos('beta'), ctx.real('u')
    aux, vrg, g0 = ladder(ctx, '', batch, 1, niv)
    chi = ctx.cplx('chi', (batch, 1))
    f = pv.ladder_vertex_from_chi_aux(gchi_aux=aux, vrg=vrg, chir=chi, gchi0=g0, beta=beta, u_r=u)
    f1, f2 = fp.ladder_vertex_from_chi_aux_components(gchi_aux=aux, vrg=vrg, gchi0=g0, beta=beta, u_r=u)
    for q in range(batch):
        for a in range(2 * niv):
            for b in range(2 * niv):
                x, y = f12(beta, u, aux[q, 0], vrg[q, 0], g0[q, 0], a, b)
                ctx.eq(f1[q, 0, a, b], x, 'f1')
                ctx.eq(f2[q, 0, a, b], y, 'f2')
                ctx.eq(f[q, 0, a, b], x + (1 - u * chi[q, 0]) * beta ** 2 * y, 'sum with vrg in units of beta')


def store(ctx, cfg, size, nq, nw, niv, write, tasks=None):
    """what the processes write; with tasks, one process that has been given these momenta"""
    data = {}
    for ch in ('dens', 'magn'):
        data[ch] = ladder(ctx, ch, len(tasks or range(nq)), nw, niv)
    if tasks:
        with replaced((mpi_aux.MpiDistributor, 'my_tasks', property(lambda self: np.array(tasks)))):
            for ch in ('dens', 'magn'):
                write(cfg, distributor(mpi_aux.MpiDistributor, 0, 1, nq), ch, *data[ch])
        return data
    for r in range(size):
        d = distributor(mpi_aux.MpiDistributor, r, size, nq)
        s = d.my_slice
        for ch in ('dens', 'magn'):
            a, v, g = data[ch]
            write(cfg, d, ch, a[s], v[s], g[s])
    return data


def setup(ctx, nk, sym, niw, niv, size, **kw):
    beta, u = ctx.pos('beta'), ctx.real('u')
    return make_cfg(ctx, nk=nk, symmetries=sym, niw=niw, niv=niv, beta=beta, u=u, comm=Comm(0, 1), **kw)


def components(ctx, nk, niw, niv, size, tasks=None):
    h5 = H5()
    with replaced((mpi_aux, 'h5py', h5), (pv, 'h5py', h5)):
        cfg = setup(ctx, nk, (), niw, niv, size)
        nq = int(np.prod(nk)) if not tasks else max(tasks) + 1
        data = store(ctx, cfg, size, nq, 2 * niw + 1, niv, pv.write_pairing_vertex_components, tasks)
        npp = int(cfg.box.niv_pp)
        f1m, f2m, f1d, f2d = pv.load_pairing_vertex_from_rank_files(output_path=cfg.output_path, name='Q', mpi_size=size, nq=nq, niv_pp=npp)
    for ch, f1, f2 in (('magn', f1m, f2m), ('dens', f1d, f2d)):
        a, vr, g = data[ch]
        for i, q in enumerate(tasks or range(nq)):
            for v in range(-npp, npp):
                for vp in range(-npp, npp):
                    x = parts(ctx, cfg.sys.beta, ur(ch, cfg.sys.u), a[i], vr[i], g[i], niv, niw, v, vp)
                    y = parts(ctx, cfg.sys.beta, ur(ch, cfg.sys.u), a[i], vr[i], g[i], niv, niw, vp, v)
                    for f, j in ((f1, 0), (f2, 1)):
                        ctx.eq(f[q, v + npp, vp + npp], (x[j] + np.conj(y[j])) / 2, f'{ch} f{j + 1}: -F(v-v\', v, -v\'), symmetrised')


def built(ctx, nk, sym, niw, niv, size, nq=None):
    """pairing vertex assembled from the files of all processes; drawn figures go to plotting"""
    h5 = H5()
    out = {}
    with replaced((mpi_aux, 'h5py', h5), (pv, 'h5py', h5)):
        cfg = setup(ctx, nk, sym, niw, niv, size, nq=nq)
        mesh = tuple(cfg.lattice.q_grid.nk)
        grid = cfg.lattice.q_grid
        nq = int(grid.nk_irr)
        data = store(ctx, cfg, size, nq, 2 * niw + 1, niv, pv.write_pairing_vertex_components)
        chi = {ch: ctx.cplx('chi' + ch, mesh + (2 * niw + 1,)) for ch in ('magn', 'dens')}
        cfg.eliash.output_path = '/nonexistent-output/'
        cfg.eliash.save_data = lambda mat, name: out.__setitem__(name, mat)
        pv.build_pairing_vertex(cfg, Comm(0, size), chi['magn'], chi['dens'])
    return cfg, data, chi, out


def build(ctx, nk, sym, niw, niv, size, nq=None):
    with no_plots(), replaced((pv.lfp, 'plot_fourpoint_nu_nup', NoOp())):
        cfg, data, chi, out = built(ctx, nk, sym, niw, niv, size, nq)
    npp = int(cfg.box.niv_pp)
    mesh = tuple(cfg.lattice.q_grid.nk)
    inv = np.asarray(cfg.lattice.q_grid.irrk_inv).reshape(mesh)
    for k in np.ndindex(*mesh):
        q = int(inv[k])
        for v in range(-npp, npp):
            for vp in range(-npp, npp):
                f = {}
                for ch in ('magn', 'dens'):
                    a, vr, g = data[ch]
                    ur_ = ur(ch, cfg.sys.u)
                    x = parts(ctx, cfg.sys.beta, ur_, a[q], vr[q], g[q], niv, niw, v, vp)
                    y = parts(ctx, cfg.sys.beta, ur_, a[q], vr[q], g[q], niv, niw, vp, v)
                    f[ch] = (x[0] + np.conj(y[0])) / 2 + (1 - ur_ * chi[ch][k + (v - vp + niw,)]) * (x[1] + np.conj(y[1])) / 2
                ix = k + (v + npp, vp + npp)
                ctx.eq(out['F_sing_pp'][ix], 1.5 * f['magn'] - 0.5 * f['dens'], 'singlet')
                ctx.eq(out['F_trip_pp'][ix], 0.5 * f['magn'] + 0.5 * f['dens'], 'triplet')


def cases(tier):
    th = tier != 'quick'
    out = []
    for niv, npp in ((1, 1), (2, 1), (3, 1), (3, 2), (4, 2)) + (((4, 3), (5, 4)) if th else ()):
        out.append((slice_, dict(niv=niv, npp=npp)))
    for nk, niw, npp in (((1, 1, 1), 1, 1), ((2, 1, 1), 2, 1), ((1, 2, 2), 3, 2), ((1, 1, 1), 5, 2)) + ((((2, 2, 1), 5, 3),) if th else ()):
        out.append((chi_pp, dict(nk=nk, niw=niw, npp=npp)))
    for niv, b in ((1, 1), (2, 1), (2, 2)):
        out.append((from_chi_aux, dict(niv=niv, batch=b)))
    for nk, niw, niv, size in (((1, 1, 1), 2, 2, 1), ((2, 1, 1), 2, 2, 2), ((2, 1, 1), 2, 3, 3), ((3, 1, 1), 3, 2, 2), ((1, 1, 1), 4, 4, 1), ((1, 2, 3), 2, 2, 2)) + \
            ((((2, 2, 1), 4, 4, 3), ((1, 1, 1), 6, 6, 1)) if th else ()):
        out.append((components, dict(nk=nk, niw=niw, niv=niv, size=size)))
    out.append((components, dict(nk=(12, 1, 1), niw=2, niv=2, size=12)))
    out.append((components, dict(nk=(1, 1, 1), niw=2, niv=2, size=1, tasks=(7, 11, 99, 100, 101, 999, 1000, 1234))))
    for nk, sym, niw, niv, size in (((1, 1, 1), (), 2, 2, 1), ((2, 2, 1), (), 2, 2, 3), ((2, 2, 1), 'two_dimensional_square', 2, 2, 2),
                                    ((3, 2, 1), 'quasi_one_dimensional_square', 2, 2, 2), ((1, 1, 1), (), 4, 4, 1), ((1, 2, 3), ('z-inv',), 2, 2, 2),
                                    ((2, 1, 3), ('x-inv', 'z-inv'), 2, 2, 3)) + \
            ((((4, 4, 1), 'two_dimensional_square', 2, 3, 4), ((2, 1, 1), (), 4, 4, 2)) if th else ()):
        out.append((build, dict(nk=nk, sym=sym, niw=niw, niv=niv, size=size)))
    out.append((build, dict(nk=(4, 2, 1), nq=(2, 3, 1), sym=(), niw=2, niv=2, size=2)))
    out.append((build, dict(nk=(4, 4, 1), nq=(2, 2, 1), sym='two_dimensional_square', niw=2, niv=2, size=2)))
    return out
