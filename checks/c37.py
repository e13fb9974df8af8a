"""C37 analytic continuation: what reaches the solver, what comes back, and the continuation program"""
import contextlib
import io
import math
import os
import numpy as np
from dga import analytic_continuation as ac, config, dga_max_ent as dm, two_point as twop, mpi_aux, optics, matsubara_frequencies as mf, \
    brillouin_zone as bz, dga_io, high_level_plotting as hlp, loggers
from ana_cont import continuation as cont
from common import Store, replaced, no_plots, NoOp, sym_g
from c32 import Group, Rank
from c36 import rational
from vsym.harness import HarnessError
from vsym.scalar import lift

EXPLANATION = ('symbolic Matsubara data, temperature, mesh limits and error; the numerical optimiser is replaced by one that records the problem it is '
               'given and answers with a symbolic spectrum; reference: the data at positive frequencies, normalised flat model, Kramers-Kronig '
               'sum, and for the program the mapping between momenta and irreducible points written out')
OUTSIDE = ('the maximisation of the entropy functional (C40) and the fit of the blur width; meshes of more real frequencies, more processes and momenta than '
           'listed')


class Solver:
    """stands for the maximum-entropy optimiser"""

    def __init__(self, ctx, fail=()):
        self.ctx, self.fail, self.seen = ctx, fail, []

    def __call__(self, im_axis, re_axis, im_data, kernel_mode='', **kw):
        self.seen.append(dict(kw, im_axis=im_axis, re_axis=re_axis, im_data=im_data, kernel_mode=kernel_mode))
        n = len(self.seen) - 1
        me = self

        class Run:
            def solve(self, **k2):
                if n in me.fail:
                    raise RuntimeError('no solution')
                sol = NoOp()
                sol.A_opt = me.spec(n, len(re_axis))
                sol.chi2 = me.chi2(n)
                me.seen[n]['solve'] = k2
                return sol, [sol]
        return Run()

    def spec(self, n, size):
        if not hasattr(self, '_s'):
            self._s = {}
        if n not in self._s:
            self._s[n] = self.ctx.real(f'A{n}', (size,))
        return self._s[n]

    def chi2(self, n):
        if not hasattr(self, '_c'):
            self._c = {}
        if n not in self._c:
            self._c[n] = self.ctx.pos(f'chi2_{n}')
        return self._c[n]


@contextlib.contextmanager
def solver(ctx, fail=()):
    s = Solver(ctx, fail)
    with replaced((cont.solvers, 'MaxentSolverSVD', s)), contextlib.redirect_stdout(io.StringIO()):
        yield s


def kk(a, w):
    n = len(w)
    dw = [((w[min(i + 1, n - 1)] - w[i]) + (w[i] - w[max(i - 1, 0)])) / 2 for i in range(n)]
    return [sum(dw[i] * a[i] / (w[j] - w[i]) for i in range(n) if i != j) - 1j * np.pi * a[j] for j in range(n)]


def integral(m, w):
    return sum((m[i] + m[i + 1]) * (w[i + 1] - w[i]) / 2 for i in range(len(w) - 1))


def problem(ctx, p, mat, mode, beta, n_fit, w, opts):
    """the optimiser is asked to continue the given data"""
    bos = mode == 'freq_bosonic'
    niv = len(mat) // 2
    n = min(n_fit, niv)
    num = n + 1 if bos else n
    ctx.true(p['kernel_mode'] == mode, 'kernel')
    ctx.true(len(p['im_axis']) == num and len(p['im_data']) == num, 'number of frequencies fits the data')
    for i in range(num):
        ctx.eq(p['im_axis'][i], (2 * i if bos else 2 * i + 1) * np.pi / beta, 'non-negative Matsubara frequencies')
        ctx.eq(p['im_data'][i], mat[niv + i], 'data of these frequencies')
    ctx.eq(np.array(p['re_axis']), w, 'real-frequency mesh')
    ctx.eq(integral(p['model'], w), mat[niv].real if bos else 1, 'normalisation of the default model')
    for i in range(1, len(w)):
        ctx.eq(p['model'][i], p['model'][0], 'flat default model')
    ctx.true(len(p['stdev']) == num, 'one deviation per frequency')
    for s in p['stdev']:
        ctx.eq(s, opts['err'], 'standard deviation')
    for k in ('alpha_determination', 'optimizer', 'preblur', 'alpha_start', 'alpha_end', 'alpha_div', 'fit_position'):
        if k in opts:
            ctx.true(p[k] == opts[k] and p['solve'][k] == opts[k], k)
    ctx.eq(p['blur_width'], opts['bw'], 'blur width')


def make(ctx, mode, nwr, n_fit, beta, bw=0.0, wmin=None, comm=None, base=None, **kw):
    wmax = ctx.pos('wmax')
    lo = -wmax if mode == 'freq_fermionic' else 0.0
    err = ctx.pos('err')
    opts = dict(alpha_det_method='classic', optimizer='scipy_lm', alpha_start=1e5, alpha_end=1e-2, alpha_div=7., fit_position=2.2)
    base = dict(n_fit=n_fit + 3, nwr=nwr, mesh_type='linear', wmax=wmax, wmin=lo if wmin is None else wmin, bw=bw, **opts)
    me = ac.MaxEnt(beta, mode, comm=comm or NoOp(), me_config=base, n_fit=n_fit, err=err, **kw)
    opts['alpha_determination'] = opts.pop('alpha_det_method')
    w = [lo + (wmax - lo) * i / (nwr - 1) for i in range(nwr)]
    return me, np.array(w, dtype=object) if ctx.sym else np.array(w), dict(opts, err=err, preblur=bool(bw), bw=bw)


def single(ctx, mode, nwr, n_fit, niv, nm=1, fail=(), bw=0.0):
    beta = ctx.pos('beta')
    me, w, opts = make(ctx, mode, nwr, n_fit, beta, bw)
    bos = mode == 'freq_bosonic'
    mats = [ctx.cplx(f'm{i}', (2 * niv + bos,)) for i in range(nm)]
    if bos:
        for m in mats:
            ctx.assume(m[niv].real > 0)
    ctx.eq(np.array(me.w), w, 'mesh of the continuation')
    with solver(ctx, fail) as s:
        r = me.analytic_continuation([m.copy() for m in mats])
    ctx.true(len(s.seen) == nm and tuple(np.shape(r)) == (nm, nwr), 'one result per entry')
    for i in range(nm):
        if i in fail:
            ctx.eq(r[i], ctx.zeros((nwr,)), 'failed entries are zero')
            continue
        problem(ctx, s.seen[i], mats[i], mode, beta, n_fit, w, opts)
        a = s.spec(i, nwr)
        if bos:
            ctx.eq(r[i], a * np.pi / 2, 'imaginary part of the susceptibility')
        else:
            for j, x in enumerate(kk(a, w)):
                ctx.eq(r[i, j], x, 'retarded function of the spectrum')


def settings(ctx, mode, force):
    """specific settings overrule general ones; what a bosonic kernel cannot use is switched off"""
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        wmin = -ctx.pos('wmin')
        me = ac.MaxEnt(ctx.pos('beta'), mode, comm=NoOp(), me_config=dict(nwr=3, bw=0.2, wmin=wmin, wmax=4., mesh_type='linear', n_fit=7, err=0.5),
                       n_fit=2, err=0.25, force_preblur=force)
        with replaced((np, 'tan', rational(math.tan))) if ctx.sym else contextlib.nullcontext():
            d = ac.MaxEnt(1.0, mode, comm=NoOp())
    bos = mode == 'freq_bosonic'
    ctx.true(me.n_fit == 2 and me.err == 0.25 and me.nwr == 3 and len(me.w) == 3, 'settings')
    ctx.eq(me.bw, 0 if bos and not force else 0.2, 'blur width')
    ctx.true(me.use_preblur == (not bos or force), 'blurring')
    ctx.eq(me.w[0], 0 if bos else wmin, 'lower end')
    ctx.eq(me.w[-1], 4, 'upper end')
    ctx.true(d.n_fit == 20 and d.nwr == 501 and len(d.w) == 501 and d.mesh_type == 'tan' and d.method == 'maxent_svd', 'defaults')
    ctx.true(d.w[0] == (0 if bos else -15) and d.w[-1] == 15, 'default range')
    ctx.raises(AssertionError, lambda: ac.MaxEnt(1.0, 'time', comm=NoOp()), 'unknown kernels are refused')


def collective(size, prog, order=None):
    g, out = Group(size), {}
    for turn in (0, 1):
        for r in (order or range(size)):
            out[r] = prog(Rank(g, r), turn)
    return out


def distributed(ctx, mode, ntasks, size, niv=2, nwr=3, n_fit=2, fail=()):
    """the result does not depend on the number of processes; failures stay with their own entry"""
    beta = ctx.pos('beta')
    bos = mode == 'freq_bosonic'
    me, w, opts = make(ctx, mode, nwr, n_fit, beta)
    mat = ctx.cplx('m', (ntasks, 2 * niv + bos))
    answers = ctx.real('A', (ntasks, nwr))
    keep = mat.copy()
    task = [None]

    def prog(comm, turn):
        dist = mpi_aux.MpiDistributor(ntasks=ntasks, comm=comm)
        own = [int(t) for t in dist.my_tasks]
        s = Solver(ctx, [i for i, t in enumerate(own) if t in fail])
        s.spec = lambda n, size: answers[own[n]]
        s.chi2 = lambda n: 1.0
        with replaced((cont.solvers, 'MaxentSolverSVD', s)), contextlib.redirect_stdout(io.StringIO()):
            r = ac.mpi_ana_cont(mat if comm.rank == 0 else None, me, dist, 'x', logger=NoOp() if comm.rank else None)
        if turn:
            for i, t in enumerate(own):
                ctx.eq(s.seen[i]['im_data'], keep[t, niv:niv + len(s.seen[i]['im_data'])], 'own entry')
        return r
    r = collective(size, prog)[0]
    ctx.true(tuple(np.shape(r)) == (ntasks, nwr), 'all results at the root')
    for t in range(ntasks):
        if t in fail:
            ctx.eq(r[t], ctx.zeros((nwr,)), 'failed entries are zero')
        elif bos:
            ctx.eq(r[t], answers[t] * np.pi / 2, 'result of this entry')
        else:
            for j, x in enumerate(kk(answers[t], w)):
                ctx.eq(r[t, j], x, 'result of this entry')


def conf_mesh(ctx, given, kind, nwr):
    """the mesh of the configuration follows the settings"""
    wmax = ctx.pos('wmax')
    d = {'nwr': nwr, 'wmax': wmax, 'mesh_type': kind, 'cut': 0.1, 'err': ctx.pos('err')}
    d = {k: v for k, v in d.items() if k in given}
    with replaced((np, 'tan', rational(math.tan))) if ctx.sym else contextlib.nullcontext():
        conf_mesh_(ctx, d)


def conf_mesh_(ctx, d):
    me = config.MaxEntConfig(1, 2.0, d)
    full = dict(nwr=501, wmax=15, mesh_type='tan', cut=0.04)
    full.update(d)
    want = ac.get_w_mesh(full['mesh_type'], -full['wmax'], full['wmax'], full['nwr'], full['cut'])
    ctx.true(len(me.mesh) == full['nwr'], 'number of real frequencies')
    ctx.eq(np.array(me.mesh), want, 'mesh')
    ctx.true(me.n_fit == 16, 'default number of Matsubara frequencies')
    for k in d:
        ctx.true(getattr(me, k) is d[k], k)


def local(ctx, nwr, n_fit, niv, bws, fit):
    """continuation of a local function for a range of blur widths"""
    beta = 2.0
    wmax, err = ctx.pos('wmax'), ctx.pos('err')
    me = config.MaxEntConfig(1, beta, {'nwr': nwr, 'wmax': wmax, 'mesh_type': 'linear', 'n_fit': n_fit, 'err': err})
    me.bw_range_loc = list(bws)
    w = np.array([-wmax + 2 * wmax * i / (nwr - 1) for i in range(nwr)])
    mat = ctx.cplx('m', (2 * niv,))
    saved, asked, texts = Store(), {}, {}
    popt = [0.5, 2.0, ctx.real('c'), ctx.pos('d')]

    def curve_fit(f=None, xdata=None, ydata=None, p0=None):
        asked.update(x=xdata, y=ydata)
        if not fit:
            raise RuntimeError('no fit')
        return popt, None

    class Opt:
        pass
    o = Opt()
    o.curve_fit = curve_fit
    exps = []
    with solver(ctx) as s, no_plots(), replaced((np, 'save', lambda f, m, **k: saved.__setitem__(str(f), m)), (ac, 'opt', o),
                                               (np, 'savetxt', lambda f, m, **k: texts.__setitem__(str(f), m)),
                                               (np, 'log', np.asarray), (np, 'exp', lambda x: x)):
        r = ac.max_ent_loc_bw_range(mat.copy(), me, name='g', out_dir='/o/')
    ctx.true(len(s.seen) == len(bws), 'one continuation per blur width')
    for i, b in enumerate(bws):
        problem(ctx, s.seen[i], mat, 'freq_fermionic', beta, n_fit, w,
                dict(err=err, bw=b, preblur=True, alpha_determination='chi2kink', optimizer='newton'))
        got = saved[f'/o/g_cont_bw{b}.npy']
        for j, x in enumerate(kk(s.spec(i, nwr), w)):
            ctx.eq(got[j], x, 'stored continuation')
        ctx.eq(np.array(asked['y'])[i], s.chi2(i), 'deviation of every blur width')
        ctx.eq(np.array(asked['x'])[i], b, 'blur widths')
    ctx.eq(np.array(saved['/o/w.npy']), w, 'stored mesh')
    if fit:
        ctx.eq(r, popt[2] - 10 / popt[3], 'optimal blur width (logarithm)')
        ctx.eq(texts['/o/bw_opt_g.txt'][0], r, 'stored blur width')
    else:
        ctx.eq(r, 0, 'no blur width without fit')


def program(ctx, nk, nq, sym, size, parts, niv=4, niw=2, nwr=3, n_fit=2, off=()):
    """the continuation program: which data are continued, mapped back and stored"""
    beta, n = 2.0, 0.9
    mu = ctx.real('mu')
    wmax = ctx.pos('wmax')
    me_conf = {'nwr': nwr, 'wmax': wmax, 'wmin': -wmax, 'mesh_type': 'linear', 'bw': 0.0, 'n_fit': n_fit, 'err': 0.01}
    for p in parts:
        me_conf[p] = {'do_cont': p not in off}
        if p.startswith('chi'):
            me_conf[p]['wmin'] = 0.0
    conf = {'lattice': {'nk': list(nk), 'nq': list(nq), 'symmetries': sym, 'type': 't_tp_tpp', 'hr_input': [1.0, -0.25, 0.125]},
            'box_sizes': {'niw_core': niw, 'niv_core': 2, 'niv_shell': 1}, 'max_ent': me_conf}
    sig = ctx.cplx('s', (niv,))
    kg = config.DgaConfig(conf, comm=Rank(Group(1), 0)).lattice
    kg.set_k_grid() if not hasattr(kg, 'k_grid') else None
    # symmetric fields, as the main program writes them
    sirr = ctx.cplx('sig', (kg.k_grid.nk_irr, niv))
    siwk = kg.k_grid.map_irrk2fbz(sirr)
    siwk = np.concatenate((np.conj(siwk[..., ::-1]), siwk), axis=-1)
    chis = {c: kg.q_grid.map_irrk2fbz(ctx.real(c, (kg.q_grid.nk_irr, 2 * niw + 1))) for c in ('dens', 'magn')}
    siw_dmft = np.concatenate((np.conj(sig[::-1]), sig))
    data = {'/p/dmft_input.npy': dict(n=n, beta=beta, u=1.0, mu_dmft=ctx.real('mu_dmft'), giw=None, siw=siw_dmft), '/p/siwk_dga.npy': siwk,
            '/p/chi_dens_lam.npy': chis['dens'], '/p/chi_magn_lam.npy': chis['magn']}
    data['/p/dmft_input.npy'].update(giw=siw_dmft)

    class Item:
        def __init__(self, d):
            self.d = d

        def item(self):
            return self.d

    def load(f, **k):
        f = Store.name(f)
        if f not in data:
            raise HarnessError(f'no file {f}')
        d = data[f]
        return Item(d) if isinstance(d, dict) else d.copy()

    class Yaml:
        def load(self, f):
            return conf
    saved, cond, filled = Store(), [], []
    spectra = []

    def same(a, b):
        """entries are told apart by their values"""
        if len(a) != len(b):
            return False
        if not ctx.sym:
            return all(abs(complex(x) - complex(y)) < 1e-9 * max(1, abs(complex(y))) for x, y in zip(a, b))
        return all(str(x) == str(y) for x, y in zip(a, b)) or all((lift(x) - lift(y)).is_zero() for x, y in zip(a, b))

    def find(mode, d):
        for m, e, a in spectra:
            if m == mode and same(e, d):
                return a

    def spectrum(mode, d):
        a = find(mode, d)
        if a is None:
            a = ctx.real(f'A{len(spectra)}', (nwr,))
            spectra.append((mode, list(d), a))
        return a

    mus = {'m': ctx.real('mu_found'), 'r': ctx.real('mu_realf')}
    locs = []

    def prog(comm, turn):
        comm.barrier = lambda: None
        if comm.rank == 0:
            locs.clear()

        class One:
            def __init__(self, im_axis, re_axis, im_data, kernel_mode='', **kw):
                self.d, self.m, self.re = im_data, kernel_mode, re_axis

            def solve(self, **kw):
                sol = NoOp()
                sol.A_opt = spectrum(self.m, self.d)
                sol.chi2 = 1.0
                return sol, [sol]

        def cond_stub(g, hr, grid, b, w_max, *a):
            cond.append((g, hr, grid, b, w_max))
            return 'sigma', 'w'

        def loc_stub(mat, me, name='', out_dir=''):
            locs.append((mat, me, name, os.path.normpath(out_dir), comm.rank))
            return 0.1
        real_open = lambda *a, **k: io.StringIO()
        dm.open = real_open
        try:
            with no_plots(), contextlib.redirect_stdout(io.StringIO()), replaced(
                    (cont.solvers, 'MaxentSolverSVD', One), (np, 'load', load), (np, 'save', saved.save),
                    (dm, 'YAML', Yaml), (dm.os.path, 'isfile', lambda f: Store.name(f) in data), (loggers, 'MpiLogger', lambda **k: NoOp()),
                    (dga_io, 'set_output_path', lambda base, comm=None: base + '/'),
                    (twop, 'update_mu', lambda **k: filled.append(k['target_filling']) or mus['m']),
                    (twop, 'adjust_mu_real_f', lambda mu0, nt, *a: filled.append(nt) or mus['r']),
                    (twop.SelfEnergy, 'estimate_niv_core', lambda self: self.niv),
                    (optics, 'vec_get_sigma_bub_realf', cond_stub), (ac, 'max_ent_loc_bw_range', loc_stub),
                    *[(hlp, f, lambda *a, **k: None) for f in ('plot_real_frequency_dispersion', 'plot_opt_cond', 'plot_chi_along_kpath')]):
                dm.main('/p/', comm)
        finally:
            del dm.open
    collective(size, prog)
    w = np.array([-wmax + 2 * wmax * i / (nwr - 1) for i in range(nwr)])
    wb = np.array([wmax * i / (nwr - 1) for i in range(nwr)])
    ek = kg.hr.get_ek(kg.k_grid)
    # moments of the self-energy as the tail of the given data
    s = siwk[..., niv:]
    mean = sum(s[ix] for ix in np.ndindex(*nk)) / int(np.prod(nk))
    last = min(4, niv)
    mom0 = sum(mean[i].real for i in range(niv - last, niv)) / last

    def cont_k(mat, grid, mode):
        """every point of the full zone gets the continuation of its own data"""
        out = {}
        niv_m = mat.shape[-1] // 2
        m = min(n_fit, niv_m)
        for ix in np.ndindex(*mat.shape[:3]):
            d = mat[ix][niv_m:niv_m + m + (mode == 'freq_bosonic')]
            out[ix] = find(mode, d)
        return out

    want = {}
    on = [p for p in parts if p not in off]
    if 's_dga' in on:
        base = siwk[..., niv - n_fit:niv + n_fit] - mom0
        c = cont_k(base, kg.k_grid, 'freq_fermionic')
        got = saved['/p/MaxEntSiwk/swk_dga_cont_fbz.npy']
        gg = saved['/p/MaxEntSiwk/gwk_dga_cont_fbz.npy']
        for ix in np.ndindex(*nk):
            if c[ix] is None:
                ctx.true(False, 'self-energy of every momentum is continued')
            k = kk(c[ix], w)
            for j in range(nwr):
                ctx.eq(got[ix][j], k[j] + mom0, 'self-energy with the Hartree term put back')
                ctx.eq(gg[ix][j] * (w[j] + mus['r'] - ek[ix] - k[j] - mom0 + 0.04j), 1, 'real-frequency propagator')
        ctx.eq(np.array(saved['/p/MaxEntSiwk/w.npy']), w, 'mesh')
        ctx.true(len(cond) >= 1 and cond[0][3] == beta, 'conductivity from this propagator')
        ctx.eq(cond[0][4], wmax / 3, 'conductivity range')
    if 'g_dga' in on:
        iv = [1j * (2 * i + 1) * np.pi / beta for i in range(n_fit)]
        g = ctx.zeros(tuple(nk) + (2 * n_fit,))
        got = saved['/p/MaxEntGiwk/gwk_dga_cont_fbz.npy']
        for ix in np.ndindex(*nk):
            a = find('freq_fermionic', [1 / (iv[i] + mus['m'] - ek[ix] - s[ix][i]) for i in range(n_fit)])
            ctx.true(a is not None, 'propagator of every momentum is continued')
            for j, x in enumerate(kk(a, w)):
                ctx.eq(got[ix][j], x, 'propagator of this momentum')
    for p, c, folder, name in (('chi_d', 'dens', 'MaxEntChiDens', 'chi_dens'), ('chi_m', 'magn', 'MaxEntChiMagn', 'chi_magn')):
        if p in on:
            r = cont_k(chis[c], kg.q_grid, 'freq_bosonic')
            got = saved[f'/p/{folder}/{name}_cont_fbz.npy']
            for ix in np.ndindex(*nq):
                ctx.true(r[ix] is not None, 'susceptibility of every momentum is continued')
                ctx.eq(got[ix], r[ix] * np.pi / 2, 'susceptibility of this momentum')
            ctx.eq(np.array(saved[f'/p/{folder}/w.npy']), wb, 'mesh')
    ctx.true(all(x == n for x in filled), 'filling of the input')
    if 'loc' in parts:
        ctx.true(sorted(x[2] for x in locs) == ['dga', 'dmft'], 'local propagators of both calculations, once each')
        ctx.true(all(x[4] == 0 and x[3] == '/p/MaxEnt' for x in locs), 'results in the folder of the local continuation')
        for mat, me, name, *_ in locs:
            ctx.eq(np.array(me.mesh), w, 'mesh of the settings')
            ctx.true(me.n_fit == n_fit and me.beta == beta and me.err == 0.01, 'settings')
            m = len(mat) // 2
            for i in range(-niv, niv):
                g = 0
                for ix in np.ndindex(*nk):
                    x = siw_dmft[niv + i] if name == 'dmft' else siwk[ix][niv + i]
                    mu_ = data['/p/dmft_input.npy']['mu_dmft'] if name == 'dmft' else mus['m']
                    g = g + 1 / (1j * (2 * i + 1) * np.pi / beta + mu_ - ek[ix] - x)
                ctx.eq(mat[m + i] * int(np.prod(nk)), g, 'momentum average of the propagator')
    else:
        ctx.true(not locs, 'no local continuation unless asked for')
    names = {'s_dga': 'MaxEntSiwk', 'g_dga': 'MaxEntGiwk', 'chi_d': 'MaxEntChiDens', 'chi_m': 'MaxEntChiMagn'}
    ctx.true({f.split('/')[2] for f in saved} == {names[p] for p in on if p in names}, 'only the requested quantities')


def cases(tier):
    big = tier == 'thorough'
    out = []
    for mode in ('freq_fermionic', 'freq_bosonic'):
        for nwr, n_fit, niv in ((3, 2, 3), (4, 3, 2), (3, 3, 3), (2, 1, 4)) + (((6, 4, 5), (7, 6, 4)) if big else ()):
            out.append((single, dict(mode=mode, nwr=nwr, n_fit=n_fit, niv=niv)))
        out.append((single, dict(mode=mode, nwr=3, n_fit=2, niv=2, nm=3)))
        for fail in ((0,), (1,), (0, 2), (0, 1, 2)):
            out.append((single, dict(mode=mode, nwr=3, n_fit=1, niv=2, nm=3, fail=fail)))
        for force in (False, True):
            out.append((settings, dict(mode=mode, force=force)))
        for ntasks, size in ((1, 1), (3, 1), (3, 2), (4, 3), (3, 3), (2, 3), (1, 3)) + (((7, 4), (5, 5), (2, 4)) if big else ()):
            out.append((distributed, dict(mode=mode, ntasks=ntasks, size=size)))
        for ntasks, size, fail in ((3, 2, (0,)), (3, 2, (1, 2)), (3, 2, (0, 1, 2)), (3, 3, (1,)), (4, 3, (0, 3))):
            out.append((distributed, dict(mode=mode, ntasks=ntasks, size=size, fail=fail)))
    out.append((single, dict(mode='freq_fermionic', nwr=3, n_fit=2, niv=2, bw=0.25)))
    for given in ((), ('nwr',), ('wmax',), ('mesh_type',), ('nwr', 'wmax', 'mesh_type'), ('nwr', 'wmax', 'err')):
        out.append((conf_mesh, dict(given=given, kind='linear', nwr=5)))
    out.append((conf_mesh, dict(given=('nwr', 'wmax', 'mesh_type', 'cut'), kind='lorentzian', nwr=4)))
    for fit in (True, False):
        out.append((local, dict(nwr=3, n_fit=2, niv=3, bws=(0.125, 0.5, 1.0), fit=fit)))
    allp = ('s_dga', 'g_dga', 'chi_d', 'chi_m')
    sq = 'two_dimensional_square'
    for nk, nq, sym, size in (((2, 2, 1), (2, 2, 1), sq, 1), ((2, 2, 1), (2, 2, 1), sq, 2), ((4, 4, 1), (2, 2, 1), sq, 2),
                              ((2, 2, 1), (2, 1, 1), (), 1), ((4, 2, 1), (2, 2, 1), (), 2), ((3, 3, 1), (3, 3, 1), sq, 3)):
        for parts in (('s_dga',), ('g_dga',), ('chi_d', 'chi_m')):
            out.append((program, dict(nk=nk, nq=nq, sym=sym, size=size, parts=parts)))
    for size, nk in ((1, (2, 2, 1)), (2, (2, 1, 1)), (1, (1, 1, 1))):
        out.append((program, dict(nk=nk, nq=nk, sym=sq if nk == (2, 2, 1) else (), size=size, parts=('loc',))))
    out.append((program, dict(nk=(2, 2, 1), nq=(2, 2, 1), sym=sq, size=1, parts=allp, off=('g_dga', 'chi_d'))))
    return out
