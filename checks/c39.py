"""C39 the main program: which data go into which step, and what is stored"""
import contextlib
import copy
import inspect
import io
import sys
import os as real_os
import numpy as np
from dga import (config, dga_io, dga_main as dm, dga_max_ent as dme, two_point as twop, mpi_aux, optics, bubble as bub, brillouin_zone as bz,
                 high_level_routines as hlr, four_point as fp, lambda_correction as lc, pairing_vertex as pv, eliashberg_equation as eq, loggers,
                 util, matsubara_frequencies as mf, ornstein_zernicke_function as ozf, plotting, analytic_continuation as ac, wannier)
from common import replaced, no_plots, NoOp, H5, kmean
from mpisim import World, Current, rank
from vsym.harness import HarnessError

EXPLANATION = ('the main program is run on symbolic DMFT data by 1..3 simulated processes in different schedules; the numerical kernels, which have '
               'checks of their own (C06-C26, C37), record what they are given and answer with free symbols per momentum; reference: the flow of '
               'data written out momentum by momentum')
OUTSIDE = 'the kernels themselves (other properties); figures and log files; more momenta, frequencies and processes than listed'


class Paths:
    def __init__(self, os):
        self.os = os

    def exists(self, f):
        return self.os.norm(f) in self.os.dirs or self.os.norm(f) in self.os.files

    def isfile(self, f):
        return self.os.norm(f) in self.os.files

    def __getattr__(self, n):
        return getattr(real_os.path, n)


class Disk:
    """stands for the os module and numpy's files"""

    def __init__(self):
        self.dirs, self.files, self.text, self.opened = set(), {}, {}, []
        self.path = Paths(self)
        self.h5 = H5()

    @staticmethod
    def norm(f):
        return real_os.path.normpath(str(f))

    def mkdir(self, d):
        if self.path.exists(d):
            raise FileExistsError(d)
        self.dirs.add(self.norm(d))

    def makedirs(self, d, exist_ok=False):
        if not (exist_ok and self.path.exists(d)):
            self.mkdir(d)

    def getcwd(self):
        return '/in'

    def remove(self, f):
        f = self.norm(f)
        if f in self.h5.files:
            del self.h5.files[f]
        elif f in self.files:
            del self.files[f]
        else:
            raise FileNotFoundError(f)

    def __getattr__(self, n):
        raise HarnessError(f'os.{n} is not modelled')

    def parent(self, f):
        if real_os.path.dirname(self.norm(f)) not in self.dirs:
            raise FileNotFoundError(f)

    def save(self, f, mat, **k):
        self.parent(f)
        f = self.norm(f)
        self.files[f if f.endswith('.npy') else f + '.npy'] = mat.copy() if hasattr(mat, 'copy') else mat

    def savetxt(self, f, mat, **k):
        self.parent(f)
        self.text[self.norm(f)] = (np.array(mat), k.get('header', ''))

    def load(self, f, **k):
        f = self.norm(f)
        if f not in self.files:
            raise FileNotFoundError(f)
        d = self.files[f]
        if isinstance(d, dict):
            class Item:
                def item(self):
                    return d
            return Item()
        if not np.asarray(d).shape or np.asarray(d).size == 1:
            raise HarnessError('ambiguous file content')
        return Stored(d)


class Stored(np.ndarray):
    """array whose item() fails as for any array of more than one element"""

    def __new__(cls, a):
        return a.copy()


def orbit(q, nq, sym):
    if not sym:
        return {q}
    x, y, z = q
    out = set()
    for a, b in ((x, y), (y, x)):
        for s in (1, -1):
            for t in (1, -1):
                out.add(((s * a) % nq[0], (t * b) % nq[1], z))
    return out


def tup(q):
    return tuple(int(i) for i in q)


class Free:
    """free symbols under a name, the same at every request"""

    def __init__(self, ctx):
        self.ctx, self.d = ctx, {}

    def __call__(self, name, shape=(), kind='cplx'):
        if name not in self.d:
            self.d[name] = getattr(self.ctx, kind)(name.replace(' ', ''), shape)
        x = self.d[name]
        if tuple(np.shape(x)) != tuple(shape):
            raise HarnessError(f'{name}: {np.shape(x)} and {shape}')
        return x.copy() if shape else x


class Run:
    def __init__(self, ctx, conf, size, order, ns):
        self.ctx, self.conf, self.size, self.order = ctx, conf, size, order
        self.free = Free(ctx)
        self.disk = Disk()
        self.rec = {}
        self.__dict__.update(ns)

    def put(self, key, **v):
        self.rec.setdefault(key, {}).setdefault(rank(), []).append(v)

    def get(self, key, ranks=None):
        r = self.rec.get(key, {})
        want = list(range(self.size)) if ranks is None else ranks
        self.ctx.true(sorted(r) == want and all(len(v) == 1 for v in r.values()), f'{key}: once on the expected processes')
        return [r[i][0] for i in want]

    def run(self):
        ctx, free, disk = self.ctx, self.free, self.disk
        nw = 2 * self.niw + 1
        me = self
        cfgs = {}

        real_parse = config.parse_config_file

        def parse(comm=None):
            cfgs[rank()], conf = real_parse(comm)
            return cfgs[rank()], conf

        class Yaml:
            def load(self, f):
                me.put('read', path=f.name)
                return copy.deepcopy(me.conf)

            def dump(self, d, f):
                me.put('conf', conf=d, path=f.name)

        class File(io.StringIO):
            pass

        def opened(f, mode='r', **k):
            h = File()
            h.name = Disk.norm(f)
            if 'r' not in mode:
                disk.parent(f)
                disk.opened.append(h.name)
            return h

        def load(type_, path, f1, f2=None):
            me.put('load', args=(type_, path, f1, f2))
            return {k: (v.copy() if hasattr(v, 'shape') and np.shape(v) else v) for k, v in me.dmft.items()}

        def local(g2d, g2m, g, cfg):
            me.put('local', dens=g2d, magn=g2m, g=g, cfg=cfg)
            gam = [Tag('gamma_' + c, c) for c in ('dens', 'magn')]
            return (gam[0], gam[1], free('chi_dens', (nw,)), free('chi_magn', (nw,)), Tag('vrg_dens', 'dens'), Tag('vrg_magn', 'magn'),
                    np.concatenate((np.conj(free('sde', (me.niv + me.nsh,))[::-1]), free('sde', (me.niv + me.nsh,)))))

        def bubble_q(self, niv, q_list):
            me.put('bubble', niv=niv, q=[tup(q) for q in q_list], gen=self)
            a = ctx.zeros((len(q_list), nw, 2 * niv))
            for i, q in enumerate(q_list):
                a[i] = free(f'g0{tup(q)}', (nw, 2 * niv))
            return a

        def dc(gamma, gen, g0, cfg):
            me.put('dc', gamma=gamma, gen=gen, g0=g0.copy())
            return me.per_q('kdc', (nw, 2 * me.niv))

        def ladder(gamma, g0c, chi0u, chi0c, cfg, dist):
            c = gamma.channel
            me.put('ladder ' + c, gamma=gamma, g0c=g0c.copy(), chi0u=chi0u.copy(), chi0c=chi0c.copy(), dist=dist)
            return me.per_q('v' + c, (nw, 2 * me.niv)), me.per_q('x' + c, (nw,))

        def lam(d, m, beta, cd, cm, lambda_corr='spch', verbose=False):
            me.put('lambda', dens=d.copy(), magn=m.copy(), beta=beta, cd=cd, cm=cm, kind=lambda_corr)
            return me.field('Ldens'), me.field('Lmagn'), free('lam_d', (), 'real'), free('lam_m', (), 'real')

        def tail(self, niv, q_list):
            me.put('tail', niv=niv, gen=self)
            a = ctx.zeros((len(q_list), nw))
            for i, q in enumerate(q_list):
                a[i] = free(f'tail{tup(q)}', (nw,))
            return a

        def sde(vd, vm, cd, cm, k, g, beta, u, q_list, wn, nqtot, niv_shell=0, logger=None):
            me.put('sde', vd=vd, vm=vm, cd=cd, cm=cm, k=k, g=g, beta=beta, u=u, q=[tup(q) for q in q_list], wn=wn, nqtot=nqtot, nsh=niv_shell)
            t = ctx.zeros(tuple(me.nk) + (2 * me.niv,))
            for q in q_list:
                t = t + me.part(tup(q))
            return t

        def vertex(key, fname=None):
            def f(cfg, comm, magn, dens):
                me.put(key, dens=dens.copy(), magn=magn.copy(), cfg=cfg)
                if fname:
                    cfg.optics.save_data(me.cond(), fname)
                elif key == 'pairing':
                    for n in ('F_sing_pp', 'F_trip_pp'):
                        cfg.eliash.save_data(free('pp', (2, 2)), n)
            return f

        def gap(cfg, g, channel, *a, **k):
            me.put('eliash ' + channel, g=g, cfg=cfg)
            r = NoOp()
            n = cfg.eliash.n_eig
            for x, s in (('lam', (n,)), ('lam_s', (n,)), ('gap', (n,) + tuple(me.nk) + (2 * cfg.box.niv_pp,))):
                setattr(r, x, free(channel + x, s))
            return r

        def cbub(g, hr, grid, wn, niv_sum=None, der_a=0, der_b=0, **k):
            me.put('cbub', g=g, hr=hr, grid=grid, wn=wn, niv=niv_sum, der=(der_a, der_b), more=k)
            return free('jj', (len(wn),))

        def cvert(f, g, hr, grid, wn_vert=None, wn_cond=None, q_list=None, der_a=0, der_b=0):
            me.put('cvert', f=f, g=g, hr=hr, grid=grid, wv=wn_vert, wc=wn_cond, q=[tup(q) for q in q_list], der=(der_a, der_b))
            t = ctx.zeros((len(wn_cond),))
            for q in q_list:
                t = t + free(f'jv{tup(q)}', (len(wn_cond),))
            return t

        class MaxEnt:
            def __init__(self, beta, kernel_mode=None, *a, me_config=None, **k):
                me.put('maxent', beta=beta, mode=kernel_mode, conf=dict(me_config), inst=self)
                self.w, self.n = free('w', (3,), 'real'), 0

            def cont_single_ind(self, mat, *a, **k):
                me.put(f'cont {self.n}', mat=mat.copy())
                self.n += 1
                return free(f'cont{self.n - 1}', (3,))

        def drawn(key, real):
            sig = inspect.signature(real)

            def f(*a, **k):
                x = sig.bind(*a, **k)
                x.apply_defaults()
                me.put(key, **{n: v.copy() if isinstance(v, np.ndarray) else v for n, v in x.arguments.items()})
            return f

        def filled(**k):
            me.put('mu', **k)
            return me.mu_dga

        def energy(kind):
            return property(lambda self: free(kind + ('_dmft' if self.sigma is me.rec['local'][0][0]['g'].sigma else '_dga'), (), 'real'))

        def fit(mat, beta, grid, n_fit, order, name='', output_path=''):
            me.put('fit ' + name, mat=mat, beta=beta, grid=grid, n_fit=n_fit, order=order, path=output_path)

        def gamma_z(v, s, order=None, n_fit=None):
            me.put('gamma', v=v, s=s, order=order, n_fit=n_fit)
            return free('gam', (), 'real'), free('shift', (), 'real'), free('Z', (), 'real')

        def oz(grid, mat):
            me.put('oz', grid=grid, mat=mat)
            return np.array([free('oz_a', (), 'real'), free('oz_xi', (), 'real')]), None

        cls, G = config.DgaConfig, twop.GreensFunction
        with no_plots(), contextlib.redirect_stdout(io.StringIO()), replaced(
                (dm, 'comm', Current()), (config, 'parse_config_file', parse), (dga_io, 'load_1p_data', load), (hlr, 'local_sde_from_g2', local),
                (bub.BubbleGenerator, 'get_gchi0_q_list', bubble_q), (bub.BubbleGenerator, 'get_asymptotic_correction_q', tail),
                (hlr, 'construct_dc_kernel', dc), (hlr, 'construct_vrg_and_chi_q_urange', ladder), (lc, 'lambda_correction', lam),
                (fp, 'schwinger_dyson_full_q', sde), (pv, 'build_pairing_vertex', vertex('pairing')), (fp, 'build_vertex_fq', vertex('fq')),
                (optics, 'build_vertex_for_optical_conductivity', vertex('cond', 'F_cond')), (eq, 'linear_eliashberg', gap),
                (optics, 'vec_get_chijj_bubble', cbub), (optics, 'vec_get_chijj_vert', cvert), (ac, 'MaxEnt', MaxEnt),
                (plotting, 'plot_gap_function_kx_ky', drawn('plot gap', GAP)), (optics, 'plot_opt_cond_matsubara', drawn('plot m', optics.plot_opt_cond_matsubara)),
                (optics, 'plot_opt_cond_realf', drawn('plot r', optics.plot_opt_cond_realf)),
                (dme, 'main', lambda path=None, comm=None: me.put('continuation', path=path, files=dict(disk.files))),
                (dm.mpi, 'Finalize', lambda: me.put('end')) if hasattr(dm.mpi, 'Finalize') else (dm, 'comm', Current()),
                (twop, 'update_mu', filled), (twop, 'get_fill', lambda **k: (free('fill', (), 'real'), None)),
                (twop.SelfEnergy, 'estimate_niv_core', lambda self: self.niv), (G, 'e_kin', energy('e_kin')), (G, 'e_pot', energy('e_pot')),
                (bz, 'find_zeros', lambda *a, **k: np.zeros((0, 2), int)), (dga_io, 'poly_fit', fit), (ac, 'get_gamma_bandshift_z', gamma_z),
                (ozf, 'fit_oz_spin', oz), (loggers, 'MpiLogger', lambda **k: NoOp()), (cls, 'check_gloc_dmft', lambda *a: None),
                (cls, 'log_sys_params', lambda *a: None), (config.OutputConfig, 'to_yaml', lambda *a, **k: None),
                (config, 'YAML', Yaml), (sys, 'argv', ['dga', '-p', '/in/', '-c', 'my.yaml']),
                (wannier.WannierHr, 'save_hr', lambda self, *a, **k: me.put('hr')),
                *[(m, 'os', disk) for m in (config, util, mpi_aux, dga_io)], (mpi_aux, 'h5py', disk.h5),
                (np, 'save', disk.save), (np, 'savetxt', disk.savetxt), (np, 'load', disk.load)):
            config.open = opened
            try:
                World(self.size, self.order).run(lambda comm: dm.main())
            finally:
                del config.open
        self.cfgs = cfgs

    def per_q(self, name, shape):
        q = self.rec['bubble'][rank()][-1]['q']
        a = self.ctx.zeros((len(q),) + tuple(shape))
        for i, x in enumerate(q):
            a[i] = self.free(f'{name}{x}', shape)
        return a

    def field(self, name):
        """as the lambda correction returns it: symmetric, since the ladder is"""
        a = self.ctx.zeros(tuple(self.nq) + (2 * self.niw + 1,))
        for q in np.ndindex(*self.nq):
            a[q] = self.free(f'{name}{q}', (2 * self.niw + 1,))
        return a

    def part(self, q):
        p = self.free(f'E{q}', tuple(self.nk) + (self.niv,))
        return np.concatenate((np.conj(p[..., ::-1]), p), axis=-1)

    def cond(self):
        c = self.cfg_optics
        a = self.ctx.zeros(tuple(self.nq) + c)
        for q in np.ndindex(*self.nq):
            a[q] = self.free(f'F{q}', c)
        return a


class Tag:
    def __init__(self, name, channel):
        self.name, self.channel = name, channel

    def plot(self, *a, **k):
        pass


class Shaped:
    pass


def program(ctx, nk, nq, sym, size=1, order=None, niw=1, niv=1, nsh=1, data=(1, 2, 4), symv=True, lam='spch', parts=(), elsh=None, opt=None,
            poly=None, debug=None, save=(), verbosity=1, max_ent=False, existing=0):
    beta, u, n, mu = ctx.pos('beta'), ctx.real('u'), ctx.pos('n'), ctx.real('mu')
    dw, dv, ds = data
    conf = {'lattice': {'nk': list(nk), 'nq': list(nq), 'symmetries': sym, 'type': 't_tp_tpp', 'hr_input': [1.0, -0.25, 0.125]},
            'box_sizes': {'niw_core': niw, 'niv_core': niv, 'niv_shell': nsh, 'niv_asympt': 2},
            'dmft_input': {'type': 'w2dyn', 'input_path': '/in/', 'fname_1p': 'a.hdf5', 'fname_2p': 'b.hdf5', 'do_sym_v_vp': symv},
            'dga': {'lambda_corr': lam}, 'output': {'verbosity': verbosity, **{k.strip('-'): not k.startswith('-') for k in save}}}
    for name, sec in (('pairing', elsh), ('optics', opt), ('poly_fitting', poly), ('debug', debug)):
        if sec is not None:
            conf[name] = {k: (dict(v) if isinstance(v, dict) else v) for k, v in sec.items()}
    if max_ent:
        conf['max_ent'] = {'s_dga': {'do_cont': True}}
    sig = ctx.cplx('s', (ds,))
    siw = np.concatenate((np.conj(sig[::-1]), sig))
    gg = ctx.cplx('gl', (ds,))
    g2 = {c: ctx.cplx('g2' + c, (2 * dw + 1, 2 * dv, 2 * dv)) for c in ('dens', 'magn')}
    dmft = dict(n=n, beta=beta, u=u, mu_dmft=mu, giw=np.concatenate((np.conj(gg[::-1]), gg)), siw=siw, g4iw_dens=g2['dens'], g4iw_magn=g2['magn'])
    r = Run(ctx, conf, size, order, dict(nk=nk, nq=nq, niw=niw, niv=niv, nsh=nsh, dmft=dmft, mu_dga=ctx.real('mu_dga')))
    o = config.OpticsConfig(opt or {})
    if o.do_vertex:
        o.set_frequency_ranges(config.DgaConfig(conf, comm=None))
        r.cfg_optics = (2 * o.niw_vert + 1, o.niw_cond + 1, 2 * o.niv_vert)
    r.disk.dirs |= {'/in', '/'}
    name = f'/in/LDGA_{lam}_Nk{int(np.prod(nk))}_Nq{int(np.prod(nq))}_wc{niw}_vc{niv}_vs{nsh}'
    r.old = [name + (f'_{i}' if i else '') for i in range(existing)]
    r.disk.dirs |= set(r.old)
    r.run()
    check(ctx, r, conf, sym, siw, g2, symv, beta, u, n, mu)


def check(ctx, r, conf, sym, siw, g2, symv, beta, u, n, mu):
    nk, nq, niw, niv, nsh = r.nk, r.nq, r.niw, r.niv, r.nsh
    nw, nf, ds = 2 * niw + 1, niv + nsh, len(siw) // 2
    root, cfg = [0], r.cfgs[0]
    qs = [tup(q) for q in np.ndindex(*nq)]
    out = Disk.norm(cfg.output_path)
    txt = lambda f: r.disk.text[f'{out}/{f}'][0]
    def order(f, a, b):
        h = r.disk.text[f'{out}/{f}'][1].lower()
        ctx.true(-1 < h.find(a) < h.find(b), 'header in the order of the values')
    npy = lambda f: r.disk.files[f'{out}/{f}.npy']
    ctx.true(all(c.output_path == cfg.output_path for c in r.cfgs.values()) and out.startswith('/in/LDGA'), 'output folder')
    # ---- input
    old = getattr(r, 'old', [])
    ctx.true(out not in old and all(not (f + '/').startswith(tuple(d + '/' for d in old)) for f in [*r.disk.files, *r.disk.text, *r.disk.opened,
             *r.disk.h5.files, *(d for d in r.disk.dirs if d not in old)]) if old else True, 'results of earlier runs are not touched')
    for x in r.get('load'):
        ctx.true(x['args'] == ('w2dyn', '/in/', 'a.hdf5', 'b.hdf5'), 'input files')
    want = {}
    for c in g2:
        dw, dv = len(g2[c]) // 2, g2[c].shape[-1] // 2
        m = g2[c][dw - niw:dw + niw + 1, dv - niv:dv + niv, dv - niv:dv + niv]
        want[c] = (m + np.swapaxes(m, 1, 2)) / 2 if symv else m
    iv = lambda i: 1j * (2 * i + 1) * np.pi / beta
    ek = cfg.lattice.hr.get_ek(cfg.lattice.k_grid)
    for x in r.get('local'):
        for c in g2:
            ctx.eq(x[c].mat, want[c], 'two-particle function in the core box')
            ctx.true(x[c].channel == c, 'channel')
        g = x['g']
        ctx.eq(g.mu, mu, 'chemical potential of the DMFT')
        na = g.niv_core
        ctx.true(na == ds, 'DMFT frequencies')
        for k in np.ndindex(*nk):
            for i in range(ds):
                ctx.eq(g.core[k][ds + i] * (iv(i) + mu - ek[k] - siw[ds + i]), 1, 'DMFT propagator')
        ctx.true(g.niv_asympt == cfg.box.niv_asympt, 'propagator tail')
    dd = npy('dmft_input')
    for k, v in (('n', n), ('beta', beta), ('u', u), ('mu_dmft', mu), ('siw', siw), ('giw', r.dmft['giw']), ('g4iw_dens', want['dens']),
                 ('g4iw_magn', want['magn'])):
        ctx.eq(dd[k], v, 'stored input')
    # ---- ladder
    bub_ = r.get('bubble')
    irr = sum((b['q'] for b in bub_), [])
    rep = {}
    for q in qs:
        o = [x for x in irr if x in orbit(q, nq, sym)]
        ctx.true(len(o) == 1, 'each class of momenta is computed once, by one process')
        rep[q] = o[0]
    gd = [x['g'] for x in r.get('local')]
    for b, g in zip(bub_, gd):
        ctx.true(b['niv'] == nf and b['gen'].giwk_obj is g if hasattr(b['gen'], 'giwk_obj') else b['niv'] == nf, 'bubble window')
        ctx.true([int(w) for w in b['gen'].wn] == list(range(-niw, niw + 1)), 'bubble frequencies')
    for b, d in zip(bub_, r.get('dc')):
        ctx.true(d['gamma'].name == 'gamma_magn', 'double counting from the magnetic vertex')
        for i, q in enumerate(b['q']):
            ctx.eq(d['g0'][i], r.free(f'g0{q}', (nw, 2 * nf)), 'bubble of the double counting')
    for c in ('dens', 'magn'):
        for b, d in zip(bub_, r.get('ladder ' + c)):
            ctx.true(d['gamma'].name == 'gamma_' + c and len(d['g0c']) == len(b['q']), 'vertex of the channel')
            for i, q in enumerate(b['q']):
                g0 = r.free(f'g0{q}', (nw, 2 * nf))
                core = g0[:, nf - niv:nf + niv]
                ctx.eq(d['g0c'][i], core, 'bubble in the core box')
                for w in range(nw):
                    ctx.eq(d['chi0u'][i][w], sum(g0[w]) / beta ** 2, 'bubble susceptibility in the full box')
                    ctx.eq(d['chi0c'][i][w], sum(core[w]) / beta ** 2, 'bubble susceptibility in the core box')
    if 'save_vrg' in conf['output']:
        for c in ('dens', 'magn'):
            for i, q in enumerate(bub_[0]['q']):
                ctx.eq(npy('vrg_q_' + c)[i], r.free(f'v{c}{q}', (nw, 2 * niv)), 'stored vertex')
    # ---- lambda correction
    l = r.get('lambda', root)[0]
    for c in ('dens', 'magn'):
        for q in qs:
            ctx.eq(l[c][q], r.free(f'x{c}{rep[q]}', (nw,)), 'ladder susceptibility in the full zone')
        ctx.eq(l['c' + c[0]], r.free('chi_' + c, (nw,)), 'local susceptibility')
        ctx.eq(npy(f'chi_{c}_lam'), r.field('L' + c), 'stored susceptibility')
    ctx.eq(l['beta'], beta, 'temperature')
    ctx.true(l['kind'] == conf['dga']['lambda_corr'], 'kind of correction')
    order('lambda.txt', 'dens', 'magn')
    order('mu.txt', 'dga', 'dmft')
    order('UniformStaticSusceptibility.txt', 'dens', 'magn')
    ctx.eq(txt('lambda.txt'), np.array([[r.free('lam_d', (), 'real'), r.free('lam_m', (), 'real')]]), 'stored lambda')
    t = r.get('tail', root)[0]
    ctx.true(t['niv'] == nf, 'window of the tail correction')
    z = tuple(0 for _ in nq)
    st = [r.free(f'L{c}{z}', (nw,))[niw].real + r.free(f'tail{rep[z]}', (nw,))[niw].real for c in ('dens', 'magn')]
    ctx.eq(txt('UniformStaticSusceptibility.txt'), np.array([st]), 'uniform static susceptibility')
    oz = r.get('oz', root)[0]
    ctx.eq(np.array(oz['mat']), np.array([r.free(f'Lmagn{q}', (nw,))[niw].real for q in qs]), 'static magnetic susceptibility is fitted')
    ctx.eq(txt('oz_coeff.txt'), np.array([r.free('oz_a', (), 'real'), r.free('oz_xi', (), 'real')]), 'stored fit')
    # ---- vertices
    for key, on in (('pairing', cfg.eliash.do_pairing_vertex), ('cond', cfg.optics.do_vertex), ('fq', cfg.save_fq)):
        for x in r.get(key, root if on else []):
            for c in ('dens', 'magn'):
                ctx.eq(x[c], r.field('L' + c), f'{key}: corrected susceptibilities')
    # ---- Schwinger-Dyson
    sde = r.get('sde')
    ctx.true(sorted(sum((x['q'] for x in sde), [])) == sorted(qs), 'every momentum transfer once')
    for x, g in zip(sde, gd):
        ctx.true(x['nqtot'] == len(qs) and x['nsh'] == 0 and [int(w) for w in x['wn']] == list(range(-niw, niw + 1)), 'sums')
        ctx.eq(x['beta'], beta, 'temperature')
        ctx.eq(x['u'], u, 'interaction')
        ctx.true(len(x['vd']) == len(x['q']), 'own momenta')
        if not ctx.sym or x['g'] is not g.g_full():
            ctx.eq(x['g'][..., x['g'].shape[-1] // 2 - ds:x['g'].shape[-1] // 2 + ds], g.core, 'propagator')
        for i, q in enumerate(x['q']):
            for a, b, s in (('vd', f'vdens{rep[q]}', (nw, 2 * niv)), ('vm', f'vmagn{rep[q]}', (nw, 2 * niv)), ('k', f'kdc{rep[q]}', (nw, 2 * niv)),
                            ('cd', f'Ldens{q}', (nw,)), ('cm', f'Lmagn{q}', (nw,))):
                ctx.eq(x[a][i], r.free(b, s), 'data of this momentum transfer')
    sd = r.free('sde', (nf,))
    core = ctx.zeros(tuple(nk) + (niv,))
    for q in qs:
        core = core + r.part(q)[..., niv:]
    core = core + siw[ds:ds + niv] - sd[:niv] + u * n / 2
    tail_s = siw[ds + niv:ds + niv + nsh]
    full = ctx.zeros(tuple(nk) + (nf,))
    full[..., :niv] = core
    full[..., niv:] = tail_s
    ctx.eq(npy('siwk_dga'), np.concatenate((np.conj(full[..., ::-1]), full), axis=-1), 'stored self-energy')
    # ---- propagator
    for x in r.get('mu'):
        ctx.eq(x['target_filling'], n, 'filling is kept')
        ctx.eq(x['siwk'], np.concatenate((np.conj(full[..., ::-1]), full), axis=-1), 'self-energy of the chemical potential')
    gw = npy('giwk_dga')
    half = gw.shape[-1] // 2
    ctx.true(half == nf + cfg.box.niv_asympt, 'propagator window')
    for k in np.ndindex(*nk):
        for i in range(nf):
            ctx.eq(gw[k][half + i] * (iv(i) + r.mu_dga - ek[k] - full[k][i]), 1, 'propagator')
    ctx.eq(txt('mu.txt'), np.array([[r.mu_dga, mu]]), 'stored chemical potentials')
    e = [r.free(k, (), 'real') for k in ('e_kin_dga', 'e_kin_dmft', 'e_pot_dga', 'e_pot_dmft')]
    ctx.eq(txt('energies.txt'), np.array([e]), 'stored energies')
    ctx.true(r.disk.text[f'{out}/energies.txt'][1].split() == ['kin-dga', 'kin-dmft', 'pot-dga', 'pot-dmft'], 'order of the energies')
    # ---- fits
    fits = {k[4:]: v for k, v in r.rec.items() if k.startswith('fit ')}
    on = 'poly_fitting' in conf
    ctx.true(len(fits) == (3 if on else 0), 'number of fits')
    if on:
        wants = {'Giwk_dmft_poly_cont_': r.rec['local'][0][0]['g'].g_full(), 'Siwk_poly_cont_': npy('siwk_dga'), 'Giwk_dga_poly_cont_': gw}
        ctx.true(set(wants) == set(fits), 'names of the fits')
        for k, w in wants.items():
            x = r.get('fit ' + k, root)[0]
            ctx.eq(x['mat'], w, 'fitted function, momentum by momentum')
            ctx.eq(x['beta'], beta, 'temperature')
            ctx.true(x['n_fit'] == conf['poly_fitting']['n_fit'] and x['order'] == conf['poly_fitting']['o_fit'], 'order of the fit')
            ctx.true(x['grid'] is cfg.lattice.k_grid and Disk.norm(x['path']).startswith(out), 'grid')
        x = r.get('gamma', root)[0]
        ctx.eq(np.array(x['s']), siw[ds:], 'local fit')
        for i in range(ds):
            ctx.eq(x['v'][i] * 1j, iv(i), 'frequencies of the local fit')
        ctx.eq(r.disk.text[[f for f in r.disk.text if 'Siw_DMFT' in f][0]][0].reshape(-1), np.array([r.free(k, (), 'real') for k in ('shift', 'gam', 'Z')]),
               'local fit in the order of its header')
    superconductivity(ctx, r, cfg, out)
    conductivity(ctx, r, cfg, conf, beta, out, qs, gw)
    if 'max_ent' in conf:
        got = r.get('continuation')
        for x in got:
            ctx.true(Disk.norm(x['path']) == out, 'folder of the continuation')
        for x in got[:1]:
            for f in ('dmft_input', 'siwk_dga', 'chi_dens_lam', 'chi_magn_lam'):
                ctx.true(f'{out}/{f}.npy' in x['files'], 'data of the continuation are on disk')
    else:
        ctx.true('continuation' not in r.rec, 'no continuation')
    left = [f for f in r.disk.h5.files]
    ctx.true(len(left) == (r.size if cfg.debug.keep_rank_files else 0), 'files of the processes')
    ctx.true([Disk.norm(x['path']) for x in r.get('read', root)] == ['/in/my.yaml'], 'configuration of the command line')
    x = r.get('conf', root)[0]
    ctx.true(x['path'] == f'{out}/dga_config.yaml' and kept(r.conf, x['conf']), 'configuration stored as given')
    r.get('hr', root)


def kept(given, stored):
    """-1 asks the program to choose"""
    if isinstance(given, dict):
        return isinstance(stored, dict) and all(k in stored and kept(v, stored[k]) for k, v in given.items())
    return given == -1 or given == stored


GAP = plotting.plot_gap_function_kx_ky


def superconductivity(ctx, r, cfg, out):
    on = cfg.eliash.do_eliash
    got = {c: r.get('eliash ' + c, [0] if on else []) for c in ('sing', 'trip')}
    pp = [f'{out}/Eliashberg/F_{c}_pp.npy' in r.disk.files for c in ('sing', 'trip')]
    if not on:
        return
    ctx.true(pp == [cfg.keep_pairing_vertex and cfg.eliash.do_pairing_vertex] * 2, 'pairing vertices are kept if requested')
    ne = cfg.eliash.n_eig
    gs = tuple(r.nk) + (2 * cfg.box.niv_pp,)
    d = r.disk.files[f'{out}/Eliashberg/eliashberg.npy']
    for c in got:
        ctx.eq(got[c][0]['g'].mu, r.mu_dga, 'gap equation with the DGA propagator')
        ctx.eq(d['lambda_' + c], r.free(c + 'lam', (ne,)), 'stored eigenvalues')
        ctx.eq(d['delta_' + c], r.free(c + 'gap', (ne,) + gs), 'stored gap functions')
    figs = {x['name']: x for x in r.rec['plot gap'].get(0, [])}
    ctx.true(list(r.rec['plot gap']) == [0] and sorted(figs) == sorted(f'{c}_{i}' for c in got for i in range(ne)), 'a figure of every gap function')
    n, grid = cfg.box.niv_pp, cfg.lattice.k_grid
    for c in got:
        for i in range(ne):
            x, gap = figs[f'{c}_{i}'], r.free(c + 'gap', (ne,) + gs)[i].real
            for k in np.ndindex(*r.nk[:2]):
                at = tuple((j - m // 2) % m for j, m in zip(k, r.nk))
                ctx.eq(x['mat'][k], gap[at + (0, slice(n - 1, n + 1))], 'figure: gap function around zero frequency')
            ctx.eq(x['kx'], grid.kx_shift, 'figure: mesh'), ctx.eq(x['ky'], grid.ky_shift, 'figure: mesh')
            ctx.true(real_os.path.normpath(x['pdir']) == f'{out}/Eliashberg', 'figure is stored with the data')
    for f, k in (('eigenvalues', 'lam'), ('eigenvalues_s', 'lam_s')):
        ctx.eq(r.disk.text[f'{out}/Eliashberg/{f}.txt'][0], np.array([r.free(c + k, (ne,)).real for c in ('sing', 'trip')]), 'eigenvalues as text')


def conductivity(ctx, r, cfg, conf, beta, out, qs, gw):
    o = cfg.optics
    b = r.get('cbub', [0] if o.do_bubble else [])
    v = r.get('cvert', None if o.do_vertex else [])
    file = lambda n: r.disk.files.get(f'{out}/Optics/{n}.npy')
    full = {}
    n1, n2 = o.niw_bubble, o.niw_cond
    if b:
        x = b[0]
        ctx.eq(x['g'].mu, r.mu_dga, 'bubble of the DGA propagator')
        ctx.true([int(w) for w in x['wn']] == list(range(n1 + 1)) and x['niv'] == o.niv_bubble and x['der'] == (o.der_a, o.der_b), 'bubble ranges')
        ctx.true(x['grid'] is cfg.lattice.k_grid and x['hr'] is cfg.lattice.hr, 'lattice')
        jj = r.free('jj', (n1 + 1,))
        full['b'] = np.concatenate((np.conj(jj[:0:-1]), jj))
        ctx.eq(file('chijj_bubble'), full['b'], 'stored bubble')
    if v:
        ctx.true(sorted(sum((x['q'] for x in v), [])) == sorted(qs), 'every momentum transfer once')
        jv = ctx.zeros((n2 + 1,))
        for q in qs:
            jv = jv + r.free(f'jv{q}', (n2 + 1,))
        for x in v:
            ctx.eq(x['g'].mu, r.mu_dga, 'vertex part with the DGA propagator')
            ctx.true([int(w) for w in x['wv']] == list(range(-o.niw_vert, o.niw_vert + 1)) and [int(w) for w in x['wc']] == list(range(n2 + 1))
                     and x['der'] == (o.der_a, o.der_b), 'vertex ranges')
            ctx.true(len(x['f']) == len(x['q']), 'own momenta')
            for i, q in enumerate(x['q']):
                ctx.eq(x['f'][i], r.free(f'F{q}', r.cfg_optics), 'vertex of this momentum')
        full['v'] = np.concatenate((np.conj(jv[:0:-1]), jv))
        ctx.eq(file('chijj_vert'), full['v'], 'stored vertex part')
    ctx.true((file('chijj_bubble') is not None, file('chijj_vert') is not None) == ('b' in full, 'v' in full), 'requested parts only')
    ctx.true(('plot m' in r.rec) == bool(full), 'figure of what was computed')
    if full:
        x = list(r.get('plot m', [0])[0].values())
        ctx.eq(x[0], full['b'] if 'b' in full else 0 * full['v'], 'figure: bubble')
        ctx.eq(x[1], full['v'] if 'v' in full else 0 * full['b'], 'figure: vertex part')
        ctx.true(r.get('plot m', [0])[0]['do_save'] and real_os.path.normpath(r.get('plot m', [0])[0]['pdir']) == real_os.path.normpath(f'{out}/Optics'), 'figure is stored with the data')
    if not full or 'max_ent' not in conf.get('optics', {}):
        ctx.true('maxent' not in r.rec, 'no continuation of the conductivity')
        return
    m = r.get('maxent', [0])[0]
    ctx.eq(m['beta'], beta, 'temperature')
    want = conf['optics']['max_ent'].get('n_fit')
    ctx.true(m['mode'] == 'freq_bosonic' and m['conf'].get('n_fit') == (n2 if want == -1 else want), 'continuation settings')
    tot = [0] * max(map(len, full.values()))
    for f in full.values():
        s = len(tot) // 2 - len(f) // 2
        for i in range(len(f)):
            tot[s + i] = tot[s + i] + f[i]
    mats = [r.get(f'cont {i}', [0])[0]['mat'] for i in (0, 1)]
    ctx.eq(mats[0], full['b'] if 'b' in full else 0 * full['v'], 'continued bubble')
    ctx.eq(mats[1], np.array(tot), 'continued sum')
    ctx.eq(file('sigma_bubble_cont'), r.free('cont0', (3,)), 'stored continuation of the bubble')
    ctx.eq(file('sigma_full_cont'), r.free('cont1', (3,)), 'stored continuation of the sum')
    ctx.eq(file('w'), r.free('w', (3,), 'real'), 'stored mesh')
    x = r.get('plot r', [0])[0]
    for got, name, kind in zip(list(x.values()), ('w', 'cont0', 'cont1'), ('real', 'cplx', 'cplx')):
        ctx.eq(got, r.free(name, (3,), 'real') if kind == 'real' else r.free(name, (3,)), 'figure of the continuation: ' + name)
    ctx.true(x['do_save'] and real_os.path.normpath(x['pdir']) == real_os.path.normpath(f'{out}/Optics'), 'figure is stored with the data')
    ctx.true((file('F_cond') is not None) == (o.do_vertex and cfg.keep_fq_optics), 'vertex is kept if requested')


def correlation(ctx, nq):
    """fit of the correlation length: the model is a / (xi^-2 + (q - Q)^2) with Q = (pi, pi, 0) at every momentum of the mesh"""
    grid = bz.KGrid(tuple(nq), [])
    chi = ctx.pos('chi', tuple(nq))
    if chi.size > 4:  # (growing values: the largest one is known)
        chi = np.cumsum(chi.flatten()).reshape(nq)
    a, xi = ctx.pos('a'), ctx.pos('xi')
    got = {}

    class Opt:
        @staticmethod
        def curve_fit(f, xdata, ydata, p0=None, **kw):
            got.update(f=f, x=xdata, y=ydata, p0=p0)
            return 'popt', 'cov'
    with replaced((ozf, 'opt', Opt)):
        r = ozf.fit_oz_spin(grid, chi.flatten())
    ctx.true(tuple(r) == ('popt', 'cov'), 'parameters and their covariance')
    ctx.true(got['x'] is grid, 'momenta')
    ctx.eq(got['y'], chi.flatten(), 'susceptibility')
    m = got['p0'][0]
    for x in chi.flatten():
        ctx.true(m >= x, 'start value: maximum of the susceptibility')
    model = got['f'](grid, a, xi)
    ctx.true(np.shape(model) == (int(np.prod(nq)),), 'one value per momentum')
    for i, ix in enumerate(np.ndindex(*nq)):
        q = [2 * np.pi * ix[d] / nq[d] for d in range(3)]
        ctx.eq(model[i] * (1 / xi ** 2 + (q[0] - np.pi) ** 2 + (q[1] - np.pi) ** 2 + q[2] ** 2), a, 'Ornstein-Zernike form')


def cases(tier):
    big = tier != 'quick'
    out = []
    sq = 'two_dimensional_square'
    small = dict(nk=(2, 2, 1), nq=(2, 2, 1), sym=sq)
    wide = dict(niw=2, niv=2, nsh=0, data=(2, 3, 5))
    for size, order in ((1, None), (2, (0, 1)), (2, (1, 0)), (3, (0, 1, 2)), (3, (2, 1, 0)), (3, (1, 2, 0))):
        out.append((program, dict(size=size, order=order, **small)))
    # lattices
    for nk, nq, sym, size in (((4, 2, 1), (2, 2, 1), (), 2), ((2, 2, 1), (2, 1, 1), (), 1), ((2, 3, 1), (2, 3, 1), (), 4), ((4, 4, 1), (2, 2, 1), sq, 3),
                              ((3, 3, 1), (3, 3, 1), sq, 2), ((2, 2, 2), (2, 2, 2), (), 3), ((2, 1, 1), (3, 1, 1), (), 2)):
        out.append((program, dict(nk=nk, nq=nq, sym=sym, size=size)))
    # boxes and options
    for more in (dict(symv=False, lam='sp'), dict(niw=2, niv=2, nsh=2, data=(3, 3, 5)), dict(niw=0, niv=2, nsh=0, data=(1, 2, 4)), dict(verbosity=0),
                 dict(save=('save_vrg',)), dict(save=('save_fq',)), dict(debug={'keep_rank_files': True}), dict(max_ent=True), dict(lam='none'), dict(existing=1), dict(existing=2)):
        out.append((program, dict(size=2, **small, **more)))
    for poly in (dict(n_fit=3, o_fit=2), dict(n_fit=4, o_fit=4)):
        out.append((program, dict(size=2, poly=poly, **small)))
        out.append((program, dict(nk=(3, 2, 1), nq=(2, 1, 1), sym=(), poly=poly)))
    for nq in ((2, 2, 1), (3, 1, 2), (4, 3, 1)):
        out.append((correlation, dict(nq=nq)))
    # superconductivity
    for e, save in ((dict(do_pairing_vertex=True), ()), (dict(do_pairing_vertex=True, do_eliash=True), ('keep_pairing_vertex',)),
                    (dict(do_pairing_vertex=True, do_eliash=True, n_eig=1), ()), (dict(do_pairing_vertex=True, do_eliash=True, n_eig=3), ('-keep_pairing_vertex',))):
        for size in (1, 2):
            out.append((program, dict(size=size, elsh=e, save=save, **small, **wide)))
    for nk in ((2, 3, 2), (4, 1, 3)):
        out.append((program, dict(size=2, elsh=dict(do_pairing_vertex=True, do_eliash=True, n_eig=2), nk=nk, nq=nk, sym=(), **wide)))
        out.append((program, dict(size=3, opt=dict(do_bubble=True, do_vertex=True), nk=nk, nq=(2, 1, 2), sym=(), **wide)))
    # conductivity
    for opt in (dict(do_bubble=True), dict(do_vertex=True), dict(do_bubble=True, do_vertex=True), dict(do_bubble=False),
                dict(do_bubble=True, do_vertex=True, der_a=1, der_b=1, max_ent={'n_fit': -1}), dict(do_bubble=True, max_ent={'n_fit': 2}),
                dict(do_bubble=True, do_vertex=True, niw_bubble=2, niw_cond=1, niw_vert=1, max_ent={'nwr': 3}), dict(do_vertex=True, max_ent={'n_fit': 1})):
        for size in (1, 2, 3) if opt.get('do_vertex') else (2,):
            out.append((program, dict(size=size, order=tuple(range(size))[::-1], opt=opt, save=('keep_fq_optics',) if size == 3 else (), **small, **wide)))
    if big:
        for size in (1, 2, 3, 4, 5, 6):
            for nk, nq, sym in (((4, 4, 1), (4, 4, 1), sq), ((4, 3, 1), (2, 3, 1), ()), ((6, 6, 1), (4, 4, 1), sq)):
                for order in (None, tuple(range(size))[::-1]):
                    out.append((program, dict(size=size, order=order, nk=nk, nq=nq, sym=sym, niw=2, niv=2, nsh=2, data=(3, 3, 6), poly=dict(n_fit=3, o_fit=2),
                                              opt=dict(do_bubble=True, do_vertex=True, max_ent={}), elsh=dict(do_pairing_vertex=True, do_eliash=True),
                                              max_ent=True), dict(time_limit=1200)))
    return out
