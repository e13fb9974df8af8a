"""C33 configuration: frequency boxes, optics ranges, symmetries, defaults"""
import contextlib
import numpy as np
from dga import config, wannier
from common import make_cfg, Comm

EXPLANATION = ('symbolic integers for all box sizes and numbers of available frequencies (every branch explored, inequalities decided over all '
               'values in the stated ranges); reference: the documented rules for inferring what the configuration leaves open')
OUTSIDE = 'YAML parsing and the file system'


class Data:
    """a four-point object as far as its number of frequencies matters"""

    def __init__(self, niv, niw):
        self.niv, self.niw = niv, niw

    @property
    def wn(self):
        return Wn(self.niw)


class Wn:
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return 2 * int(self.n) + 1


def box(ctx, niv, niw, set_v, set_w, set_a):
    """core boxes given or inferred, shell symbolic"""
    av, aw = niv, niw
    conf = {}
    nsh = ctx.int('nsh', 0, 200)
    conf['niv_shell'] = nsh
    if set_v:
        v = ctx.int('v', 1, 40)
        conf['niv_core'] = v
    if set_w:
        w = ctx.int('w', 0, 40)
        conf['niw_core'] = w
    if set_a:
        conf['niv_asympt'] = ctx.int('a', 1, 400)
    b = config.BoxSizes(conf)
    data = Data(av, aw)
    bad = (set_v and bool(v > av)) or (set_w and bool(w > aw))
    if bad:
        ctx.raises(ValueError, lambda: b.set_from_lfp(data), 'core box larger than the data')
        return
    b.set_from_lfp(data)
    ctx.true(b.niv_core == (v if set_v else av), 'fermionic core box')
    ctx.true(b.niw_core == (w if set_w else aw), 'bosonic core box')
    ctx.true(b.niv_full == b.niv_core + nsh, 'full box')
    if set_a:
        ctx.true(b.niv_asympt == conf['niv_asympt'], 'asymptotic box as given')
    else:
        ctx.true(b.niv_asympt == b.niv_full + 2 * b.niw_core, 'asymptotic box covers the full box shifted by all bosonic frequencies')


def grids(ctx, niv, niw, nsh):
    b = config.BoxSizes(dict(niv_core=niv, niw_core=niw, niv_shell=nsh))
    ctx.true([int(x) for x in b.wn] == list(range(-niw, niw + 1)), 'bosonic grid')
    ctx.true([int(x) for x in b.vn_full] == list(range(-niv - nsh, niv + nsh)), 'fermionic grid')
    ctx.true(int(b.niv_pp) == min(niw // 2, niv // 2), 'pairing vertex box')


class Cfg:
    pass


def optics(ctx, given):
    """frequency ranges of the optical conductivity"""
    d = Cfg()
    d.box = Cfg()
    niw, niv = ctx.int('niw', 0, 60), ctx.int('niv', 1, 60)
    nsh = ctx.int('nsh', 0, 60)
    d.box.niw_core, d.box.niv_core = niw, niv
    asym = niv + nsh + 2 * niw
    d.box.niv_asympt = asym
    conf = {}
    for n in given:
        conf[n] = ctx.int(n, 0, 60)
    o = config.OpticsConfig(dict(conf))
    bad = ('niw_vert' in given and bool(conf['niw_vert'] > niw)) or ('niw_cond' in given and bool(conf['niw_cond'] >= niv))
    if bad:
        ctx.raises(AssertionError, lambda: o.set_frequency_ranges(d), 'more frequencies requested than available')
        return
    o.set_frequency_ranges(d)
    for n in given:
        ctx.true(getattr(o, n) == conf[n], 'given value kept')
    if 'niw_vert' not in given:
        ctx.true(o.niw_vert == niw, 'all bosonic frequencies')
    if 'niw_cond' not in given:
        ctx.true(o.niw_cond <= niw // 2, 'at most half of the bosonic frequencies')
        if bool(niw // 2 < niv):
            ctx.true(o.niw_cond == niw // 2, 'half of the bosonic frequencies')
    if 'niw_bubble' not in given:
        ctx.true(o.niw_bubble == o.niw_cond, 'bubble at the frequencies of the conductivity')
    if 'niv_bubble' not in given:
        ctx.true(o.niv_bubble == asym - 2 * o.niw_cond, 'bubble summed over what the propagator covers')
    ctx.true(o.niv_vert == niv - o.niw_cond, 'v - w stays in the core')
    ctx.true(o.niv_vert >= 1, 'fermionic frequencies left for the vertex')
    ctx.true(d.box.niv_asympt >= o.niv_bubble + o.niw_bubble, 'propagator covers the shifted summation range')
    ctx.true(d.box.niv_asympt >= asym, 'asymptotic box is never reduced')
    if bool(o.niv_bubble + o.niw_bubble <= asym):
        ctx.true(d.box.niv_asympt == asym, 'asymptotic box untouched when sufficient')


def optics_grids(ctx):
    o = config.OpticsConfig(dict(niw_cond=3, niw_bubble=2, niw_vert=1))
    for f, n in ((o.wn_cond, 3), (o.wn_bubble, 2), (o.wn_vert, 1)):
        ctx.true([int(x) for x in f()] == list(range(-n, n + 1)) and [int(x) for x in f(pos=True)] == list(range(n + 1)), 'bosonic grid')


SYMS = {'two_dimensional_square': {'x-inv', 'y-inv', 'x-y-sym'}, 'quasi_one_dimensional_square': {'x-inv', 'y-inv'},
        'simultaneous_x_y_inversion': {'x-y-inv'}, 'none': set(), '': set()}


def lattice(ctx, nk, nq, sym):
    t = [ctx.real(n) for n in ('t', 'tp', 'tpp')]
    conf = dict(nk=list(nk), type='t_tp_tpp', hr_input=t, symmetries=sym)
    if nq is not None:
        conf['nq'] = list(nq)
    l = config.LatticeConfig(conf)
    want = SYMS[sym] if isinstance(sym, str) else set(sym)
    ctx.true(set(l.symmetries) == want, 'symmetries')
    ctx.true(tuple(l.nk) == tuple(nk) and tuple(l.nq) == tuple(nq or nk), 'meshes')
    ctx.true(tuple(l.k_grid.nk) == tuple(nk) and tuple(l.q_grid.nk) == tuple(nq or nk), 'grids')
    ctx.true(int(l.nk_tot) == int(np.prod(nk)) and int(l.nq_tot) == int(np.prod(nq or nk)), 'number of momenta')
    ctx.true(set(l.k_grid.symmetries) == want and set(l.q_grid.symmetries) == want, 'symmetries of the grids')
    ctx.eq(l.get_ek(), wannier.ek_3d(l.k_grid.grid, wannier.one_band_2d_t_tp_tpp(*t)), 'dispersion of the configured model')


def refused(ctx):
    base = dict(nk=[2, 2, 1], type='t_tp_tpp', hr_input=[1, 0, 0])
    for s in ('hexagonal', ('x-inv', 'q-inv'), 3):
        ctx.raises(NotImplementedError, lambda: config.LatticeConfig(dict(base, symmetries=s)), 'unknown symmetry')
    ctx.raises(NotImplementedError, lambda: config.LatticeConfig(dict(base, type='other')), 'unknown type')
    ctx.raises(ValueError, lambda: config.LatticeConfig(dict(nk=[2, 2, 1], hr_input=[1, 0, 0])), 'type missing')
    ctx.raises(ValueError, lambda: config.DgaConfig({}, comm=Comm()), 'lattice missing')
    for n in range(1, 7):
        f = lambda: config.DgaConfig({'lattice': dict(base, symmetries='two_dimensional_square')}, comm=Comm(0, n))
        if n > 3:
            ctx.raises(ValueError, f, 'more processes than irreducible momenta')
        else:
            f()


def eliash(ctx):
    for k, (s, t) in {'d-wave': ('even', 'odd'), 'p-wave-x': ('odd', 'even'), 'p-wave-y': ('odd', 'even'), 'random': ('random', 'random')}.items():
        e = config.EliashbergConfig(dict(k_sym=k, n_eig=3))
        ctx.true(e.gap0_sing == {'k': k, 'v': s}, 'singlet: total parity even')
        ctx.true(e.gap0_trip == {'k': k, 'v': t}, 'triplet: total parity odd')
        ctx.true(e.n_eig == 3, 'given value kept')
    x = ctx.real('eps')
    ctx.eq(config.EliashbergConfig(dict(eps=x)).eps, x, 'given value kept')


def sections(ctx):
    """every section of the file ends up in its own part of the configuration"""
    v = {n: ctx.real(n) for n in 'abcdefgh'}
    cfg = make_cfg(ctx, nk=(2, 2, 1), niw=2, niv=3, nsh=4, poly_fitting=dict(n_fit=v['a'], o_fit=v['b']), dmft_input=dict(input_path='/x/', fname_1p='p1', do_sym_v_vp=False),
                   output=dict(save_vrg=True, verbosity=v['c']), dga=dict(lambda_corr='sp'), pairing=dict(eps=v['d'], do_eliash=True), optics=dict(der_a=1, niv_bubble=v['e']),
                   debug=dict(keep_rank_files=True))
    for got, want in ((cfg.n_fit, 'a'), (cfg.o_fit, 'b'), (cfg.verbosity, 'c'), (cfg.eliash.eps, 'd'), (cfg.optics.niv_bubble, 'e')):
        ctx.eq(got, v[want], 'value of its section')
    ctx.true(cfg.do_poly_fitting and cfg.save_vrg and cfg.eliash.do_eliash and cfg.debug.keep_rank_files and not cfg.do_sym_v_vp, 'flags')
    ctx.true((cfg.input_path, cfg.fname_1p, cfg.fname_2p, cfg.lambda_corr, cfg.optics.der_a, cfg.optics.der_b) == ('/x/', 'p1', 'g4iw_sym.hdf5', 'sp', 1, 0), 'names')
    ctx.true((cfg.box.niw_core, cfg.box.niv_core, cfg.box.niv_shell) == (2, 3, 4), 'boxes')
    d = make_cfg(ctx)
    ctx.true(d.lambda_corr == 'spch' and not d.do_poly_fitting and not d.save_fq and d.do_sym_v_vp and not d.eliash.do_eliash and not d.optics.do_vertex, 'defaults')
    x = {k: ctx.real('q' + k) for k in ('n', 'beta', 'u', 'mu_dmft')}
    g, s = ctx.cplx('giw', (2,)), ctx.cplx('siw', (2,))
    with own_float(ctx):
        d.set_system_parameter(dict(x, giw=g, siw=s))
    for k in x:
        ctx.eq(getattr(d.sys, k), x[k], 'system parameter')
    ctx.eq(d.sys.giw, g, 'DMFT propagator')
    ctx.eq(d.sys.siw, s, 'DMFT self-energy')


@contextlib.contextmanager
def own_float(ctx):
    """float() of a symbolic number is that number"""
    if ctx.sym:
        config.float = lambda y: y
    try:
        yield
    finally:
        config.__dict__.pop('float', None)


def cases(tier):
    th = tier != 'quick'
    out = [(optics_grids, {}), (refused, {}), (eliash, {}), (sections, {})]
    for niv, niw in ((1, 0), (10, 7), (30, 40)):
        for sv in (False, True):
            for sw in (False, True):
                for sa in (False, True):
                    out.append((box, dict(niv=niv, niw=niw, set_v=sv, set_w=sw, set_a=sa)))
    for g in ((1, 0, 0), (4, 3, 2), (3, 6, 0), (5, 9, 7)):
        out.append((grids, dict(niv=g[0], niw=g[1], nsh=g[2])))
    names = ('niw_vert', 'niw_cond', 'niw_bubble', 'niv_bubble')
    for i in range(16):
        out.append((optics, dict(given=tuple(n for j, n in enumerate(names) if i >> j & 1))))
    for nk, nq, sym in (((2, 2, 1), None, 'two_dimensional_square'), ((4, 3, 1), (2, 3, 1), 'quasi_one_dimensional_square'), ((3, 3, 2), None, 'none'),
                        ((4, 2, 1), None, 'simultaneous_x_y_inversion'), ((2, 1, 3), (1, 1, 3), ''), ((4, 4, 1), None, ('x-inv', 'x-y-sym'))):
        out.append((lattice, dict(nk=nk, nq=nq, sym=sym)))
    return out
