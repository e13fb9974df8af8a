"""C35 loading the DMFT input"""
import numpy as np
from dga import dga_io, w2dyn_aux_dga as w2, local_four_point as lfp
from common import H5, replaced, make_cfg

EXPLANATION = ('symbolic file content (files held in memory); reference: the documented meaning of every entry, with spin averages, symmetrization and '
               'frequency windows written out')
OUTSIDE = 'the HDF5 library and the .npy format; windows beyond the listed ones'


def dmft_file(ctx, h5, name, nb, niv, n, atom=1, full=None):
    d = h5.files.setdefault(name, {})
    v = {}
    for q in ('giw', 'siw', 'g0iw'):
        v[q] = ctx.cplx(q, (nb, 2, 2 * niv))
        d[f'dmft-last/ineq-{atom:03}/{q}/value'] = v[q].copy()
    v['occ'] = ctx.real('occ', (nb, 2, nb, 2))
    d[f'dmft-last/ineq-{atom:03}/occ/value'] = v['occ'].copy()
    v['mu'], v['beta'], v['u'] = ctx.real('mu'), ctx.pos('beta'), ctx.real('u')
    d['dmft-last/mu/value'] = np.array([v['mu']], dtype=object)[0] if ctx.sym else np.float64(v['mu'])
    v['n'] = n if n is not None else ctx.pos('n')
    d['.config/.attrs'] = {'general.beta': v['beta'], 'general.totdens': v['n'], 'atoms.1.udd': v['u'], 'qmc.niw': niv, 'atoms.1.nd': nb,
                           'general.nat': 1}
    for q in full or ():
        v[q] = ctx.cplx(q, (nb, 2, nb, 2, 2 * niv))
        d[f'dmft-last/ineq-{atom:03}/{q}/value'] = v[q].copy()
    return v


class Scalar(H5):
    pass


def g2_file(ctx, h5, name, niw, niv, nb=1):
    d = h5.files.setdefault(name, {})
    out = {}
    for ch in ('dens', 'magn'):
        out[ch] = ctx.cplx('g2' + ch, (2 * niw + 1, 2 * niv, 2 * niv))
        other = ctx.cplx('other' + ch, (2 * niw + 1, 2 * niv, 2 * niv))
        for w in range(2 * niw + 1):
            d[f'ineq-001/{ch}/{w:05}/00001/value'] = out[ch][w].T.copy()
            d[f'ineq-001/{ch}/{w:05}/00002/value'] = other[w].T.copy()
            d[f'ineq-002/{ch}/{w:05}/00001/value'] = other[w].T.copy()
    return out


def w2dyn(ctx, nb, niv, niw, zero_n=False, two=True):
    h5 = H5()
    v = dmft_file(ctx, h5, 'p/1p.hdf5', nb, niv, 0 if zero_n else None)
    g2 = g2_file(ctx, h5, 'p/g4.hdf5', niw, niv)
    with replaced((w2, 'h5py', h5)):
        d = dga_io.load_1p_data('w2dyn', 'p/', '1p.hdf5', 'g4.hdf5' if two else None)
    for q in ('giw', 'siw'):
        ctx.eq(d[q], (v[q][0, 0] + v[q][0, 1]) / 2, 'average over spin of the first band')
    ctx.eq(d['beta'], v['beta'], 'inverse temperature'), ctx.eq(d['u'], v['u'], 'interaction'), ctx.eq(d['mu_dmft'], v['mu'], 'chemical potential')
    if zero_n:
        ctx.eq(d['n'], v['occ'][0, 0, 0, 0] + v['occ'][0, 1, 0, 1], 'filling from the occupations')
    else:
        ctx.eq(d['n'], v['n'], 'filling')
    if two:
        for ch in ('dens', 'magn'):
            ctx.eq(d['g4iw_' + ch], g2[ch], 'two-particle function')
    else:
        ctx.true('g4iw_dens' not in d and 'g4iw_magn' not in d, 'only single-particle data asked for')


def ed(ctx, niv, niw, two=True):
    h5 = H5()
    d = h5.files.setdefault('p/a.hdf5', {})
    sc = {'/config/totdens': ctx.pos('n'), '/config/beta': ctx.pos('beta'), '/config/U': ctx.real('u'), '/dmft/mu': ctx.real('mu')}
    giw, siw = ctx.cplx('giw', (2 * niv,)), ctx.cplx('siw', (2 * niv,))
    raw = ctx.cplx('raw', (2 * niv,))
    d['giw'], d['siw_hat'], d['siw'] = giw.copy(), siw.copy(), raw
    for k, x in sc.items():
        a = np.empty((), dtype=object) if ctx.sym else np.empty(())
        a[()] = x
        d[k.strip('/')] = a
    g = {}
    for ch in ('dens', 'magn'):
        g[ch] = ctx.cplx(ch, (2 * niw + 1, 2 * niv, 2 * niv))
        h5.files.setdefault('p/b.hdf5', {})['g4iw_' + ch] = g[ch].copy()
    with replaced((dga_io, 'h5py', h5)):
        r = dga_io.load_1p_data('EDFermion', 'p/', 'a.hdf5', 'b.hdf5' if two else None)
    ctx.eq(r['giw'], giw, 'propagator'), ctx.eq(r['siw'], siw, 'self-energy')
    for k, n in (('/config/totdens', 'n'), ('/config/beta', 'beta'), ('/config/U', 'u'), ('/dmft/mu', 'mu_dmft')):
        ctx.eq(r[n], sc[k], n)
    for ch in ('dens', 'magn'):
        if two:
            ctx.eq(r['g4iw_' + ch], g[ch], 'two-particle function')
        else:
            ctx.true('g4iw_' + ch not in r, 'only single-particle data asked for')


def unknown(ctx):
    ctx.raises(NotImplementedError, lambda: dga_io.load_1p_data('nonsense', 'p/', 'a', 'b'), 'unknown input type')


def dmft1p(ctx, nb, niv, full):
    h5 = H5()
    v = dmft_file(ctx, h5, 'f', nb, niv, None, full=full)
    with replaced((w2, 'h5py', h5)):
        r = w2.W2dynFile('f').load_dmft1p_w2dyn()
    for out, q in (('gloc', 'giw'), ('sloc', 'siw')):
        if q + '-full' in full:
            x = v[q + '-full']
            want = sum(x[ix] for ix in np.ndindex(*x.shape[:4])) / 2
        else:
            want = sum(v[q][b, s] for b in range(nb) for s in range(2)) / 2
        ctx.eq(r[out], want, 'trace over bands, average over spin')
    ctx.eq(r['hartree'], v['u'] * v['n'] / 2, 'Hartree term')
    for k, n in (('beta', 'beta'), ('u', 'u'), ('mu', 'mu'), ('n', 'n')):
        ctx.eq(r[k], v[n], k)
    ctx.true(int(r['niv']) == niv, 'number of frequencies')


def chi(ctx, niw, worm):
    """physical susceptibility: only the density channel has a disconnected part, and only at zero frequency"""
    h5 = H5()
    n, beta = ctx.pos('n'), ctx.pos('beta')
    x = [ctx.cplx(f'x{i}', (2 * niw + 1,)) for i in (1, 2)]
    h5.files['f'] = {f'{worm}/ineq-002/p2iw-worm/{i + 1:05}/value': x[i].copy() for i in (0, 1)}
    h5.files['f']['.config/.attrs'] = {'general.beta': beta, 'general.totdens': n}
    with replaced((w2, 'h5py', h5)):
        f = w2.W2dynFile('f')
        d, m = f.get_chi(worm, 2, 'dens'), f.get_chi(worm, 2, 'magn')
        ctx.raises(ValueError, lambda: f.get_chi(worm, 2, 'sing'), 'unknown channel')
    for i in range(2 * niw + 1):
        ctx.eq(m[i], x[0][i] - x[1][i], 'magnetic')
        # two spin directions of <n_sigma - 1>^2 with n_sigma = n/2
        ctx.eq(d[i], x[0][i] + x[1][i] - (2 * beta * (1 - n / 2) ** 2 if i == niw else 0), 'density without its disconnected part')


def getters(ctx, niv):
    """every reader returns the entry of the requested iteration and atom"""
    h5 = H5()
    names = ['siw-full', 'giw-full', 'g0iw-full', 'siw', 'giw', 'g0iw', 'smom-full', 'dc', 'occ']
    d, v = {}, {}
    for it in ('dmft-last', 'dmft-003'):
        for a in (1, 2):
            for q in names:
                v[it, a, q] = ctx.cplx(f'{q}{it}{a}', (2 * niv,))
                d[f'{it}/ineq-{a:03}/{q}/value'] = v[it, a, q].copy()
        for q in ('dc-latt', 'mu'):
            v[it, q] = ctx.cplx(f'{q}{it}', (2,))
            d[f'{it}/{q}/value'] = v[it, q].copy()
    u = [ctx.real('u1'), ctx.real('u2')]
    d['.config/.attrs'] = {'atoms.1.udd': u[0], 'atoms.2.udd': u[1], 'atoms.1.nd': 2, 'atoms.2.nd': 3, 'general.nat': 2, 'qmc.niw': 7}
    h5.files['f'] = d
    with replaced((w2, 'h5py', h5)):
        f = w2.W2dynFile('f')
        for it in ('dmft-last', 'dmft-003'):
            for a in (1, 2):
                for q in names:
                    ctx.eq(getattr(f, 'get_' + q.replace('-', '_'))(dmft_iter=it, atom=a), v[it, a, q], 'entry of this iteration and atom')
            ctx.eq(f.get_dc_latt(dmft_iter=it), v[it, 'dc-latt'], 'entry of this iteration')
            ctx.eq(f.get_mu(dmft_iter=it), v[it, 'mu'], 'entry of this iteration')
        for q in names:
            ctx.eq(getattr(f, 'get_' + q.replace('-', '_'))(), v['dmft-last', 1, q], 'last iteration, first atom')
            ctx.eq(getattr(f, 'get_' + q.replace('-', '_'))(atom=2), v['dmft-last', 2, q], 'last iteration')
        ctx.eq(f.get_dc_latt(), v['dmft-last', 'dc-latt'], 'last iteration'), ctx.eq(f.get_mu(), v['dmft-last', 'mu'], 'last iteration')
        ctx.eq(f.get_udd(), u[0], 'interaction of the first atom')
        for a in (1, 2):
            ctx.eq(f.get_udd(atom=a), u[a - 1], 'interaction of the atom')
        ctx.true((f.get_nd(), f.get_nd(atom=2), f.get_nd_tot(), f.get_natom(), f.get_niw()) == (2, 3, 5, 2, 7), 'sizes')


def sequence(ctx, niw, niv):
    """several iterations, atoms, channels, spins and files read in turn; two files open at the same time"""
    h5 = H5()
    stored = {}
    for name in ('a', 'b'):
        d = h5.files.setdefault(name, {})
        at = d['.config/.attrs'] = {'general.beta': ctx.pos('beta' + name), 'general.totdens': ctx.pos('n' + name)}
        for it in ('worm-last', 'worm-002'):
            for a in (1, 2):
                for i in (1, 2):
                    x = stored[name, it, a, i] = ctx.cplx(f'x{name}{it}{a}{i}', (2 * niw + 1,))
                    d[f'{it}/ineq-{a:03}/p2iw-worm/{i:05}/value'] = x.copy()
                    y = stored[name, it, a, i, 3] = ctx.cplx(f'y{name}{it}{a}{i}', (2 * niv, 2 * niw + 1))
                    d[f'{it}/ineq-{a:03}/p3iw-worm/{i:05}/value'] = y.copy()
        for a in (1, 2):
            for ch in ('dens', 'magn'):
                for sp in (1, 2):
                    g = stored[name, a, ch, sp] = ctx.cplx(f'g{name}{a}{ch}{sp}', (2 * niw + 1, 2 * niv, 2 * niv))
                    for w in range(2 * niw + 1):
                        d[f'ineq-{a:03}/{ch}/{w:05}/{sp:05}/value'] = g[w].T.copy()
    with replaced((w2, 'h5py', h5)):
        one = {name: w2.W2dynFile(name) for name in ('a', 'b')}
        two = {name: w2.W2dynG4iwFile(name) for name in ('a', 'b')}
        for it in ('worm-last', 'worm-002'):
            for a in (1, 2, 1):
                for name in ('a', 'b'):
                    at = h5.files[name]['.config/.attrs']
                    x, y = stored[name, it, a, 1], stored[name, it, a, 2]
                    dens, magn = one[name].get_chi(it, a), one[name].get_chi(it, a, 'magn')
                    for i in range(2 * niw + 1):
                        ctx.eq(magn[i], x[i] - y[i], 'magnetic')
                        ctx.eq(dens[i], x[i] + y[i] - (2 * at['general.beta'] * (1 - at['general.totdens'] / 2) ** 2 if i == niw else 0), 'density')
        iw = [w for w in (0, -niw, niw) if w == 0 or niw]
        for a in (1, 2):
            for ch in ('dens', 'magn', 'dens'):
                for sp in (1, 2):
                    for name in ('a', 'b'):
                        f, g = two[name], stored[name, a, ch, sp]
                        ctx.eq(f.read_g2_full(ineq=a, channel=ch, spinband=sp), g, 'all frequencies')
                        ctx.eq(f.read_g2(ineq=a, channel=ch, niw=niw, niv=niv, spinband=sp), g, 'given extents')
                        ctx.true(int(f.get_niw(ineq=a, channel=ch, spinband=sp)) == niw, 'number of frequencies')
                        ctx.eq(f.read_g2_iw(ineq=a, channel=ch, spinband=sp, iw=np.array(iw)), np.array([g[niw + w] for w in iw]) if not ctx.sym else
                               ctx.arr([g[niw + w] for w in iw]), 'chosen frequencies')


def three_leg(ctx, niw, niv):
    h5 = H5()
    x = ctx.cplx('x', (2 * niv, 2 * niw + 1))
    y = ctx.cplx('y', (2, 2, 2, 2 * niv, 2 * niw + 1))
    y[0, 0, 0] = x
    meth = ('worm', 'cthyb')
    h5.files['f'] = {f'{meth[m]}-001/ineq-{a + 1:03}/p3iw-worm/{b + 1:05}/value': y[m, a, b].copy() for m in (0, 1) for a in (0, 1) for b in (0, 1)}
    with replaced((w2, 'h5py', h5)):
        f = w2.W2dynThreeLeg('f')
        ctx.eq(f.read_fermi_bose(), np.transpose(x), 'bosonic frequency first')
        for m in (0, 1):
            for a in (0, 1):
                for b in (0, 1):
                    ctx.eq(f.read_fermi_bose(sampling_method=meth[m], ineq=a + 1, spinband=b + 1), np.transpose(y[m, a, b]), 'chosen entry')


def boxes(ctx, niw, niv, niw_core, niv_core, do_sym):
    """the objects handed to the calculation: central part of the input, symmetrized if asked for; input left alone"""
    cfg = make_cfg(ctx, niw=niw_core, niv=niv_core)
    cfg.do_sym_v_vp = do_sym
    beta, u = ctx.pos('beta'), ctx.real('u')
    dat = {ch: ctx.cplx(ch, (2 * niw + 1, 2 * niv, 2 * niv)) for ch in ('dens', 'magn')}
    inp = {'g4iw_' + ch: x.copy() for ch, x in dat.items()}
    inp.update(beta=beta, u=u, giw=ctx.cplx('g', (4,)), siw=ctx.cplx('s', (4,)), n=ctx.real('n'), mu_dmft=ctx.real('mu'))
    if niv_core > niv or niw_core > niw:
        ctx.raises(ValueError, lambda: dga_io.build_g2_obj(cfg, inp), 'box larger than the data')
        return
    gd, gm = dga_io.build_g2_obj(cfg, inp)
    nw, nv = (niw if niw_core == -1 else niw_core), (niv if niv_core == -1 else niv_core)
    ctx.true((cfg.box.niw_core, cfg.box.niv_core) == (nw, nv), 'box sizes')
    for ch, g in (('dens', gd), ('magn', gm)):
        x = dat[ch][niw - nw:niw + nw + 1, niv - nv:niv + nv, niv - nv:niv + nv]
        want = x
        if do_sym:
            want = (x + np.transpose(x, (0, 2, 1))) / 2
        ctx.eq(g.mat, want, 'central part of the input')
        ctx.eq(g.beta, beta, 'inverse temperature'), ctx.eq(g.u, u, 'interaction')
        ctx.true(g.channel == ch and g.niv == nv, 'channel and extents')
        ctx.true([int(w) for w in g.wn] == list(range(-nw, nw + 1)), 'bosonic frequencies')
        ctx.eq(inp['g4iw_' + ch], dat[ch], 'input unchanged')
    d = dga_io.create_dmft_ddict(inp, gd, gm)
    for k in ('giw', 'siw', 'n', 'beta', 'u', 'mu_dmft'):
        ctx.eq(d[k], inp[k], 'saved entry')
    ctx.eq(d['g4iw_dens'], gd.mat, 'saved entry'), ctx.eq(d['g4iw_magn'], gm.mat, 'saved entry')
    ctx.true(set(d) == {'giw', 'siw', 'n', 'beta', 'u', 'mu_dmft', 'g4iw_dens', 'g4iw_magn'}, 'entries a run needs to be restarted')


def cases(tier):
    th = tier != 'quick'
    out = [(unknown, {})]
    for nb in (1, 2):
        for niv in (1, 2) + ((4,) if th else ()):
            for z in (False, True):
                out.append((w2dyn, dict(nb=nb, niv=niv, niw=1, zero_n=z)))
            out.append((dmft1p, dict(nb=nb, niv=niv, full=())))
            out.append((dmft1p, dict(nb=nb, niv=niv, full=('giw-full', 'siw-full'))))
            out.append((dmft1p, dict(nb=nb, niv=niv, full=('giw-full',))))
    out.append((w2dyn, dict(nb=1, niv=2, niw=2, two=False)))
    out.append((w2dyn, dict(nb=1, niv=1, niw=0)))
    for niv, niw in ((1, 0), (2, 1), (2, 2)):
        out.append((ed, dict(niv=niv, niw=niw)))
        out.append((ed, dict(niv=niv, niw=niw, two=False)))
        out.append((three_leg, dict(niw=niw, niv=niv)))
    for niw in (0, 1, 3):
        for worm in ('worm-last', 'worm-001'):
            out.append((chi, dict(niw=niw, worm=worm)))
    out.append((w2dyn, dict(nb=1, niv=1, niw=11)))
    out.append((w2dyn, dict(nb=1, niv=11, niw=1)))
    out.append((w2dyn, dict(nb=12, niv=1, niw=0)))
    out.append((dmft1p, dict(nb=11, niv=1, full=())))
    out.append((ed, dict(niv=1, niw=11)))
    out.append((three_leg, dict(niw=11, niv=1)))
    out.append((chi, dict(niw=11, worm='worm-last')))
    out.append((getters, dict(niv=1)))
    for niw, niv in ((0, 1), (1, 2), (2, 1)):
        out.append((sequence, dict(niw=niw, niv=niv)))
    for niw, niv in ((0, 1), (1, 1), (1, 2), (2, 3)) + (((4, 4), (3, 5)) if th else ()):
        for nw in range(-1, niw + 2):
            for nv in [-1] + list(range(1, niv + 2)):
                for s in (False, True):
                    out.append((boxes, dict(niw=niw, niv=niv, niw_core=nw, niv_core=nv, do_sym=s)))
    return out
