"""C34 symmetrization of the measured two-particle Green's function and reading it back"""
import contextlib
import builtins
import io
import itertools
import os
import sys
import numpy as np
from cli import sym1b
from dga import symmetrize as sym, w2dyn_aux_dga as w2
from common import H5, replaced

EXPLANATION = ('symbolic measured data of every spin-band component (files held in memory); reference: the average over the components '
               'related by the declared orbital equivalence and by spin rotation, with the channel combinations written out')
OUTSIDE = 'the HDF5 library; more than two (thorough: three) bands, more atoms, windows beyond the listed ones'

UU, UD, DU, DD, X1, X2 = (0, 0, 0, 0), (0, 0, 1, 1), (1, 1, 0, 0), (1, 1, 1, 1), (0, 1, 1, 0), (1, 0, 0, 1)
SIX = (UU, UD, DU, DD, X1, X2)
DENS = {UU: 1, UD: 1, DU: 1, DD: 1, X1: 0, X2: 0}
MAGN = {UU: 1, UD: -1, DU: -1, DD: 1, X1: 1, X2: 1}
WEIGHT = {'dens': (2, DENS), 'magn': (4, MAGN)}


def kanamori(n):
    out = []
    for i in range(n):
        for j in range(n):
            out += [(i, i, j, j), (i, j, i, j), (i, j, j, i)]
    return sorted(set(out))


def index(n, bands, spins):
    """position (from 1) of the band-spin component among all (2n)^4"""
    k = 0
    for b, s in zip(bands, spins):
        k = k * 2 * n + 2 * b + s
    return k + 1


def bindex(n, bands):
    k = 0
    for b in bands:
        k = k * n + b
    return k + 1


def shape_of(bands):
    """which of the four places carry the same band"""
    return tuple(bands.index(b) for b in bands)


def equivalent(bands, sy):
    """all components obtained by replacing every band by an equivalent one, keeping the pattern of equal bands"""
    out = []
    for c in itertools.product(*[sy[b] for b in bands]):
        c = tuple(x - 1 for x in c)
        if shape_of(list(c)) == shape_of(list(bands)):
            out.append(c)
    return sorted(set(out))


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def forbid(*a):
    raise AssertionError('asked for confirmation')


def indices(ctx, nbands, ind):
    """component numbers and band/spin quadruples are in one-to-one correspondence"""
    k = ctx.int('k', 1, (2 * nbands) ** 4) if ind is None else ind
    bs, b, s = sym.index2component_general(nbands, 4, k)
    r = 0
    for i in range(4):
        ctx.true(bs[i] == 2 * b[i] + s[i], 'band-spin = 2 band + spin')
        ctx.true(0 <= s[i], 'spin'), ctx.true(s[i] <= 1, 'spin')
        ctx.true(0 <= b[i], 'band'), ctx.true(b[i] <= nbands - 1, 'band')
        r = r * 2 * nbands + bs[i]
    ctx.true(r + 1 == k, 'numbering')


def band_indices(ctx, nbands):
    b = [ctx.int(f'b{i}', 0, nbands - 1) for i in range(4)]
    k = sym.component2index_band(nbands, 4, b)
    ctx.true(k == 1 + b[3] + nbands * (b[2] + nbands * (b[1] + nbands * b[0])), 'numbering')
    r = sym.index2component_band(nbands, 4, k)
    for i in range(4):
        ctx.true(r[i] == b[i], 'inverse')


def measured(ctx, h5, nb, grp, target, nf, nw, kind, nans=()):
    """file with all components of the Kanamori interaction; returns {(atom, bands, spins): data}"""
    files = h5.files.setdefault('in.hdf5', {})
    data = {}
    for a, n in enumerate(nb):
        for g in kanamori(n):
            for s in SIX:
                shp = {'1freq_b': (nw,), '2freq': (nf, nw), '3freq': (nf, nf, nw)}[target]
                i = index(n, g, s)
                x = ctx.cplx(f'x{a}_{i}', shp)
                files[f'{grp}/ineq-{a + 1:03}/{kind}/{i:05}/value'] = x
                if (a, g, s) in nans:
                    x = x.copy()
                    files[f'{grp}/ineq-{a + 1:03}/{kind}/{i:05}/value'] = x.copy()
                    files[f'{grp}/ineq-{a + 1:03}/{kind}/{i:05}/value'][nans[(a, g, s)]] = np.nan
                    x[nans[(a, g, s)]] = 0
                data[a, g, s] = x
    files['.axes/iwf'] = np.arange(nf)
    files['.axes/iwb'] = np.arange(nw)
    return data


KIND = {'1freq_b': 'p2iw-worm', '2freq': 'p3iw-worm', '3freq': 'g4iw-worm'}


def run(ctx, target, nb, sy, nf, nw, nans=(), grp='worm-last'):
    h5 = H5()
    data = measured(ctx, h5, nb, grp, target, nf, nw, KIND[target], dict(nans))
    conf = {'nineq': len(nb), 'target': target, 'sym_type': 'o', 'outfile': 'out.hdf5', 'Nbands': list(nb), 'infile': 'in.hdf5',
            'sym': [list(map(list, s)) for s in sy]}
    if grp != 'worm-last' or target == '3freq':
        conf['worm_group'] = grp
    before = {k: v.copy() for k, v in h5.files['in.hdf5'].items()}
    with replaced((sym, 'h5py', h5)), quiet():
        old = builtins.input
        builtins.input = forbid
        try:
            sym.main(conf)
        finally:
            builtins.input = old
    for k, v in before.items():
        if not nans:
            ctx.eq(h5.files['in.hdf5'][k], v, 'measured file unchanged')
    return h5, data


def expected(data, a, g, ch, sy):
    norm, w = WEIGHT[ch]
    eq = equivalent(g, sy)
    t = 0
    for c in eq:
        for s in SIX:
            if w[s]:
                t = t + w[s] * data[a, c, s]
    return t / (norm * len(eq))


def three(ctx, nb, sy, nf, nw, nans=()):
    h5, data = run(ctx, '3freq', nb, sy, nf, nw, nans)
    with replaced((w2, 'h5py', h5)):
        f = w2.W2dynG4iwFile('out.hdf5')
        for ch in ('dens', 'magn'):
            w = np.arange(-(nw // 2), nw // 2 + 1)
            first = expected(data, 0, (0, 0, 0, 0), ch, sy[0])
            ctx.eq(f.read_g2_iw(channel=ch, iw=w), np.moveaxis(first, -1, 0), 'first atom and component unless stated')
            ctx.eq(f.read_g2_full(channel=ch), np.moveaxis(first, -1, 0), 'first atom and component unless stated')
        for a, n in enumerate(nb):
            for ch in ('dens', 'magn'):
                for g in kanamori(n):
                    want = expected(data, a, g, ch, sy[a])
                    kw = dict(ineq=a + 1, channel=ch, spinband=bindex(n, g))
                    full = f.read_g2_full(**kw)
                    part = f.read_g2(niw=(nw - 1) // 2, niv=nf // 2, **kw)
                    ctx.true(int(f.get_niw(**kw)) == (nw - 1) // 2, 'number of bosonic frequencies')
                    for iw in range(nw):
                        ctx.eq(full[iw], want[:, :, iw], 'average over equivalent components')
                        ctx.eq(part[iw], want[:, :, iw], 'average over equivalent components')
                    for wl in ([0], [-((nw - 1) // 2), (nw - 1) // 2], [1, 0] if nw > 1 else [0]):
                        r = f.read_g2_iw(iw=np.array(wl), **kw)
                        for j, iw in enumerate(wl):
                            ctx.eq(r[j], want[:, :, iw + (nw - 1) // 2], 'selected bosonic frequencies')


def two(ctx, nb, sy, nf, nw):
    h5, data = run(ctx, '2freq', nb, sy, nf, nw)
    out = h5.files['out.hdf5']
    for a, n in enumerate(nb):
        for ch in ('dens', 'magn'):
            for g in kanamori(n):
                want = expected(data, a, g, ch, sy[a])
                for iw in range(nw):
                    ctx.eq(out[f'ineq-{a + 1:03}/{ch}/{iw:05}/{bindex(n, g):05}'], want[:, iw], 'average over equivalent components')


def one(ctx, nb, sy, nw):
    h5, data = run(ctx, '1freq_b', nb, sy, 0, nw)
    out = h5.files['out.hdf5']
    for a, n in enumerate(nb):
        for ch in ('dens', 'magn'):
            for g in kanamori(n):
                ctx.eq(out[f'ineq-{a + 1:03}/{ch}/{bindex(n, g):05}'], expected(data, a, g, ch, sy[a]), 'average over equivalent components')


def invariant(ctx, nb, sy, nf, nw):
    """the result has the declared symmetry, and data that already have it are reproduced"""
    h5, data = run(ctx, '3freq', nb, sy, nf, nw)
    out = h5.files['out.hdf5']
    for a, n in enumerate(nb):
        for ch in ('dens', 'magn'):
            for g in kanamori(n):
                for c in equivalent(g, sy[a]):
                    for iw in range(nw):
                        ctx.eq(out[f'ineq-{a + 1:03}/{ch}/{iw:05}/{bindex(n, g):05}/value'],
                               out[f'ineq-{a + 1:03}/{ch}/{iw:05}/{bindex(n, c):05}/value'], 'equivalent components are equal')


def single(ctx, nb, sy, niv):
    """single-particle data: average over spin and equivalent bands; the measured data are kept"""
    h5 = H5()
    files = h5.files.setdefault('in.hdf5', {})
    dat = {}
    for a, n in enumerate(nb):
        for q in ('giw', 'siw'):
            dat[a, q] = ctx.cplx(f'{q}{a}', (n, 2, 2 * niv))
            files[f'dmft-last/ineq-{a + 1:03}/{q}/value'] = dat[a, q].copy()
    conf = {'nineq': len(nb), 'target': '1freq_f', 'outfile': 'out.hdf5', 'Nbands': list(nb), 'infile': 'in.hdf5',
            'sym': [list(map(list, s)) for s in sy]}

    def copyfile(a, b):
        h5.files[b] = {k: v.copy() for k, v in h5.files[a].items()}
    with replaced((sym, 'h5py', h5), (sym, 'copyfile', copyfile)), quiet():
        sym.main(conf)
    out = h5.files['out.hdf5']
    for a, n in enumerate(nb):
        for q in ('giw', 'siw'):
            x = dat[a, q]
            ctx.eq(out[f'dmft-last/ineq-{a + 1:03}/{q}_unsymmetrized/value'], x, 'measured data kept')
            r = out[f'dmft-last/ineq-{a + 1:03}/{q}/value']
            for b in range(n):
                eq = sorted(set(sy[a][b]))
                want = sum(x[c - 1, s] for c in eq for s in range(2)) / (2 * len(eq))
                for s in range(2):
                    ctx.eq(r[b, s], want, 'average over spin and equivalent bands')


def refused(ctx, nb, sy):
    """an equivalence that is not mutual is refused before anything is written"""
    h5 = H5()
    h5.files['in.hdf5'] = {}
    conf = {'nineq': len(nb), 'target': '3freq', 'outfile': 'out.hdf5', 'Nbands': list(nb), 'infile': 'in.hdf5', 'sym': sy, 'worm_group': 'worm-last'}
    with replaced((sym, 'h5py', h5)), quiet():
        ctx.raises(SystemExit, lambda: sym.main(conf), 'inconsistent equivalence')
    ctx.true('out.hdf5' not in h5.files, 'nothing written')


def existing(ctx):
    """an existing output file is not overwritten"""
    h5 = H5()
    measured(ctx, h5, (1,), 'worm-last', '3freq', 2, 1, 'g4iw-worm')
    old = ctx.cplx('old', (2,))
    h5.files['out.hdf5'] = {'ineq-001/dens/00000/00001/value': old.copy()}
    conf = {'nineq': 1, 'target': '3freq', 'outfile': 'out.hdf5', 'Nbands': [1], 'infile': 'in.hdf5', 'sym': [[[1]]], 'worm_group': 'worm-last'}
    with replaced((sym, 'h5py', h5)), quiet():
        ctx.raises(SystemExit, lambda: sym.main(conf), 'output exists')
    ctx.true(list(h5.files['out.hdf5']) == ['ineq-001/dens/00000/00001/value'], 'output file unchanged')
    ctx.eq(h5.files['out.hdf5']['ineq-001/dens/00000/00001/value'], old, 'output file unchanged')


def command(ctx, argv, infile, outfile, nf, nw):
    """the command-line tool: one atom with one band, files by folder and name"""
    h5 = H5()
    data = measured(ctx, h5, (1,), 'worm-last', '3freq', nf, nw, 'g4iw-worm')
    h5.files[infile] = h5.files.pop('in.hdf5')
    old = builtins.input
    with replaced((sym, 'h5py', h5), (sys, 'argv', ['sym1b'] + list(argv))), quiet():
        builtins.input = forbid
        try:
            sym1b.main()
        finally:
            builtins.input = old
    ctx.true(sorted(h5.files) == sorted((infile, outfile)), 'files of the command line')
    with replaced((w2, 'h5py', h5)):
        f = w2.W2dynG4iwFile(outfile)
        for ch in ('dens', 'magn'):
            ctx.eq(f.read_g2_full(channel=ch), np.moveaxis(expected(data, 0, (0, 0, 0, 0), ch, S1[0]), -1, 0), 'symmetrized two-particle function')


S1 = (((1,),),)
S2 = (((1, 2), (1, 2)),)
S2n = (((1,), (2,)),)
S3 = (((1, 2), (1, 2), (3,)),)
S3b = (((1, 3), (2,), (1, 3)),)
S3c = (((1, 2, 3),) * 3,)


def cases(tier):
    th = tier != 'quick'
    out = []
    for n in (1, 2, 3):
        out.append((band_indices, dict(nbands=n)))
        out.append((indices, dict(nbands=n, ind=None), dict(max_paths=1500)))
    for nf, nw in ((2, 1), (2, 3), (4, 3)) + (((6, 5), (8, 3)) if th else ()):
        out.append((three, dict(nb=(1,), sy=S1, nf=nf, nw=nw)))
    out.append((three, dict(nb=(1,), sy=S1, nf=2, nw=3, nans=(((0, (0, 0, 0, 0), UU), (1, 0, 2)), ((0, (0, 0, 0, 0), X1), (0, 0, 0))))))
    for sy in (S2, S2n):
        out.append((three, dict(nb=(2,), sy=sy, nf=2, nw=3)))
        out.append((invariant, dict(nb=(2,), sy=sy, nf=2, nw=1)))
        out.append((two, dict(nb=(2,), sy=sy, nf=4, nw=3)))
        out.append((one, dict(nb=(2,), sy=sy, nw=5)))
        out.append((single, dict(nb=(2,), sy=sy, niv=2)))
    out.append((two, dict(nb=(1,), sy=S1, nf=4, nw=3)))
    out.append((two, dict(nb=(1, 1), sy=S1 + S1, nf=2, nw=3)))
    out.append((one, dict(nb=(1,), sy=S1, nw=3)))
    out.append((one, dict(nb=(1, 2), sy=S1 + S2, nw=3)))
    out.append((three, dict(nb=(1, 1), sy=S1 + S1, nf=2, nw=1)))
    out.append((three, dict(nb=(1,), sy=S1, nf=2, nw=23)))
    out.append((two, dict(nb=(1,), sy=S1, nf=2, nw=101)))
    out.append((one, dict(nb=(1,) * 11, sy=S1 * 11, nw=3)))
    out.append((three, dict(nb=(1,) * 11, sy=S1 * 11, nf=2, nw=1)))
    out.append((three, dict(nb=(2, 1), sy=S2 + S1, nf=2, nw=1)))
    for sy in (S3, S3b) + ((S3c,) if th else ()):
        out.append((one, dict(nb=(3,), sy=sy, nw=1)))
        out.append((single, dict(nb=(3,), sy=sy, niv=1)))
        if th:
            out.append((three, dict(nb=(3,), sy=sy, nf=2, nw=1)))
    out.append((single, dict(nb=(1,), sy=S1, niv=2)))
    out.append((single, dict(nb=(1, 2), sy=S1 + S2, niv=1)))
    out.append((refused, dict(nb=(2,), sy=[[[1, 2], [2]]])))
    out.append((refused, dict(nb=(3,), sy=[[[1, 2], [1, 2, 3], [3]]])))
    out.append((existing, dict()))
    here = os.getcwd() + '/'
    for argv, fi, fo in (((), here + 'Vertex.hdf5', here + 'g4iw_sym.hdf5'), (('-p', '/d/'), '/d/Vertex.hdf5', '/d/g4iw_sym.hdf5'),
                         (('-p', '/d/', '-if', 'a.hdf5', '-of', 'b.hdf5'), '/d/a.hdf5', '/d/b.hdf5'),
                         (('--output_file', 'b.hdf5', '--path', '/e/', '--input_file', 'c.hdf5'), '/e/c.hdf5', '/e/b.hdf5')):
        out.append((command, dict(argv=argv, infile=fi, outfile=fo, nf=2, nw=3)))
    return out
