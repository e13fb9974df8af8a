"""C01 Matsubara grids and frequency shifts"""
import numpy as np
from dga import matsubara_frequencies as mf

EXPLANATION = ('grid constructors and frequency-shift conventions executed symbolically: beta is a symbolic positive real, '
               'sizes/shifts/the bosonic index are symbolic integers within bounds')
OUTSIDE = 'grid sizes beyond the stated integer bounds'


def fermi_int(ctx, nmax, pos):
    n = ctx.int('n', 0, nmax)
    sh = ctx.int('shift', -3, 3)
    g = mf.vn(n, shift=sh, pos=pos)
    n, sh = int(n), int(sh)
    ctx.eq(g, np.arange(n) + sh if pos else np.arange(2 * n) - n + sh, 'fermionic index grid')


def fermi_beta(ctx, nmax, pos):
    n = ctx.int('n', 0, nmax)
    sh = ctx.int('shift', -3, 3)
    beta = ctx.pos('beta')
    g = mf.vn(beta, n, shift=sh, pos=pos)
    n, sh = int(n), int(sh)
    idx = range(sh, n + sh) if pos else range(-n + sh, n + sh)
    ctx.eq(g, ctx.arr([(2 * i + 1) * ctx.pi / beta for i in idx]), 'fermionic Matsubara frequencies (2n+1) pi / beta')


def bose_int(ctx, nmax, pos):
    n = ctx.int('n', 0, nmax)
    sh = ctx.int('shift', -3, 3)
    g = mf.wn(n, shift=sh, pos=pos)
    n, sh = int(n), int(sh)
    ctx.eq(g, np.arange(n + 1) + sh if pos else np.arange(2 * n + 1) - n + sh, 'bosonic index grid')


def bose_beta(ctx, nmax, pos):
    n = ctx.int('n', 0, nmax)
    sh = ctx.int('shift', -3, 3)
    beta = ctx.pos('beta')
    g = mf.wn(beta, n, shift=sh, pos=pos)
    n, sh = int(n), int(sh)
    idx = range(sh, n + sh + 1) if pos else range(-n + sh, n + sh + 1)
    ctx.eq(g, ctx.arr([2 * i * ctx.pi / beta for i in idx]), 'bosonic Matsubara frequencies 2 n pi / beta')


def from_mat(ctx, n, axis, pos, shift):
    """grids sized from an array: fermionic axes have 2n (n) entries, bosonic ones 2n+1 (n+1)"""
    beta = ctx.pos('beta')
    for kind in 'fb':
        ln = (n if pos else 2 * n) if kind == 'f' else (n + 1 if pos else 2 * n + 1)
        shape = [5, 3, 6]
        shape[axis] = ln
        mat = np.zeros(shape)
        if kind == 'f':
            ref = np.arange(n) + shift if pos else np.arange(-n, n) + shift
            ctx.eq(mf.vn(mat, axis=axis, pos=pos, shift=shift), ref, 'fermionic grid of an array')
            ctx.eq(mf.vn(beta, mat, axis=axis, pos=pos, shift=shift), ctx.arr([(2 * int(i) + 1) * ctx.pi / beta for i in ref]),
                   'fermionic frequencies of an array')
            ctx.true(mf.niv_from_mat(mat, axis=axis, pos=pos) == n, 'fermionic size of an array')
        else:
            ref = np.arange(n + 1) + shift if pos else np.arange(-n, n + 1) + shift
            ctx.eq(mf.wn(mat, axis=axis, pos=pos, shift=shift), ref, 'bosonic grid of an array')
            ctx.eq(mf.wn(beta, mat, axis=axis, pos=pos, shift=shift), ctx.arr([2 * int(i) * ctx.pi / beta for i in ref]),
                   'bosonic frequencies of an array')
            ctx.true(mf.niw_from_mat(mat, axis=axis, pos=pos) == n, 'bosonic size of an array')


def shifts(ctx, bound, notation):
    """the two propagators of a bubble always differ by exactly the transferred bosonic frequency; symmetric notation is centred"""
    iwn = ctx.int('iwn', -bound, bound)
    a, b = mf.get_freq_shift(iwn, notation)
    if notation == 'plus':
        ctx.eq(a, 0, 'first leg unshifted')
        ctx.eq(b, iwn, 'second leg at v+w')
    elif notation == 'minus':
        ctx.eq(a, 0, 'first leg unshifted')
        ctx.eq(b, -iwn, 'second leg at v-w')
    else:
        ctx.eq(a - b, iwn, 'legs differ by w')
        ctx.true(0 <= a + b + 1, 'legs centred around v')
        ctx.true(a + b <= 0, 'legs centred around v')


def unknown(ctx, name):
    ctx.raises(NotImplementedError, lambda: mf.get_freq_shift(1, name), 'unknown notation is rejected')


def lin_index(ctx, bound):
    """linear position of a centred bosonic index"""
    w = ctx.int('w', -bound, bound)
    n = ctx.int('n', 0, bound)
    ctx.eq(mf.wn_cen2lin(w, n), w + n, 'linear index of a centred bosonic frequency')


def cases(tier):
    nm = 5 if tier == 'quick' else 9
    out = []
    for pos in (False, True):
        out += [(fermi_int, dict(nmax=nm, pos=pos)), (fermi_beta, dict(nmax=nm, pos=pos)),
                (bose_int, dict(nmax=nm, pos=pos)), (bose_beta, dict(nmax=nm, pos=pos))]
        for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5)):
            for ax in (0, 1, 2, -1, -2):
                for sh in (0, 2):
                    out.append((from_mat, dict(n=n, axis=ax, pos=pos, shift=sh)))
    for nt in ('plus', 'minus', 'center'):
        out.append((shifts, dict(bound=10 ** 6, notation=nt)))
    for nm in ('Plus', 'centre', ''):
        out.append((unknown, dict(name=nm)))
    out.append((lin_index, dict(bound=10 ** 6)))
    return out
