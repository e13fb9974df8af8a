"""C02 centred frequency windows and shells"""
import numpy as np
from dga import matsubara_frequencies as mf

EXPLANATION = 'window/shell routines on arrays of symbolic complex entries; window sizes and shifts are symbolic integers'
OUTSIDE = 'array sizes beyond those listed'


def _take(a, axis, idx):
    return np.moveaxis(np.moveaxis(a, axis, 0)[list(idx)], 0, axis)


def cut_fermi(ctx, shape, axes):
    a = ctx.cplx('a', shape)
    nmin = min(shape[ax] // 2 for ax in axes)
    n = ctx.int('n', -1, nmin)
    ctx.assume(n != 0)
    got = mf.cut_v(a, niv_cut=n, axes=axes)
    n = int(n)
    want = a
    for ax in axes:
        m = shape[ax] // 2
        k = m if n == -1 else n
        want = _take(want, ax, range(m - k, m + k))
    ctx.eq(got, want, 'window [-n,n) on the requested axes only')


def cut_bose(ctx, shape, axes):
    a = ctx.cplx('a', shape)
    n = ctx.int('n', 0, min(shape[ax] // 2 for ax in axes))
    got = mf.cut_w(a, niw_cut=n, axes=axes)
    n = int(n)
    want = a
    for ax in axes:
        m = shape[ax] // 2
        want = _take(want, ax, range(m - n, m + n + 1))
    ctx.eq(got, want, 'window [-n,n] on the requested axes only')
    if tuple(axes) == (0,):
        ctx.eq(mf.cut_w(a, niw_cut=n), want, 'first axis unless stated')


def inv_cut(ctx, shape, axes):
    a = ctx.cplx('a', shape)
    m = min(shape[ax] // 2 for ax in axes)
    core = ctx.int('core', 0, m)
    shell = ctx.int('shell', 1, m)
    ctx.assume(core + shell <= m)
    got = mf.inv_cut_v(a, niv_core=core, niv_shell=shell, axes=axes)
    core, shell = int(core), int(shell)
    want = a
    for ax in axes:
        h = shape[ax] // 2
        want = _take(want, ax, list(range(h - core - shell, h - core)) + list(range(h + core, h + core + shell)))
    ctx.eq(got, want, 'complement of the core window')


def split_and_glue(ctx, n, lead):
    """core window + shell = full object"""
    a = ctx.cplx('a', tuple(lead) + (2 * n,))
    core = ctx.int('core', 0, n)
    c = mf.cut_v(a, niv_cut=core, axes=(-1,))
    s = mf.inv_cut_v(a, niv_core=core, niv_shell=n - core, axes=(-1,))
    ctx.eq(mf.concatenate_core_asmypt(c, s), a, 'gluing core and shell restores the object')


def append_shell(ctx, n, lead, const):
    a = ctx.cplx('a', tuple(lead) + (2 * n, 2 * n))
    u = ctx.cplx('u') if not const else 0
    k = ctx.int('k', 0, 2)
    got = mf.append_v_vp_shell(a, u, niv_shell=k)
    k = int(k)
    full = 2 * (n + k)
    want = ctx.zeros(tuple(lead) + (full, full))
    want[...] = u
    want[..., k:k + 2 * n, k:k + 2 * n] = a
    ctx.eq(got, want, 'shell filled with the asymptotic value, core untouched')
    ctx.eq(mf.cut_v(got, niv_cut=n, axes=(-2, -1)), a, 'cutting the core back')


def shifted_cut(ctx, shape, axes):
    a = ctx.cplx('a', shape)
    m = min(shape[ax] // 2 for ax in axes)
    n = ctx.int('n', -1, m)
    iwn = ctx.int('iwn', -m, m)
    ctx.assume((n == -1) | (n + abs(iwn) <= m))
    ctx.assume((n != 0) & ((n > 0) | (abs(iwn) < m)))
    got = mf.cut_iv_with_iw_shift(a, niv_cut=n, iwn=iwn, axes=axes)
    n, iwn = int(n), int(iwn)
    want = a
    for ax in axes:
        h = shape[ax] // 2
        k = h - abs(iwn) if n == -1 else n
        want = _take(want, ax, range(h - k - iwn, h + k - iwn))
    ctx.eq(got, want, 'window centred around the bosonic shift')
    if tuple(axes) == (-1,) and n == -1:
        ctx.eq(mf.cut_iv_with_iw_shift(a, iwn=iwn), want, 'last axis and largest window unless stated')
        if iwn == 0:
            ctx.eq(mf.cut_iv_with_iw_shift(a), a, 'nothing to cut')


def pos_part(ctx, n, lead):
    a = ctx.cplx('a', tuple(lead) + (2 * n,))
    ctx.eq(mf.clip_pos_mf_vn(a), a[..., n:], 'positive fermionic half')
    if not lead:
        k = ctx.int('k', 0, n)
        lo = ctx.int('lo', 0, n)
        ctx.assume(k + lo <= n)
        got = mf.cut_v_1d_pos(a, niv_cut=k, niv_min=lo)
        ctx.eq(got, a[n + int(lo):n + int(lo) + int(k)], 'positive window')


def at_index(ctx, niw, axis, pos):
    shape = [3, 2, 2]
    ax = axis % 3
    shape[ax] = niw + 1 if pos else 2 * niw + 1
    a = ctx.cplx('a', tuple(shape))
    i = ctx.int('i', 0 if pos else -niw, niw)
    got = mf.get_mat_at_iwn(a, i, pos=pos, axis=axis)
    i = int(i)
    ctx.eq(got, np.moveaxis(a, ax, 0)[i + (0 if pos else niw)], 'value at a bosonic frequency')
    ctx.eq(mf.mat_at_w0(a, pos=pos, axis=axis), np.moveaxis(a, ax, 0)[0 if pos else niw], 'value at zero frequency')


def cases(tier):
    th = tier != 'quick'
    out = []
    for shape, axs in [((4,), [(0,), (-1,)]), ((6, 4), [(0,), (1,), (0, 1), (1, 0), (-1,)]),
                       ((2, 4, 6), [(1,), (-1,), (-2, -1), (1, 2), (2, 1)]), ((3, 4, 4), [(-1, -2), (1, 2)])] + \
            ([((4, 6, 4), [(0, 1, 2), (0, 2), (2, 0)]), ((8, 6), [(0, 1), (1,)])] if th else []):
        for ax in axs:
            out.append((cut_fermi, dict(shape=shape, axes=ax)))
            out.append((inv_cut, dict(shape=shape, axes=ax)))
            out.append((shifted_cut, dict(shape=shape, axes=ax)))
    for shape, axs in [((5,), [(0,), (-1,)]), ((5, 3), [(0,), (1,), (0, 1)]), ((2, 5, 3), [(1,), (-1,), (1, 2)])] + \
            ([((7, 5, 3), [(0, 1, 2), (0,)])] if th else []):
        for ax in axs:
            out.append((cut_bose, dict(shape=shape, axes=ax)))
    for lead in ((), (2,), (2, 3)):
        for n in ((1, 2, 3) if not th else (1, 2, 3, 4, 5)):
            out.append((split_and_glue, dict(n=n, lead=lead)))
            out.append((pos_part, dict(n=n, lead=lead)))
            for c in (False, True):
                out.append((append_shell, dict(n=n, lead=lead, const=c)))
    for ax in (0, 1, 2, -1):
        for pos in (False, True):
            for n in (0, 1, 3):
                out.append((at_index, dict(niw=n, axis=ax, pos=pos)))
    return out
