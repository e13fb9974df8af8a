"""C03 reconstruction of the full frequency range from the non-negative half"""
import numpy as np
from dga import matsubara_frequencies as mf

EXPLANATION = 'symbolic complex data on the positive half; the mirrored half is compared with the complex-conjugation symmetry'
OUTSIDE = 'array sizes beyond those listed'


def fermi(ctx, n, shape, axis):
    sh = list(shape)
    sh[axis] = n
    a = ctx.cplx('a', tuple(sh))
    f = np.moveaxis(mf.fermionic_full_nu_range(a, axis=axis), axis, 0)
    p = np.moveaxis(a, axis, 0)
    ctx.true(f.shape[0] == 2 * n, 'twice as many frequencies')
    for v in range(n):
        ctx.eq(f[n + v], p[v], 'positive half kept')
        ctx.eq(f[n - 1 - v], np.conj(p[v]), 'F(-v) = F(v)^*')


def fermi_roundtrip(ctx, n, lead):
    """clip to positive frequencies and rebuild = identity for objects with the symmetry"""
    p = ctx.cplx('a', tuple(lead) + (n,))
    full = np.concatenate((np.conj(p[..., ::-1]), p), axis=-1)
    ctx.eq(mf.fermionic_full_nu_range(mf.clip_pos_mf_vn(full)), full, 'clip then rebuild')


def bose(ctx, n, shape, axis):
    sh = list(shape)
    sh[axis] = n + 1
    a = ctx.cplx('a', tuple(sh))
    f = np.moveaxis(mf.bosonic_full_nu_range(a, axis=axis), axis, 0)
    p = np.moveaxis(a, axis, 0)
    ctx.true(f.shape[0] == 2 * n + 1, '2n+1 frequencies')
    for w in range(n + 1):
        ctx.eq(f[n + w], p[w], 'non-negative half kept')
        if w:
            ctx.eq(f[n - w], np.conj(p[w]), 'X(-w) = X(w)^*')


def bose_fermi(ctx, nw, nv, lead, nferm):
    """objects depending on bosonic and fermionic frequencies: X(-w,-v,..) = X(w,v,..)^*"""
    a = ctx.cplx('a', tuple(lead) + (nw + 1,) + (2 * nv,) * nferm)
    ax = len(lead)
    fax = tuple(range(ax, ax + 1 + nferm))
    f = mf.bosonic_full_nu_range(a, axis=ax, freq_axes=fax)
    ctx.true(f.shape[ax] == 2 * nw + 1, '2n+1 bosonic frequencies')
    f = np.moveaxis(f, ax, 0)
    p = np.moveaxis(a, ax, 0)
    for w in range(nw + 1):
        ctx.eq(f[nw + w], p[w], 'non-negative half kept')
        if w:
            m = p[w]
            for i in range(nferm):
                m = np.flip(m, axis=ax + i)
            ctx.eq(f[nw - w], np.conj(m), 'X(-w,-v) = X(w,v)^*')


def cases(tier):
    th = tier != 'quick'
    out = []
    ns = (1, 2, 3) if not th else (1, 2, 3, 4, 6)
    for n in ns:
        for shape, axis in [((1,), 0), ((1,), -1), ((2, 1), -1), ((1, 3), 0), ((2, 1, 3), 1), ((2, 3, 1), 2)]:
            out.append((fermi, dict(n=n, shape=shape, axis=axis)))
            out.append((bose, dict(n=n, shape=shape, axis=axis)))
        for lead in ((), (3,), (2, 2)):
            out.append((fermi_roundtrip, dict(n=n, lead=lead)))
            for nv in (1, 2):
                for nf in (1, 2):
                    out.append((bose_fermi, dict(nw=n, nv=nv, lead=lead, nferm=nf)))
    return out
