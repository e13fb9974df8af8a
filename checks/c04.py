"""C04 frequency sums and their prefactors"""
import numpy as np
from dga import matsubara_frequencies as mf
from dga import local_four_point as lfp
from dga import bubble

EXPLANATION = 'sum routines on symbolic data; compared with the defining sums'
OUTSIDE = 'array sizes beyond those listed'


def bosonic_sum(ctx, niw, tail):
    a = ctx.cplx('a', (2 * niw + 1,) + tuple(tail))
    beta = ctx.pos('beta')
    n = ctx.int('n', -1, niw)
    got = mf.wn_sum(a, beta, niw_sum=n)
    n = int(n)
    k = niw if n == -1 else n
    ctx.eq(got, 1 / beta * sum(a[niw + w] for w in range(-k, k + 1)), '1/beta sum over the centred bosonic window')


def two_fermi_sum(ctx, niv, lead, iwn):
    """1/beta^2 sum_{v,v'} over the window centred at w/2"""
    a = ctx.cplx('a', tuple(lead) + (2 * niv, 2 * niv))
    beta = ctx.pos('beta')
    n = ctx.int('n', -1, niv)
    sh = iwn // 2
    ctx.assume((n == -1) | (n + abs(sh) <= niv))
    got = mf.vn_centered_sum_wn(a, beta, iwn=iwn, niv_sum=n)
    n = int(n)
    rng = range(-niv, niv) if n == -1 else range(-n + sh, n + sh)
    want = ctx.zeros(tuple(lead))
    for v in rng:
        for vp in rng:
            want = want + a[..., niv + v, niv + vp]
    ctx.eq(got, want / beta ** 2, '1/beta^2 double sum')


def two_fermi_sum_list(ctx, niv, lead, wlist, n):
    a = ctx.cplx('a', tuple(lead) + (len(wlist), 2 * niv, 2 * niv))
    beta = ctx.pos('beta')
    got = mf.vn_centered_sum(a, np.array(wlist), beta, niv_sum=n)
    if n == -1:
        ctx.eq(mf.vn_centered_sum(a, np.array(wlist), beta), got, 'all frequencies unless stated')
    for i, w in enumerate(wlist):
        sh = w // 2
        rng = range(-niv, niv) if n == -1 else range(-n + sh, n + sh)
        want = ctx.zeros(tuple(lead))
        for v in rng:
            for vp in rng:
                want = want + a[..., i, niv + v, niv + vp]
        ctx.eq(got[..., i], want / beta ** 2, '1/beta^2 double sum at every w')


def add_different_ranges(ctx, n1, n2, tail, axis):
    """sum of two bosonic objects of different range: union range, missing entries count as zero"""
    def mk(name, n):
        sh = list(tail)
        sh.insert(axis, 2 * n + 1)
        return ctx.cplx(name, tuple(sh))
    a, b = mk('a', n1), mk('b', n2)
    a0, b0 = a.copy(), b.copy()
    got = np.moveaxis(mf.add_bosonic(a, b, axis=axis), axis, 0)
    n = max(n1, n2)
    A, B = np.moveaxis(a0, axis, 0), np.moveaxis(b0, axis, 0)
    ctx.true(got.shape[0] == 2 * n + 1, 'union range')
    for w in range(-n, n + 1):
        t = ctx.zeros(tuple(tail))
        if abs(w) <= n1:
            t = t + A[n1 + w]
        if abs(w) <= n2:
            t = t + B[n2 + w]
        ctx.eq(got[n + w], t, 'elementwise sum at equal frequency')
    ctx.eq(a, a0, 'first operand unchanged')
    ctx.eq(b, b0, 'second operand unchanged')


def legs(ctx, niw, niv):
    beta = ctx.pos('beta')
    wn = mf.wn(niw)
    m = ctx.cplx('m', (len(wn), 2 * niv, 2 * niv))
    f = lfp.LocalFourPoint(channel='dens', mat=m, beta=beta, u=ctx.real('u'), is_full_w=True)
    got = f.contract_legs()
    ctx.eq(got, sum(m[:, i, j] for i in range(2 * niv) for j in range(2 * niv)) / beta ** 2, 'closing both fermionic legs: 1/beta^2')


def cases(tier):
    th = tier != 'quick'
    out = []
    for niw in (1, 2, 3):
        for tail in ((), (2,), (2, 2)):
            out.append((bosonic_sum, dict(niw=niw, tail=tail)))
    for niv in (1, 2, 3) if not th else (1, 2, 3, 4):
        for lead in ((), (2,)):
            for iwn in (-3, -2, -1, 0, 1, 2, 3):
                if abs(iwn // 2) <= niv:
                    out.append((two_fermi_sum, dict(niv=niv, lead=lead, iwn=iwn)))
    for lead in ((), (2,)):
        out.append((two_fermi_sum_list, dict(niv=3, lead=lead, wlist=[-2, -1, 0, 1, 2], n=1)))
        out.append((two_fermi_sum_list, dict(niv=2, lead=lead, wlist=[-1, 0, 1], n=-1)))
        out.append((two_fermi_sum_list, dict(niv=4, lead=lead, wlist=[-3, 4, 0, 1], n=2)))
    for n1 in (0, 1, 2):
        for n2 in (0, 1, 2):
            for tail, axis in [((), 0), ((2,), 0), ((3,), 1), ((2, 2), 1)]:
                out.append((add_different_ranges, dict(n1=n1, n2=n2, tail=tail, axis=axis)))
    for niw in (0, 1):
        for niv in (1, 2):
            out.append((legs, dict(niw=niw, niv=niv)))
    return out
