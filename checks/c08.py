"""C08 asymptotic correction of the bubble = complete high-frequency sum minus the sum over the window"""
import numpy as np
from fractions import Fraction
from dga import bubble as bub, matsubara_frequencies as mf
from common import make_giwk, all_q, legs, kmean, lfp

EXPLANATION = ('symbolic temperature, chemical potential, self-energy moments and dispersion; the window sums are compared with the '
               'explicit sums of the large-frequency expansion of the two propagators, the complete sums with their closed forms')
OUTSIDE = 'windows, frequency lists and k meshes larger than listed'


def gen(ctx, nk, wn, nt, full=False, niv=1):
    beta = ctx.pos('beta')
    mu, s0, s1 = ctx.real('mu'), ctx.real('s0'), ctx.pos('s1')
    ek = ctx.real('ek', nk)
    obj, g = make_giwk(ctx, nk, niv + int(max(abs(np.asarray(wn)))) + 1, beta, mu=mu, smom0=s0, smom1=s1, ek=ek)
    return beta, mu, s0, s1, ek, g, bub.BubbleGenerator(wn=np.asarray(wn), giwk_obj=obj, freq_notation=nt, is_full_wn=full)


def model_window(ctx, beta, wn, niv, nt, a, b, c):
    """-1/beta sum over the window of the products 1/(v v') ... with coefficients a, b, c of the expansion"""
    out = []
    for w in wn:
        sh = {'plus': (0, w), 'minus': (0, -w), 'center': (w // 2, -(w // 2 + w % 2))}[nt]
        t = 0
        for n in range(-niv, niv):
            x = 1 / (1j * (2 * (n + sh[0]) + 1) * ctx.pi / beta)
            y = 1 / (1j * (2 * (n + sh[1]) + 1) * ctx.pi / beta)
            t = t + x * y - (x * x * y + x * y * y) * a + (x ** 3 * y + x * y ** 3) * b + x * x * y * y * c
        out.append(-t / beta)
    return out


def exact(ctx, beta, wn, b, c):
    out = []
    for w in wn:
        if w == 0:
            out.append(beta / 4 - beta ** 3 / 24 * b - beta ** 3 / 48 * c)
        else:
            iw = 2j * int(w) * ctx.pi / beta
            out.append(-beta / 2 / iw ** 2 * (b - c))
    return out


def local(ctx, nk, wn, niv, nt):
    beta, mu, s0, s1, ek, g, bg = gen(ctx, nk, wn, nt)
    a = mu - s0
    b = (mu - s0) ** 2 + kmean(ek ** 2) - s1
    c = (mu - s0) ** 2 + kmean(ek) ** 2
    win, ex = model_window(ctx, beta, wn, niv, nt, a, b, c), exact(ctx, beta, wn, b, c)
    ctx.eq(bg.get_asympt_sum(niv), win, 'window part')
    ctx.eq(bg.get_exact_asymptotics(), ex, 'complete sum')
    corr = [x - y for x, y in zip(ex, win)]
    ctx.eq(bg.get_asymptotic_correction(niv), corr, 'correction')
    ctx.eq(bg.get_chi0(niv, do_asympt=True), [x + y for x, y in zip(bg.get_chi0(niv), corr)], 'corrected bubble')


def lattice(ctx, nk, wn, niv, nt):
    beta, mu, s0, s1, ek, g, bg = gen(ctx, nk, wn, nt)
    qs = all_q(nk)
    a = mu - s0
    b = (mu - s0) ** 2 + kmean(ek ** 2) - s1
    got_sum, got_ex = bg.get_asympt_sum_q(niv, qs), bg.get_exact_asymptotics_q(qs)
    got_c = bg.get_asymptotic_correction_q(niv, qs)
    for i, q in enumerate(qs):
        eq = 0
        for k in np.ndindex(*nk):
            eq = eq + ek[k] * ek[tuple((x + y) % n for x, y, n in zip(k, q, nk))]
        c = (mu - s0) ** 2 + eq / int(np.prod(nk))
        win, ex = model_window(ctx, beta, wn, niv, nt, a, b, c), exact(ctx, beta, wn, b, c)
        ctx.eq(got_sum[i], win, 'window part')
        ctx.eq(got_ex[i], ex, 'complete sum')
        ctx.eq(got_c[i], [x - y for x, y in zip(ex, win)], 'correction')


def q_mean(ctx, nk, wn, niv, nt):
    """the momentum average of the lattice correction is the local correction"""
    beta, mu, s0, s1, ek, g, bg = gen(ctx, nk, wn, nt)
    qs = all_q(nk)
    cq = bg.get_asymptotic_correction_q(niv, qs)
    ctx.eq(sum(cq[i] for i in range(len(qs))) / len(qs), bg.get_asymptotic_correction(niv), 'q mean')


def shell(ctx, nk, niw, niv, nshell, nt):
    beta, mu, s0, s1, ek, g, bg = gen(ctx, nk, mf.wn(niw), nt, niv=niv + nshell)
    qs = all_q(nk)[:3]
    core = bg.get_chi0_q_list(niv, qs)
    sh = bg.get_chi0q_shell(core, niv, nshell, qs)
    want = bg.get_chi0_q_list(niv + nshell, qs) + bg.get_asymptotic_correction_q(niv + nshell, qs)
    ctx.eq(core + sh, want, 'core + shell = window + correction')


def sequence(ctx, nk, wn, nt):
    """one generator asked again and again for other windows, momenta and notations"""
    beta, mu, s0, s1, ek, g, bg = gen(ctx, nk, wn, nt, niv=3)
    a = mu - s0
    b = (mu - s0) ** 2 + kmean(ek ** 2) - s1
    cl = (mu - s0) ** 2 + kmean(ek) ** 2

    def cq(q):
        return (mu - s0) ** 2 + sum(ek[k] * ek[tuple((x + y) % n for x, y, n in zip(k, q, nk))] for k in np.ndindex(*nk)) / int(np.prod(nk))

    qs = all_q(nk)
    others = list(mf.KNOWN_FREQ_SHIFTS)
    kept = []
    for niv, ql, other in ((2, qs, others[0]), (1, qs, others[1]), (1, qs[::-1][:2], others[2]), (2, qs[-1:], others[1]), (2, qs, None)):
        m = nt if other is None else other
        kw = {} if other is None else dict(freq_notation=other)
        win, ex = model_window(ctx, beta, wn, niv, m, a, b, cl), exact(ctx, beta, wn, b, cl)
        corr = [x - y for x, y in zip(ex, win)]
        got = bg.get_asymptotic_correction(niv, **kw)
        ctx.eq(bg.get_asympt_sum(niv, **kw), win, 'window part')
        ctx.eq(got, corr, 'correction')
        ctx.eq(bg.get_chi0(niv, do_asympt=True, **kw), [x + y for x, y in zip(bg.get_chi0(niv, **kw), corr)], 'corrected bubble')
        gq = bg.get_asymptotic_correction_q(niv, ql, **kw)
        wq = [[x - y for x, y in zip(exact(ctx, beta, wn, b, cq(q)), model_window(ctx, beta, wn, niv, m, a, b, cq(q)))] for q in ql]
        for i, w in enumerate(wq):
            ctx.eq(gq[i], w, 'correction at one momentum')
        core = bg.get_chi0_q_list(niv, ql, **kw)
        sh = bg.get_chi0q_shell(core, niv, 0, ql, **kw)
        for i, w in enumerate(wq):
            ctx.eq(sh[i], w, 'empty shell: the correction is left')
        kept.append((got, corr, gq, wq))
    for got, corr, gq, wq in kept:
        ctx.eq(got, corr, 'earlier result kept')
        for i, w in enumerate(wq):
            ctx.eq(gq[i], w, 'earlier result kept')


def cases(tier):
    th = tier != 'quick'
    out = []
    lists = [[0], [-1, 0, 1], [-2, -1, 0, 1, 2], [2], [-3, 5], [4, 0]]
    for nt in mf.KNOWN_FREQ_SHIFTS:
        for wn in lists + ([[-6, -1, 7], list(range(-4, 5))] if th else []):
            for niv in (1, 2) + ((3, 4) if th else ()):
                out.append((local, dict(nk=(2, 1, 1), wn=wn, niv=niv, nt=nt)))
                out.append((lattice, dict(nk=(2, 2, 1) if niv == 1 else (3, 1, 1), wn=wn, niv=niv, nt=nt)))
        out.append((sequence, dict(nk=(2, 1, 1), wn=[0, -1], nt=nt)))
        out.append((sequence, dict(nk=(1, 3, 1), wn=[3], nt=nt)))
        out.append((q_mean, dict(nk=(2, 2, 1), wn=[-1, 0, 1], niv=2, nt=nt)))
        out.append((q_mean, dict(nk=(3, 2, 1), wn=[0, 2], niv=1, nt=nt)))
        out.append((q_mean, dict(nk=(1, 2, 3), wn=[1, -2], niv=1, nt=nt)))
        out.append((lattice, dict(nk=(1, 2, 3), wn=[1, -2], niv=1, nt=nt)))
        out.append((shell, dict(nk=(2, 1, 1), niw=1, niv=1, nshell=1, nt=nt)))
        out.append((shell, dict(nk=(2, 2, 1), niw=1, niv=1, nshell=2, nt=nt)))
    return out
