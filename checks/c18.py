"""C18 filling, chemical potential and energies"""
import contextlib
import io
import numpy as np
from dga import two_point as twop, matsubara_frequencies as mf
from vsym.harness import HarnessError
from common import total

EXPLANATION = ('symbolic self-energies, dispersion, chemical potential and temperature; reference: frequency sums with the model '
               'propagator added back analytically through the Fermi function; the root finder is replaced by a probe that checks the '
               'function, start value and arguments it is given')
OUTSIDE = 'convergence of the root finder (scipy); more momenta and frequencies than listed'


def iv(ctx, beta, n):
    return 1j * (2 * n + 1) * ctx.pi / beta


def fermi(ctx, x):
    return 1 / (1 + np.exp(x))


def re(z):
    return (z + np.conj(z)) / 2


def fill_ref(ctx, beta, mu, ek, sig, s0, freqs):
    N = int(np.prod(ek.shape))
    h = total(ek) / N
    r = fermi(ctx, beta * (s0 + h - mu))
    for j, f in enumerate(freqs):
        g = 0
        for k in np.ndindex(*ek.shape):
            g = g + 1 / (f + mu - ek[k] - sig[k + (j,)])
        r = r + (re(g) / N - re(1 / (f + mu - h - s0))) / beta
    return 2 * r


def fill(ctx, nk, niv):
    beta, mu, s0 = ctx.pos('beta'), ctx.real('mu'), ctx.real('s0')
    ek = ctx.real('ek', nk)
    d = ctx.cplx('s', tuple(nk) + (niv,))
    sig = np.concatenate((np.conj(d[..., ::-1]), d), axis=-1)
    fr = [iv(ctx, beta, i) for i in range(-niv, niv)]
    ivn = 1j * mf.vn(beta, niv)
    h = total(ek) / int(np.prod(nk))
    ctx.assume(beta * (s0 + h - mu) < 20)
    n, rho = twop.get_fill(iv=ivn, hk=ek, siwk=sig, beta=beta, smom0=s0, hloc=h, mu=mu)
    want = fill_ref(ctx, beta, mu, ek, sig, s0, fr)
    ctx.eq(n, want, 'filling')
    ctx.eq(2 * rho, n, 'both spins')
    t = ctx.real('target')
    ctx.eq(twop.root_fun(mu=mu, target_filling=t, iv=ivn, hk=ek, siwk=sig, beta=beta, smom0=s0, hloc=h), want - t, 'root function')
    gl = ctx.cplx('gl', (3,))
    ctx.eq(twop.get_fill_primitive(gl, beta), 2 * (total(gl) / beta + 0.5), 'plain Matsubara sum')


def level(ctx, niv):
    """a single level at ek with a constant self-energy has the Fermi function as filling, for any number of frequencies"""
    beta, mu, s0, e = ctx.pos('beta'), ctx.real('mu'), ctx.real('s0'), ctx.real('e')
    ctx.assume(beta * (s0 + e - mu) < 20)
    s = twop.SelfEnergy(ctx.zeros((1, 1, 1, niv)) + s0, beta, pos=True, smom0=s0, smom1=0, niv_core=niv)
    g = twop.GreensFunction(s, ctx.zeros((1, 1, 1)) + e, mu=mu, niv_asympt=1)
    ctx.eq(g.n, 2 * fermi(ctx, beta * (s0 + e - mu)), 'Fermi function')


def deep(ctx, niv):
    """far above the chemical potential the level is empty up to the Boltzmann factor (no overflow)"""
    beta, mu, e = ctx.pos('beta'), ctx.real('mu'), ctx.real('e')
    ctx.assume(beta * (e - mu) >= 20)
    ivn = 1j * mf.vn(beta, niv)
    n, rho = twop.get_fill(iv=ivn, hk=ctx.zeros((1, 1, 1)) + e, siwk=ctx.zeros((1, 1, 1, 2 * niv)), beta=beta, smom0=0 * e, hloc=e, mu=mu)
    ctx.eq(n, 2 * np.exp(-beta * (e - mu)), 'Boltzmann tail')


def constructed(ctx, nk, niv, core, shell):
    """filling of the lattice propagator for a given chemical potential"""
    nk = tuple(nk)
    beta, mu, s0, s1 = ctx.pos('beta'), ctx.real('mu'), ctx.real('s0'), ctx.real('s1')
    ek = ctx.real('ek', nk)
    d = ctx.cplx('s', nk + (niv,))
    h = total(ek) / int(np.prod(nk))
    ctx.assume(beta * (s0 + h - mu) < 20)
    s = twop.SelfEnergy(d, beta, pos=True, smom0=s0, smom1=s1, niv_core=core)
    g = twop.GreensFunction(s, ek, mu=mu, niv_asympt=0, niv_shell_mu_find=shell)
    n = core + shell
    ctx.eq(g.n, fill_ref(ctx, beta, mu, ek, s.get_siw(n), s0, [iv(ctx, beta, i) for i in range(-n, n)]), 'filling')


class Probe:
    """stands for scipy.optimize: checks the problem handed to the root finder"""

    def __init__(self, check, result):
        self.check, self.result, self.calls = check, result, 0

    def newton(self, f, x0, tol=None, args=(), **kw):
        if kw:
            raise HarnessError('unknown use of the root finder')
        self.calls += 1
        self.check(f, x0, args)
        if isinstance(self.result, Exception):
            raise self.result
        return self.result

    def __getattr__(self, n):
        raise HarnessError('root finder ' + n + ' is not modelled')


def find_mu(ctx, nk, niv, core, fail):
    """for a given filling the chemical potential is the root of filling(mu) - n"""
    nk = tuple(nk)
    beta, s0, s1, t = ctx.pos('beta'), ctx.real('s0'), ctx.real('s1'), ctx.real('n')
    ek = ctx.real('ek', nk)
    d = ctx.cplx('s', nk + (niv,))
    mu, root = ctx.real('mu'), ctx.real('root')
    h = total(ek) / int(np.prod(nk))
    ctx.assume(beta * (s0 + h - mu) < 20)
    s = twop.SelfEnergy(d, beta, pos=True, smom0=s0, smom1=s1, niv_core=core)
    want = fill_ref(ctx, beta, mu, ek, s.get_siw(core), s0, [iv(ctx, beta, i) for i in range(-core, core)]) - t

    def check(f, x0, args):
        ctx.eq(f(mu, *args), want, 'function whose root is taken')
        ctx.eq(x0, 0 * mu, 'start value')
    p = Probe(check, RuntimeError('no convergence') if fail else root)
    old = twop.opt
    twop.opt = p
    try:
        g = twop.GreensFunction(s, ek, n=t, niv_asympt=1)
    finally:
        twop.opt = old
    if not p.calls:
        raise HarnessError('root finder not called')
    m = 0 * root if fail else root
    ctx.eq(g.mu, m, 'chemical potential')
    ctx.eq(g.n, t, 'requested filling')
    for i in range(-core, core):
        for k in np.ndindex(*nk):
            ctx.eq(g.core[k + (core + i,)] * (iv(ctx, beta, i) + m - ek[k] - s.sigma_core[k + (core + i,)]), 1,
                   'propagator at that chemical potential')


def primitive(ctx, nk, niv, verbose, fail=False):
    """the variant without model propagator: plain Matsubara sum plus one half per spin"""
    nk = tuple(nk)
    beta, t, mu0, root, mu = ctx.pos('beta'), ctx.real('n'), ctx.real('mu0'), ctx.real('root'), ctx.real('mu')
    ek = ctx.real('ek', nk)
    d = ctx.cplx('s', nk + (niv,))
    sig = np.concatenate((np.conj(d[..., ::-1]), d), axis=-1)
    fr = [iv(ctx, beta, i) for i in range(-niv, niv)]
    loc = 0
    for j, f in enumerate(fr):
        for k in np.ndindex(*nk):
            loc = loc + 1 / (f + mu - ek[k] - sig[k + (j,)])
    want = 2 * (loc / int(np.prod(nk)) / beta + 0.5) - t
    s0 = ctx.real('s0')
    h = total(ek) / int(np.prod(nk))
    for m in (mu, mu0):
        ctx.assume(beta * (s0 + h - m) < 20)

    def check(f, x0, args):
        ctx.eq(f(mu, *args), want, 'function whose root is taken')
        ctx.eq(x0, mu0, 'start value')
    p = Probe(check, RuntimeError('no convergence') if fail else root)
    old, twop.opt = twop.opt, p
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            r = twop.update_mu_primitive(mu0=mu0, target_filling=t, iv=1j * mf.vn(beta, niv), hk=ek, siwk=sig, beta=beta, smom0=s0, verbose=verbose)
    finally:
        twop.opt = old
    ctx.true(p.calls == 1, 'root finder called')
    ctx.eq(r, mu0 if fail else root, 'chemical potential')


def complex_mu(ctx, im):
    beta = ctx.pos('beta')
    ek = ctx.zeros((1, 1, 1))
    old = twop.opt
    twop.opt = Probe(lambda *a: None, 0.3 + im * 1j)
    try:
        f = lambda: twop.update_mu(mu0=0.0, target_filling=1.0, iv=1j * mf.vn(beta, 1), hk=ek, siwk=ctx.zeros((1, 1, 1, 2)), beta=beta)
        if im > 1e-8:
            ctx.raises(ValueError, f, 'complex chemical potential')
        else:
            ctx.eq(f(), 0.3, 'real part')
    finally:
        twop.opt = old


def energies(ctx, nk, niv, core, asy):
    nk = tuple(nk)
    beta, mu, s0, s1 = ctx.pos('beta'), ctx.real('mu'), ctx.real('s0'), ctx.real('s1')
    ek = ctx.real('ek', nk)
    d = ctx.cplx('s', nk + (niv,))
    h = total(ek) / int(np.prod(nk))
    ctx.assume(beta * (s0 + h - mu) < 20)
    s = twop.SelfEnergy(d, beta, pos=True, smom0=s0, smom1=s1, niv_core=core)
    g = twop.GreensFunction(s, ek, mu=mu, niv_asympt=asy)
    n = core + asy
    full, sg = g.g_full(), g.get_sigma_full(asy)
    N = int(np.prod(nk))
    kin = pot = 0
    for k in np.ndindex(*nk):
        for i in range(2 * n):
            kin = kin + ek[k] * full[k + (i,)]
            pot = pot + (sg[k + (i,)] - s0) * full[k + (i,)]
    ctx.eq(g.e_kin, kin / N / beta, 'kinetic energy')
    ctx.eq(g.e_pot, pot / N / beta + s0 * g.n / 2, 'potential energy: the static part enters through the density')


def cases(tier):
    th = tier != 'quick'
    out = []
    for nk in ((1, 1, 1), (2, 1, 1), (1, 2, 2)) + (((3, 2, 1),) if th else ()):
        for niv in (1, 2, 3):
            out.append((fill, dict(nk=nk, niv=niv)))
        for niv, core, sh in ((4, 2, 0), (4, 2, 1), (4, 1, 2)):
            out.append((constructed, dict(nk=nk, niv=niv, core=core, shell=sh)))
        for fail in (False, True):
            out.append((find_mu, dict(nk=nk, niv=4, core=2, fail=fail)))
        for niv, core, asy in ((4, 2, 1), (4, 1, 2)) if nk != (3, 2, 1) else ((4, 1, 1),):
            out.append((energies, dict(nk=nk, niv=niv, core=core, asy=asy), dict(lazy=0)))
    for niv in (4, 5, 6):
        out.append((level, dict(niv=niv)))
        out.append((deep, dict(niv=niv)))
    for nk, niv in (((1, 1, 1), 1), ((2, 1, 1), 1), ((1, 1, 1), 2)):
        for v in (False, True):
            out.append((primitive, dict(nk=nk, niv=niv, verbose=v)))
    out.append((primitive, dict(nk=(1, 1, 1), niv=1, verbose=False, fail=True)))
    for im in (0.0, 1e-9, 1e-3):
        out.append((complex_mu, dict(im=im)))
    return out
