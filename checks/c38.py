"""C38 real-frequency propagators and the conductivity bubble built from them"""
import numpy as np
from dga import two_point as twop, optics, brillouin_zone as bz, wannier
import contextlib
import io
from postproc import real_frequency_two_point as rtp
from common import replaced, kmean
from c23 import ham, velocity

EXPLANATION = ('symbolic self-energies, dispersions, chemical potentials, hopping amplitudes and temperature on listed frequency meshes; reference: Dyson '
               'equation, spectral sums with trapezoid weights, and the bubble with the propagator interpolated at the shifted frequency')
OUTSIDE = ('convergence of the search for the chemical potential; the spline used at zero frequency (its nodes are checked); meshes and momenta '
           'beyond the listed ones')

MESHES = {'odd': [-3, -2, -1, 0, 1, 2, 3], 'even': [-2.5, -1.5, -0.5, 0.5, 1.5, 2.5], 'bent': [-4, -2, -1, -0.5, 0, 0.5, 1, 2, 4],
          'shifted': [-3, -2, -1, 0, 1, 2, 3, 4, 5], 'fine': [-2, -1.5, -1, -0.5, 0, 0.5, 1, 1.5, 2], 'right': [-1, 0, 1, 3, 4]}


def mesh(ctx, name):
    return np.array([float(x) for x in MESHES[name]])


def fields(ctx, nk, nw, local=False):
    nk = tuple(nk)
    s = ctx.cplx('s', ((1, 1, 1) if local else nk) + (nw,))
    return s, ctx.real('ek', nk)


def trapz(y, w):
    return sum((y[i] + y[i + 1]) * (w[i + 1] - w[i]) / 2 for i in range(len(w) - 1))


def at(s, ix, local):
    return s[0, 0, 0] if local else s[ix]


def dyson(ctx, nk, name, local=False):
    w, nk = mesh(ctx, name), tuple(nk)
    s, ek = fields(ctx, nk, len(w), local)
    mu, de = ctx.real('mu'), ctx.pos('delta')
    asked, answer = [], ctx.real('n')
    with replaced((twop, 'get_filling_real_f', lambda *a: asked.append(a) or answer)):
        g = twop.RealFrequencyGF(w, s.copy(), ek.copy(), mu=mu, deltino=de)
    r = g.gwk()
    for ix in np.ndindex(*nk):
        for j in range(len(w)):
            ctx.eq(r[ix][j] * (w[j] + mu - ek[ix] - at(s, ix, local)[j] + 1j * de), 1, 'Dyson equation')
    ctx.eq(g.n, answer, 'filling of this propagator')
    ctx.true(len(asked) == 1, 'filling')
    ctx.eq(asked[0][0], w, 'filling on this mesh')
    ctx.eq(asked[0][1], r, 'filling of this propagator')
    ctx.eq(g.mu, mu, 'chemical potential')


def views(ctx, nk, name):
    w, nk = mesh(ctx, name), tuple(nk)
    g = twop.RealFrequencyGF(w, ctx.zeros(nk + (len(w),)), ctx.zeros(nk), mu=0, deltino=1.0)
    g._gwk = r = ctx.cplx('g', nk + (len(w),))
    ctx.eq(g.awk(), -r.imag / np.pi, 'spectral function')
    ctx.eq(g.gw, kmean(r), 'local propagator')
    ctx.eq(g.aw, -kmean(r).imag / np.pi, 'local spectral function')
    j0 = min(range(len(w)), key=lambda j: (abs(MESHES[name][j]), j))
    ctx.eq(g.fs(), -r[..., j0].imag / np.pi, 'Fermi surface is the spectral function at zero frequency')
    sh = g.gwk(pi_shift=True)
    fs, aw = g.fs(pi_shift=True), g.awk(pi_shift=True)
    for ix in np.ndindex(*nk):
        src = tuple((i - n // 2) % n for i, n in zip(ix, nk))
        if all(n % 2 == 0 or n == 1 for n in nk):
            ctx.eq(sh[ix], r[src], 'shift by pi')
        ctx.eq(aw[ix], -sh[ix].imag / np.pi, 'shifted spectral function')
        ctx.eq(fs[ix], -sh[ix][j0].imag / np.pi, 'shifted Fermi surface')
    neg = [j for j in range(len(w)) if MESHES[name][j] <= 0]
    loc = kmean(r)
    ctx.eq(twop.get_filling_real_f(w, r), 2 * trapz([-loc[j].imag / np.pi for j in neg], [w[j] for j in neg]), 'filling: occupied weight of both spins')


def filling(ctx, nk, name, local=False):
    """the chemical potential is the minimiser of the deviation from the requested filling"""
    w, nk = mesh(ctx, name), tuple(nk)
    s, ek = fields(ctx, nk, len(w), local)
    n, de, trial, found = ctx.pos('n'), ctx.pos('delta'), ctx.real('trial'), ctx.real('found')
    calls = []

    def minimize(f, x0=None, args=(), **kw):
        calls.append((f, x0, args))

        class R:
            x = found
        return R()

    class Opt:
        pass
    o = Opt()
    o.minimize = minimize
    with replaced((twop, 'opt', o)):
        g = twop.RealFrequencyGF(w, s.copy(), ek.copy(), n=n, deltino=de)
        free = g.get_gwk_tb(deltino=de)
    for obj, (f, x0, args), zero in ((g, calls[0], False), (free, calls[1], True)):
        r = obj.gwk()
        def inverse(m, ix, j):
            return w[j] + m - ek[ix] - (0 if zero else at(s, ix, local)[j]) + 1j * de
        for ix in np.ndindex(*nk):
            for j in range(len(w)):
                ctx.eq(r[ix][j] * inverse(found, ix, j), 1, 'propagator with the chemical potential found')
        neg = [j for j in range(len(w)) if MESHES[name][j] <= 0]
        free_g = ctx.cplx(f'trial{zero}', nk + (len(w),))
        seen = []
        with replaced((twop, 'get_gwk', lambda w, swk, ek, mu: seen.append((swk, ek, mu)) or free_g)):
            val = f(trial, *args)
        ctx.eq(seen[0][2], trial, 'trial chemical potential')
        ctx.eq(seen[0][1], ek, 'dispersion')
        ctx.eq(seen[0][0], (0 * s if zero else s) - 1j * de, 'self-energy')
        loc = kmean(free_g)
        fill = 2 * trapz([-loc[j].imag / np.pi for j in neg], [w[j] for j in neg])
        ctx.eq(val, (fill - n) ** 2, 'squared deviation from the filling')
        ctx.eq(obj.n, n, 'filling')
        ctx.eq(obj.mu, found, 'chemical potential')
    ctx.raises(ValueError, lambda: twop.RealFrequencyGF(w, s, ek), 'mu or n has to be given')


def script(ctx, nk, name):
    """the functions of the post-processing scripts: same propagator, filling and chemical potential"""
    w, nk = mesh(ctx, name), tuple(nk)
    s, ek = fields(ctx, nk, len(w))
    mu, n, found = ctx.real('mu'), ctx.pos('n'), ctx.real('found')
    g = rtp.get_giwk(mu, s, w, ek)
    for ix in np.ndindex(*nk):
        for j in range(len(w)):
            ctx.eq(g[ix][j] * (w[j] + mu - ek[ix] - s[ix][j]), 1, 'Dyson equation')
    free = ctx.cplx('g', nk + (len(w),))
    neg = [j for j in range(len(w)) if MESHES[name][j] <= 0]
    loc = kmean(free)
    occ = trapz([-loc[j].imag / np.pi for j in neg], [w[j] for j in neg])
    ctx.eq(rtp.get_filling(w, free), occ, 'occupied weight')
    seen, calls = [], []
    with replaced((rtp, 'get_giwk', lambda mu, s, w, ek: seen.append((mu, s, w, ek)) or free)), contextlib.redirect_stdout(io.StringIO()):
        val = rtp.opt_func(mu, n, s, w, ek)
    ctx.eq(val, (2 * occ - n) ** 2, 'squared deviation from the filling of both spins')
    for got, want in zip(seen[0], (mu, s, w, ek)):
        ctx.eq(got, want, 'trial propagator')

    class Opt:
        @staticmethod
        def minimize(f, x0=None, args=(), **kw):
            calls.append((f, x0, args))

            class R:
                x = found
            return R()
    with replaced((rtp, 'opt', Opt)):
        ctx.eq(rtp.adjust_mu(mu, n, s, w, ek), found, 'chemical potential')
    f, x0, args = calls[0]
    ctx.eq(x0, mu, 'start value')
    del seen[:]
    trial = ctx.real('trial')
    with replaced((rtp, 'get_giwk', lambda mu, s, w, ek: seen.append((mu, s, w, ek)) or free)), contextlib.redirect_stdout(io.StringIO()):
        ctx.eq(f(trial, *args), (2 * occ - n) ** 2, 'function minimised')
    for got, want in zip(seen[0], (trial, s, w, ek)):
        ctx.eq(got, want, 'trial propagator')


class Linear:
    """linear interpolation, refusing to extrapolate (as scipy does)"""
    log = []

    def __init__(self, x, y, kind='linear', axis=-1, **kw):
        self.x, self.y, self.kind = x, y, kind
        assert axis in (-1, np.ndim(y) - 1)
        Linear.log.append(self)

    def one(self, t):
        x = self.x
        for i in range(len(x)):
            if x[i] == t:
                return self.y[..., i]
        if t < x[0] or t > x[-1]:
            raise ValueError('outside of the interpolation range')
        i = max(j for j in range(len(x)) if x[j] < t)
        f = (t - x[i]) / (x[i + 1] - x[i])
        return self.y[..., i] * (1 - f) + self.y[..., i + 1] * f

    def __call__(self, t):
        return np.stack([self.one(a) for a in np.asarray(t).reshape(-1)], axis=-1)


def bubble(ctx, nk, name, wmax, nr=2, da=0, db=0):
    w, nk = mesh(ctx, name), tuple(nk)
    beta = ctx.pos('beta')
    gd = ctx.cplx('g', nk + (len(w),))
    hr, h, wt = ham(ctx, nr)
    la, lb = velocity(ctx, nk, h, wt, da), velocity(ctx, nk, h, wt, db)
    g = twop.RealFrequencyGF(w, ctx.zeros(nk + (len(w),)), ctx.zeros(nk), mu=0, deltino=1.0)
    g._gwk = gd
    kg = bz.KGrid(nk, [])
    with replaced((optics, 'interp1d', Linear)):
        chi, wb = optics.vec_get_chijj_bubble_realf(g, hr, kg, beta, wmax, da, db)
    m = MESHES[name]
    ib = min(range(len(m)), key=lambda j: (abs(m[j] - wmax), j))
    want = [j for j in range(ib) if m[j] > 0]
    edge = min(m[-1], -m[0]) - m[ib]
    inner = [j for j in range(len(m)) if abs(m[j]) <= edge]
    ctx.true(len(wb) == len(want) == len(chi), 'frequencies of the conductivity')
    ip = Linear(m, gd)
    for i, jb in enumerate(want):
        ctx.eq(wb[i], m[jb], 'positive frequencies below the limit')
        t = 0
        for ix in np.ndindex(*nk):
            y = []
            for j in inner:
                nf = 1 / (np.exp(beta * w[j]) + 1)
                y.append(nf * (-gd[ix][j].imag / np.pi) * (ip.one(m[j] + m[jb])[ix] + np.conj(ip.one(m[j] - m[jb])[ix])))
            t = t + la[ix] * lb[ix] * trapz(y, [w[j] for j in inner])
        ctx.eq(chi[i], -2 * t / int(np.prod(nk)), 'velocity-weighted spectral overlap')
    ctx.raises(AssertionError, lambda: optics.vec_get_chijj_bubble_realf(g, hr, kg, beta, m[-1] + 1, da, db), 'range beyond the mesh is refused')


def conductivity(ctx, n):
    """Im chi / w at positive frequencies, continued evenly to zero frequency"""
    w = np.array([float(i + 1) for i in range(n)])
    chi = ctx.cplx('c', (n,))
    zero = ctx.real('at zero')
    log = []

    class Spline:
        def __init__(self, x, y, kind='linear', **k):
            self.x, self.y, self.kind = x, y, kind
            log.append(self)

        def __call__(self, t):
            r = ctx.zeros((len(t),))
            for i, a in enumerate(t):
                hit = [j for j in range(len(self.x)) if self.x[j] == a]
                r[i] = self.y[hit[0]] if hit else zero
            return r
    with replaced((optics, 'interp1d', Spline)):
        s, wn = optics.get_sigma_from_chijj_realf(chi, w)
    ctx.true(len(s) == n + 1 and len(wn) == n + 1, 'zero frequency is added')
    ctx.eq(s[0], zero, 'value at zero from the interpolation')
    ctx.eq(wn[0], 0, 'zero frequency')
    for i in range(n):
        ctx.eq(wn[i + 1], i + 1, 'frequencies')
        ctx.eq(s[i + 1], chi[i].imag / (i + 1), 'Im chi / w')
    x, y = log[0].x, log[0].y
    ctx.true(len(x) == 2 * n, 'both signs')
    for i in range(2 * n):
        ctx.eq(x[i], -x[2 * n - 1 - i], 'symmetric nodes')
        ctx.eq(y[i], y[2 * n - 1 - i], 'the conductivity is even')


def combined(ctx, nk, name, wmax, da, db):
    w, nk = mesh(ctx, name), tuple(nk)
    beta = ctx.pos('beta')
    gd = ctx.cplx('g', nk + (len(w),))
    hr, h, wt = ham(ctx, 4)
    g = twop.RealFrequencyGF(w, ctx.zeros(nk + (len(w),)), ctx.zeros(nk), mu=0, deltino=1.0)
    g._gwk = gd
    kg = bz.KGrid(nk, [])

    class Any(Linear):
        def one(self, t):
            return 0 * self.y[..., 0] if self.kind == 'cubic' and t == 0 else Linear.one(self, t)
    with replaced((optics, 'interp1d', Any)):
        chi, wb = optics.vec_get_chijj_bubble_realf(g, hr, kg, beta, wmax, da, db)
        s, ws = optics.vec_get_sigma_bub_realf(g, hr, kg, beta, wmax, der_a=da, der_b=db)
    ctx.true(len(s) == len(chi) + 1, 'length')
    for i in range(len(chi)):
        ctx.eq(s[i + 1] * wb[i], chi[i].imag, 'conductivity of this bubble')
        ctx.eq(ws[i + 1], wb[i], 'frequencies')


def cases(tier):
    big = tier == 'thorough'
    out = []
    for nk in ((1, 1, 1), (2, 2, 1), (2, 1, 3)) + (((4, 2, 1), (2, 2, 2)) if big else ()):
        for name in ('odd', 'even', 'right'):
            for local in (False, True):
                out.append((dyson, dict(nk=nk, name=name, local=local)))
            out.append((views, dict(nk=nk, name=name)))
            out.append((script, dict(nk=nk, name=name)))
    for nk, name in (((1, 1, 1), 'odd'), ((2, 1, 1), 'right'), ((1, 1, 1), 'even')):
        for local in (False, True):
            out.append((filling, dict(nk=nk, name=name, local=local)))
    for name, wmax in (('odd', 2), ('odd', 1.9), ('even', 1.5), ('bent', 1), ('bent', 2), ('shifted', 2), ('fine', 1), ('fine', 1.4), ('right', 1)):
        out.append((bubble, dict(nk=(2, 2, 1), name=name, wmax=wmax)))
    for da, db in ((0, 1), (1, 0), (1, 1), (2, 2)):
        out.append((bubble, dict(nk=(2, 3, 2), name='odd', wmax=2, nr=8, da=da, db=db)))
        out.append((combined, dict(nk=(2, 2, 1), name='fine', wmax=1, da=da % 2, db=db % 2)))
    for nk, da, db in (((3, 3, 1), 0, 1), ((2, 2, 2), 1, 2), ((2, 2, 2), 2, 0)):
        out.append((bubble, dict(nk=nk, name='odd', wmax=2, nr=8 if nk[2] > 1 else 4, da=da, db=db)))
    for n in (1, 2, 4, 7):
        out.append((conductivity, dict(n=n)))
    return out
