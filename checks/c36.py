"""C36 frequency meshes, Kramers-Kronig transformation and extrapolation to the Fermi level"""
import math
from fractions import Fraction
import numpy as np
from dga import analytic_continuation as ac, matsubara_frequencies as mf, brillouin_zone as bz, dga_io
from ana_cont import continuation as cont, kernels
from common import Store, replaced, no_plots

EXPLANATION = ('symbolic mesh limits, spectra, frequencies and fit data; reference: principal-value and kernel sums written out with trapezoid '
               'weights, polynomials with symbolic coefficients')
OUTSIDE = 'floating-point rounding; tangents of the mesh formulas enter as their double-precision values; meshes of more points than listed'


def rational(f):
    """numbers in, the double-precision value of f out (as an exact rational); symbolic arguments with a numeric value only"""
    def g(x):
        if isinstance(x, np.ndarray):
            r = np.empty(x.shape, dtype=object)
            for ix in np.ndindex(*x.shape):
                r[ix] = one(x[ix])
            return r.view(type(x))
        return one(x)

    def one(x):
        from vsym.scalar import lift
        import vsym.poly as P
        s = lift(x)
        if not s.num:
            return s
        v = 0
        for m, c in s.num.items():
            if any(P.VARS[i].name != 'PI' for i, _ in m) or s.den:
                from vsym.scalar import Unsupported
                raise Unsupported('transcendental function of a symbol')
            v += float(c) * math.pi ** sum(e for _, e in m)
        return lift(Fraction(repr(f(v))))
    return g


def mesh(ctx, kind, n, cut=None, sym=False):
    w1 = ctx.pos('wmax', lo=3, hi=9)
    w0 = -w1 if sym else ctx.real('wmin', lo=-8, hi=2)
    if not sym:
        ctx.assume(w0 < w1)
    rep = [(np, 'tan', rational(math.tan)), (np, 'sqrt', rational(math.sqrt))] if ctx.sym and kind != 'linear' else []
    with replaced(*rep):
        w = ac.get_w_mesh(kind, w0, w1, n, cut)
    ctx.true(np.shape(w) == (n,), 'number of points')
    ctx.eq(w[0], w0, 'first point'), ctx.eq(w[n - 1], w1, 'last point')
    for i in range(n - 1):
        ctx.true(w[i] < w[i + 1], 'increasing')
    if kind == 'linear':
        for i in range(n):
            ctx.eq(w[i], w0 + (w1 - w0) * i / (n - 1), 'equidistant')
    if sym:
        for i in range(n):
            d = w[i] + w[n - 1 - i]
            ctx.true(d <= w1 * Fraction(1, 10 ** 9) if ctx.sym else abs(d) < 1e-9 * w1, 'symmetric around zero')
            ctx.true(d >= -w1 * Fraction(1, 10 ** 9) if ctx.sym else True, 'symmetric around zero')
        if kind in ('tan', 'hyperbolic', 'lorentzian') and n >= 5 and n % 2:
            m = n // 2
            if kind != 'hyperbolic':
                ctx.true(w[m + 1] - w[m] < w[n - 1] - w[n - 2], 'denser around zero')
            else:
                ctx.true(w[m + 1] - w[m] < w[n - 1] - w[n - 2], 'denser around zero')


def mesh_refused(ctx):
    ctx.raises(ValueError, lambda: ac.get_w_mesh('nonsense', -1., 1., 5), 'unknown mesh')
    ctx.raises(AssertionError, lambda: ac.get_w_mesh('lorentzian', -1., 1., 5), 'cut missing')


def weights(w):
    n = len(w)
    return [((w[i + 1] if i + 1 < n else w[i]) - (w[i - 1] if i else w[i])) / 2 for i in range(n)]


def grid(ctx, n, first=None):
    """increasing mesh with symbolic spacings"""
    d = ctx.pos('d', (n,))
    w = [first if first is not None else ctx.real('w0')]
    for i in range(1, n):
        w.append(w[-1] + d[i])
    return ctx.arr(w, dtype=float)


def kk(ctx, n, kind, zero=False):
    w = grid(ctx, n, 0 if zero else (ctx.pos('w0') if kind in ('symmetric', 'antisymmetric', 'fermionic_phsym', 'bosonic') else None))
    a = ctx.real('a', (n,))
    for f in (ac.kkt, lambda s, x, k: cont.GreensFunction(spectrum=s, wgrid=x, kind=k).kkt()):
        g = f(a.copy(), w.copy(), kind)
        dw = weights(w)
        for j in range(n):
            t = 0
            for i in range(n):
                if i == j:
                    continue
                # A(-w) = +-A(w): both half axes of the principal value integral of A(w')/(w - w')
                if kind in ('fermionic', 'general'):
                    t = t + dw[i] * a[i] / (w[j] - w[i])
                elif kind in ('symmetric', 'fermionic_phsym'):
                    t = t + dw[i] * a[i] * 2 * w[i] / (w[j] ** 2 - w[i] ** 2)
                else:
                    t = t + dw[i] * a[i] * (1 / (w[j] - w[i]) + 1 / (w[j] + w[i]))
            ctx.eq(g[j], t - 1j * np.pi * a[j], 'real part from the principal value sum')


def kk_refused(ctx):
    ctx.raises(ValueError, lambda: ac.kkt(np.ones(3), np.arange(3.), 'nonsense'), 'unknown kind')


def to_imag(ctx, n, niv, kind, zero=False):
    """Matsubara function of a real-frequency function = integral of its spectral function with the kernel"""
    w = grid(ctx, n, 0 if zero else (None if kind == 'freq_fermionic' else ctx.pos('w0')))
    a, re = ctx.real('a', (n,)), ctx.real('re', (n,))
    beta = ctx.pos('beta')
    v = mf.vn(beta, niv) if kind == 'freq_fermionic' else mf.wn(beta, niv)
    r = ac.transform_from_real_to_imag(re - 1j * np.pi * a, w, v, kind)
    dw = weights(w)
    for j in range(len(v)):
        t = 0
        for i in range(n):
            if kind == 'freq_fermionic':
                k = 1 / (1j * v[j] - w[i])
            else:
                k = 1 if j == niv else w[i] * w[i] / (w[i] * w[i] + v[j] * v[j])
            t = t + dw[i] * a[i] * k
        ctx.eq(r[j], t, 'spectral representation')
    kern = ac.get_backtransform_kernel(w, v, kind)
    ctx.eq(kernels.Kernel(kind=kind, re_axis=w, im_axis=v).original_matrix, kern, 'kernel of the continuation')


def round_trip(ctx, n, niv):
    """Kramers-Kronig leaves the spectrum alone: back on the imaginary axis it is the spectral integral"""
    w, a, beta = grid(ctx, n), ctx.real('a', (n,)), ctx.pos('beta')
    v = mf.vn(beta, niv)
    r = ac.transform_from_real_to_imag(ac.kkt(a, w, 'general'), w, v, 'freq_fermionic')
    dw = weights(w)
    for j in range(2 * niv):
        ctx.eq(r[j], sum(dw[i] * a[i] / (1j * v[j] - w[i]) for i in range(n)), 'spectral representation')
        ctx.eq(np.conj(r[j]), r[2 * niv - 1 - j], 'complex conjugate at the mirrored frequency')


def kernel_refused(ctx):
    ctx.raises(NotImplementedError, lambda: ac.get_backtransform_kernel(np.ones(2), np.ones(2), 'nonsense'), 'unknown kernel')


def polyfit(x, y, deg):
    """least squares polynomial, highest power first"""
    from vsym.scalar import lift
    xs = [lift(t) for t in x]
    a = np.array([[t ** (deg - j) for j in range(deg + 1)] for t in xs], dtype=object)
    at = a.T
    g = np.linalg.inv(at.dot(a))
    return np.asarray(g).dot(at.dot(np.array([lift(t) for t in y], dtype=object))).view(type(x) if isinstance(x, np.ndarray) else np.ndarray)


def fit(ctx, order, n_fit, extra):
    """polynomial data are continued exactly; data beyond the fit range do not matter"""
    beta = np.pi
    n = n_fit + extra
    v = mf.vn(beta, n, pos=True)
    re = ctx.real('re', (order + 1,))
    im = ctx.real('im', (order + 1,))
    jr, ji = ctx.real('jr', (n,)), ctx.real('ji', (n,))
    s = ctx.zeros((n,))
    p = ctx.zeros((n,))
    for i in range(n):
        x = 2 * i + 1
        s[i] = sum(re[j] * x ** j for j in range(order + 1)) + 1j * sum(im[j] * x ** j for j in range(order + 1))
        p[i] = sum(re[j] * x ** j for j in range(order + 1)) + 1j * sum(im[j] * x ** (j + 1) for j in range(order + 1))
        if i >= n_fit:
            s[i] = p[i] = jr[i] + 1j * ji[i]
    with replaced(*([(np, 'polyfit', polyfit)] if ctx.sym else [])):
        gam, shift, z = ac.get_gamma_bandshift_z(v, s, order, n_fit)
        gam2, shift2, z2 = ac.get_gamma_bandshift_z(v, p, order, n_fit)
        b3, g3, z3 = ac.extract_coefficient_imaxis(siwk=p, iw=v, n_fit=n_fit, order=order)
        d = ac.poly_der_extrap_0(v, s.real, order, n_fit)
    ctx.eq(gam, -im[0], 'scattering rate'), ctx.eq(shift, re[0], 'band shift'), ctx.eq(shift2, re[0], 'band shift')
    ctx.eq(b3, shift2, 'same result'), ctx.eq(g3, gam2, 'same result'), ctx.eq(z3, z2, 'same result')
    if order:
        ctx.eq(d, re[1], 'derivative at zero')
    b = im[0]                                  # slope of Im Sigma at zero
    ctx.true(z2 > 0, 'weight is positive'), ctx.true(z2 <= 1, 'weight is at most one')
    if b < 0:
        ctx.eq(z2, 1 / (1 - b), 'quasiparticle weight')
    else:
        ctx.eq(z2, 1, 'unphysical slopes give one')


def lattice_fit(ctx, nk, sym, order, n_fit):
    """extrapolation on the irreducible wedge, unfolded to the full zone"""
    kg = bz.KGrid(nk, sym)
    niv = n_fit
    raw = ctx.real('s', tuple(nk) + (niv,)) - 1j * (ctx.pos('t', tuple(nk) + (niv,)) if order == 0 else
                                                    np.arange(1, int(np.prod(nk)) * niv + 1).reshape(tuple(nk) + (niv,)) ** 2)
    s = ctx.zeros(tuple(nk) + (2 * niv,))
    irr = kg.irrk_inv.reshape(nk)
    flat = raw.reshape(-1, niv)
    for ix in np.ndindex(*nk):
        s[ix][niv:] = flat[int(kg.irrk_ind[int(irr[ix])])]
    s[..., :niv] = ctx.cplx('neg', (niv,))[None, None, None]
    saved = Store()
    with no_plots(), replaced((np, 'save', lambda f, d, **k: saved.setdefault(f, d)), *([(np, 'polyfit', polyfit)] if ctx.sym else [])):
        dga_io.poly_fit(s, np.pi, kg, n_fit, order, name='n', output_path='/nonexistent/')
    ctx.true(list(saved) == ['/nonexistent/n.npy'], 'file')
    r = saved['/nonexistent/n.npy']
    # two points: the straight line through (1, y1), (3, y2)
    for ix in np.ndindex(*nk):
        y = s[ix][niv:]
        if order == 1 and n_fit == 2:
            e = lambda a: (3 * a[0] - a[1]) / 2
        else:
            e = lambda a: sum(a) / n_fit
        ctx.eq(r['re_fs'][ix], e([t.real for t in y]), 'real part at the Fermi level')
        ctx.eq(r['im_fs'][ix], -e([t.imag for t in y]), 'scattering rate')


def peaks(ctx, n):
    w, m, x = ctx.real('w', (n,)), ctx.real('m'), ctx.pos('x')
    l = ac.lorentzian_peak(m, x, w)
    for i in range(n):
        ctx.eq(l[i] * np.pi * ((w[i] - m) ** 2 + x ** 2), x, 'Lorentzian of weight one')


def filling(ctx, ws, n_extra=0):
    """twice the spectral weight below zero"""
    w = np.array(ws)
    a, re = ctx.real('a', (len(ws),)), ctx.real('re', (len(ws),))
    r = ac.check_filling(v_real=w, gloc_cont=re - 1j * np.pi * a)
    neg = [i for i, x in enumerate(ws) if x < 0]
    t = 0
    for i, j in zip(neg, neg[1:]):
        t = t + (a[i] + a[j]) * Fraction(ws[j] - ws[i]) if ctx.sym else t + (a[i] + a[j]) * (ws[j] - ws[i])
    ctx.eq(r, t, 'occupation')


def cases(tier):
    th = tier != 'quick'
    out = [(mesh_refused, {}), (kk_refused, {}), (kernel_refused, {})]
    for kind in ('linear', 'tan', 'hyperbolic', 'lorentzian'):
        for n in (3, 5, 6, 9) + ((21, 50) if th else ()):
            for sym in (False, True):
                out.append((mesh, dict(kind=kind, n=n, sym=sym, cut=0.04)))
    for kind in ('fermionic', 'general', 'symmetric', 'fermionic_phsym', 'antisymmetric', 'bosonic'):
        for n in (2, 3, 4) + ((6,) if th else ()):
            out.append((kk, dict(n=n, kind=kind)))
            if n > 2 and kind in ('symmetric', 'antisymmetric'):
                out.append((kk, dict(n=n, kind=kind, zero=True)))
    for kind in ('freq_fermionic', 'freq_bosonic'):
        for n, niv in ((2, 1), (3, 1), (3, 2), (4, 2)):
            out.append((to_imag, dict(n=n, niv=niv, kind=kind)))
            out.append((to_imag, dict(n=n, niv=niv, kind=kind, zero=True)))
    for n, niv in ((2, 1), (3, 2), (4, 1)):
        out.append((round_trip, dict(n=n, niv=niv)))
    for order, n_fit in ((0, 1), (1, 2), (1, 4), (2, 3), (2, 5), (3, 4), (3, 5)) + (((4, 6), (3, 8)) if th else ()):
        for extra in (0, 2):
            out.append((fit, dict(order=order, n_fit=n_fit, extra=extra)))
    sq = bz.two_dimensional_square_symmetries()
    for nk, sym in (((2, 2, 1), ()), ((4, 4, 1), sq), ((4, 2, 1), ('x-inv', 'y-inv')), ((2, 2, 2), bz.simultaneous_x_y_inversion() if hasattr(bz, 'simultaneous_x_y_inversion') else ())):
        out.append((lattice_fit, dict(nk=nk, sym=sym, order=1, n_fit=2)))
    out.append((lattice_fit, dict(nk=(4, 4, 1), sym=sq, order=0, n_fit=3)))
    out.append((peaks, dict(n=3)))
    out.append((filling, dict(ws=[-2.0, -1.5, -0.5, -0.25, 0.5, 1.0])))
    out.append((filling, dict(ws=[-1.0, -0.5, 0.0, 0.5])))
    return out
