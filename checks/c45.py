"""C45 figures: which value is drawn at which momentum and frequency, under which name"""
import math
import types
import numpy as np
from dga import plotting, optics, brillouin_zone as bz, local_four_point as lfp, high_level_plotting as hlp, dga_io, two_point as twop
from vsym.arr import SymArray
import c20
import c25
import c26
from common import replaced, make_giwk, make_cfg, ur, NoOp as Silent
from c38 import trapz

EXPLANATION = ('symbolic data; the drawing library is replaced by a recorder of panels, lines and images, so that every value drawn is known together with the '
               'position on the axes it is drawn at and the file it is stored in; reference: the data at that momentum and frequency')
OUTSIDE = 'colours, limits and layout; how the library draws; figures of the post-processing scripts; contour search of the Fermi surface'


class NoOp(Silent):
    def __getitem__(self, i):
        return self

    def __iter__(self):
        return iter(())


class Axis:
    """one panel"""

    def __init__(self, fig):
        self.fig, self.lines, self.images, self.points, self.title, self.ticks = fig, [], [], [], '', None

    def plot(self, x, y, *a, **k):
        x, y = np.asarray(x), np.asarray(y)
        if np.shape(x) != np.shape(y):
            raise ValueError('x and y must have same first dimension')
        self.lines.append((x, y, k.get('label')))
        return [NoOp()]

    loglog = semilogx = semilogy = plot

    def pcolormesh(self, x, y, c, *a, **k):
        x, y = np.asarray(x), np.asarray(y)
        if np.shape(c) != (len(y), len(x)):
            raise TypeError(f'dimensions of C {np.shape(c)} are incompatible with X and/or Y')
        self.images.append((x, y, c))
        return NoOp()

    def imshow(self, c, *a, extent=None, origin='upper', **k):
        n, m = np.shape(c)[:2]
        x, y = np.linspace(extent[0], extent[1], m), np.linspace(extent[2], extent[3], n)
        if len(np.shape(c)) == 2:
            self.images.append((x, y if origin == 'lower' else y[::-1], c))
        return NoOp()

    def scatter(self, x, y, *a, **k):
        self.points.append((x, y))
        return NoOp()

    def set_title(self, t, *a, **k):
        self.title = t

    def set_xticks(self, t, labels=None, **k):
        self.ticks = (t, labels)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return NoOp()


class Fig:
    def __init__(self):
        self.axes = []

    def add_subplot(self, *a, **k):
        self.axes.append(Axis(self))
        return self.axes[-1]

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return NoOp()


class Plt:
    """records every figure stored"""

    def __init__(self):
        self.open, self.files = [], {}

    def figure(self, *a, **k):
        self.open.append(Fig())
        return self.open[-1]

    def subplots(self, nrows=1, ncols=1, **k):
        f = self.figure()
        a = np.empty((nrows, ncols), dtype=object)
        for i in np.ndindex(nrows, ncols):
            a[i] = f.add_subplot()
        return f, a[0, 0] if nrows == ncols == 1 else a[0] if nrows == 1 else a[:, 0] if ncols == 1 else a

    def gca(self):
        if not self.open:
            self.figure()
        f = self.open[-1]
        return f.axes[-1] if f.axes else f.add_subplot()

    def plot(self, *a, **k):
        return self.gca().plot(*a, **k)

    loglog = plot

    def xticks(self, t, labels=None, **k):
        self.gca().set_xticks(t, labels)

    def savefig(self, name, *a, **k):
        assert name not in self.files or self.files[name] is self.open[-1], 'figure overwritten'
        self.files[name] = self.open[-1]

    def close(self, *a):
        if self.open:
            self.open.pop()

    class cm:
        @staticmethod
        def get_cmap(*a, **k):
            return lambda x: np.zeros((np.size(x), 4))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return NoOp()


def drawn(ctx, f, *a, **k):
    """the figures stored while f runs, by file name; smallest and largest values (limits of axes and colours) are free unknowns in the symbolic run"""
    p = Plt()
    free = iter(range(10 ** 6))

    def extremum(self, axis=None, *a, **k):
        if axis is not None or not np.size(self):
            return np.ndarray.min(self, axis=axis, **k)
        return ctx.real(f'limit{next(free)}')

    no = NoOp()
    mods = (plotting, optics, bz, lfp, hlp)
    saved = [(m, n, m.__dict__[n], v) for m in mods for n, v in (('plt', p), ('Polygon', lambda *a, **k: no), ('make_axes_locatable', lambda *a: no),
                                                               ('MidpointNormalize', lambda *a, **k: no)) if n in m.__dict__]
    for m, n, _, v in saved:
        setattr(m, n, v)
    SymArray.min = SymArray.max = extremum
    try:
        f(*a, **k)
    finally:
        del SymArray.min, SymArray.max
        for m, n, o, _ in saved:
            setattr(m, n, o)
    return {k.replace('//', '/'): v for k, v in p.files.items()}, p


def image(ctx, ax, what, want, atol=1e-9):
    """want: {(x, y): value}; the only image of the panel has exactly these pixels"""
    ctx.true(len(ax.images) == 1, what + ': one image')
    x, y, c = ax.images[0]
    left = dict(want)
    for i in range(len(y)):
        for j in range(len(x)):
            key = [k for k in left if abs(k[0] - float(x[j])) < atol and abs(k[1] - float(y[i])) < atol]
            ctx.true(len(key) == 1, what + ': every pixel belongs to one point')
            ctx.eq(c[i, j], left.pop(key[0]), what)
    ctx.true(not left, what + ': every point is drawn')


def line(ctx, l, x, y, what):
    ctx.true(len(l[0]) == len(l[1]) == len(x), what + ': points')
    for i in range(len(x)):
        ctx.eq(l[0][i], x[i], what + ': abscissa')
        ctx.eq(l[1][i], y[i], what)


def ordered(ctx, name, shape):
    """values in increasing order (which one is the largest decides the colour scale only)"""
    out, last = np.empty(shape, dtype=object), ctx.real(name)
    for n, i in enumerate(np.ndindex(*shape)):
        out[i] = last
        last = last + ctx.pos(f'{name}{n}')
    return ctx.arr(out.tolist(), dtype=float)


def k_of(nk, shift=False):
    """momentum of every mesh point, between 0 and 2 pi or between -pi and pi"""
    out = {}
    for i in range(nk[0]):
        for j in range(nk[1]):
            out[i, j] = tuple(2 * math.pi * ((a - n if shift and 2 * a >= n else a) / n) for a, n in zip((i, j), nk))
    return out


def momentum(ctx, nk, which, scatter=False):
    g = bz.KGrid(tuple(nk), [])
    ks = k_of(nk)
    if which == 'kxky':
        m = ctx.cplx('m', nk[:2])
        pts = np.array([[0.1, 0.2], [0.3, 0.4]]) if scatter else None
        files, p = drawn(ctx, plotting.plot_kx_ky, m, g.kx, g.ky, pdir='dir', name='quantity', scatter=pts)
        ctx.true(set(files) == {'dir/quantity.png'} and not p.open, 'stored once, closed')
        panels = files['dir/quantity.png'].axes
        for ax, part, sign in zip(panels, (lambda z: z.real, lambda z: z.imag), ('Re', 'Im')):
            image(ctx, ax, sign, {k: part(m[i]) for i, k in ks.items()})
            ctx.true(sign in ax.title, 'title')
            ctx.true((len(ax.points) == 1 and bool(np.all(ax.points[0][0] == pts[:, 0])) and bool(np.all(ax.points[0][1] == pts[:, 1]))) if scatter
                     else not ax.points, 'marked points')
    else:
        m = ctx.cplx('m', tuple(nk[:2]) + (2,))
        files, p = drawn(ctx, plotting.plot_gap_function_kx_ky, m, g.kx, g.ky, pdir='dir', name='sing_0')
        ctx.true(set(files) == {'dir/GapFunction_sing_0.png'} and not p.open, 'stored once, closed')
        panels = files['dir/GapFunction_sing_0.png'].axes
        # the gap is handed over at the last negative and the first positive frequency
        for ax, i, n in zip(panels, (0, 1), (-1, 0)):
            image(ctx, ax, f'gap at n={n}', {k: m[j][i].real for j, k in ks.items()})
            ctx.true(f'n={n}' in ax.title.replace(' ', ''), 'title names the frequency')


def fermi(ctx, nk, shift, w, w_plot, w_int=None):
    """real-frequency data on the mesh at one frequency or averaged below the Fermi level"""
    g = bz.KGrid(tuple(nk), [])
    nw = len(w)
    full = ctx.cplx('d', tuple(nk) + (nw,))
    i_pl = min(range(nw), key=lambda j: (abs(w[j] - w_plot), j))
    i_0 = min(range(nw), key=lambda j: (abs(w[j]), j))
    f = plotting.plot_cont_fs if shift else plotting.plot_cont_fs_no_shift
    files, p = drawn(ctx, f, output_path='dir/', name='quantity', mat=full, v_real=np.array(w), k_grid=g, w_plot=w_plot, w_int=w_int)
    name = f'dir/quantity_at_w{w_plot}.png'
    ctx.true(set(files) == {name} and not p.open, 'stored once, closed')
    a, b, c = files[name].axes[:3]
    ks = k_of(nk, shift)
    if w_int is None:
        fs = {i: full[i + (0,)][i_pl] for i in ks}
    else:
        sel = [j for j in range(nw) if w_int < w[j] < 0]
        fs = {i: trapz([full[i + (0,)][j] for j in sel], [w[j] for j in sel]) / abs(w_int) for i in ks}
    image(ctx, a, 'spectral function', {k: -fs[i].imag / np.pi for i, k in ks.items()})
    image(ctx, b, 'real part', {k: fs[i].real for i, k in ks.items()})
    image(ctx, c, 'inverse at the Fermi level', {k: (1 / full[i + (0,)][i_0]).real for i, k in ks.items()})


def poly(ctx, nk):
    g = bz.KGrid(tuple(nk), [])
    d = [ordered(ctx, n, tuple(nk[:2]) + (1,)) for n in ('re', 'im', 'z')]
    files, p = drawn(ctx, plotting.plot_siwk_extrap, siwk_re_fs=d[0], siwk_im_fs=d[1], siwk_z=d[2], output_path='dir/', name='fit', k_grid=g)
    ctx.true(set(files) == {'dir/fit.png'} and not p.open, 'stored once, closed')
    ks = k_of(nk, True)
    for ax, m, t in zip(files['dir/fit.png'].axes, d, ('Re', 'Im', 'Z')):
        image(ctx, ax, t, {k: m[i][0] for i, k in ks.items()})
        ctx.true(t in ax.title, 'title')


def fourpoint(ctx, niw, niv, iwn, cut, wn=None):
    w = list(range(-niw, niw + 1)) if wn is None else list(wn)
    m = ctx.cplx('m', (len(w), 2 * niv, 2 * niv))
    o = lfp.LocalFourPoint('dens', m, 1.0, 1.0, **(dict(is_full_w=True) if wn is None else dict(wn=np.array(w))))
    files, p = drawn(ctx, o.plot, iwn, pdir='dir', name='G', niv=cut)
    name = f'dir/G_wn{iwn}_niv{cut}.png'
    ctx.true(set(files) == {name} and not p.open, 'stored once, closed')
    n = niv if cut < 0 else cut
    for ax, part in zip(files[name].axes, (lambda z: z.real, lambda z: z.imag)):
        image(ctx, ax, 'vertex', {(b, a): part(m[w.index(iwn)][a + niv][b + niv]) for a in range(-n, n) for b in range(-n, n)})
    ctx.raises(AssertionError, lambda: o.plot(max(w) + 1, pdir='dir', name='G'), 'frequency outside of the data is refused')


def defaults(ctx, which):
    """the default figures of the two-particle objects"""
    niw, niv = 10, 1
    om = {c: lfp.LocalFourPoint(c, ctx.cplx(c, (2 * niw + 1, 2 * niv, 2 * niv)), 1.0, 1.0, is_full_w=True) for c in ('dens', 'magn')}
    beta = 3.7 if which == 'gamma' else None
    if which == 'g2':
        files, p = drawn(ctx, plotting.default_g2_plots, om['dens'], om['magn'], 'dir')
        want = {('dens', 0), ('magn', 0), ('magn', 10), ('magn', -10)}
        n = -1
    elif which == 'gchi':
        files, p = drawn(ctx, plotting.default_gchi_plots, om['dens'], om['magn'], 'dir')
        want = {('dens', 0), ('magn', 0)}
        n = -1
    else:
        files, p = drawn(ctx, plotting.default_gamma_plots, om['dens'], om['magn'], 'dir', types.SimpleNamespace(niv_core=niv), beta)
        want = {('dens', 0), ('magn', 0), ('magn', 10), ('magn', -10), ('dens', 10)}
        n = niv
    name = dict(g2='G2', gchi='Gchi', gamma='Gamma')[which]
    ctx.true(set(files) == {f'dir/{name}_{c}_wn{w}_niv{n}.png' for c, w in want}, 'figures')
    for c, w in want:
        fig = files[f'dir/{name}_{c}_wn{w}_niv{n}.png']
        for ax, part in zip(fig.axes, (lambda z: z.real, lambda z: z.imag)):
            image(ctx, ax, f'{c} at {w}', {(b, a): part(om[c].mat[w + niw][a + niv][b + niv]) for a in range(-niv, niv) for b in range(-niv, niv)})


def chi(ctx, sizes):
    """susceptibilities of possibly different ranges on their own frequencies"""
    d = [ctx.cplx(f'd{i}', (2 * n + 1,)) for i, n in enumerate(sizes)]
    m = [ctx.cplx(f'm{i}', (2 * n + 1,)) for i, n in enumerate(sizes)]
    e, beta = ctx.real('ekin'), ctx.pos('beta')
    green = types.SimpleNamespace(beta=beta, e_kin=e)
    labels = [f'label{i}' for i in range(len(sizes))]
    files, p = drawn(ctx, plotting.chi_checks, d, m, labels, green, 'dir', name='x')
    ctx.true(set(files) == {'dir/chi_dens_magn_x.png'} and not p.open, 'stored once, closed')
    axes = files['dir/chi_dens_magn_x.png'].axes
    ctx.true(len(axes) == 4, 'panels')
    for ax, data in zip(axes, (d, m, d, m)):
        ctx.true(len(ax.lines) >= len(sizes), 'one line per susceptibility')
        for l, x, n, lab in zip(ax.lines, data, sizes, labels):
            line(ctx, l, range(-n, n + 1), [z.real for z in x], 'susceptibility')
            ctx.true(l[2] == lab, 'label')


def local_sigma(ctx, sizes, which):
    d = [ctx.cplx(f'd{i}', (2 * n,)) for i, n in enumerate(sizes)]
    labels = [f'label{i}' for i in range(len(sizes))]
    files, p = drawn(ctx, plotting.sigma_loc_checks, d, labels, 2.0, 'dir', name='x', **({} if which else dict(xmax=3)))
    ctx.true(set(files) == {'dir/sde_x_check.png'} and not p.open, 'stored once, closed')
    axes = files['dir/sde_x_check.png'].axes
    parts = (lambda z: z.real, lambda z: z.imag, lambda z: z.real, lambda z: abs(z.imag))
    for ax, part in zip(axes, parts):
        ctx.true(len(ax.lines) == len(sizes), 'one line per self-energy')
        for l, x, n, lab in zip(ax.lines, d, sizes, labels):
            line(ctx, l, range(-n, n), [part(z) for z in x], 'self-energy')
            ctx.true(l[2] == lab, 'label')


def difference(ctx, n, k):
    pairs = [[ctx.cplx(f'a{i}', (2 * n + 1,)), ctx.cplx(f'b{i}', (2 * n + 1,))] for i in range(k)]
    labels = [[f'a{i}', f'b{i}'] for i in range(k)]
    files, p = drawn(ctx, plotting.local_diff_checks, pairs, labels, 'dir', name='chi')
    ctx.true(set(files) == {'dir/chi_diff_check.png'} and not p.open, 'stored once, closed')
    x = range(-n, n + 1)
    a = files['dir/chi_diff_check.png'].axes
    for i in range(k):
        for ax in a[:2]:
            for s in (0, 1):
                line(ctx, ax.lines[2 * i + s], x, [z.real for z in pairs[i][s]], 'susceptibility')
                ctx.true(ax.lines[2 * i + s][2] == labels[i][s], 'label')
        line(ctx, a[2].lines[i], x, [abs(p.real - q.real) for p, q in zip(*pairs[i])], 'difference')


def along(ctx, nk, niv, lo, hi, step, ikz):
    m = ctx.cplx('m', tuple(nk) + (2 * niv,))
    ind = [(0, 1), (1, 0), (1, 1), (nk[0] - 1, nk[1] - 1)]
    files, p = drawn(ctx, plotting.plot_along_ind, m, np.array(ind), step_size=step, pdir='dir', niv_plot_min=lo, niv_plot=hi, name='S', ikz=ikz)
    ctx.true(set(files) == {'dir/S_along_Fermi_surface.png'} and not p.open, 'stored once, closed')
    hi = niv if hi == -1 else hi
    x = [n for n in range(-niv, niv) if lo <= n <= hi]
    for ax, part in zip(files['dir/S_along_Fermi_surface.png'].axes, (lambda z: z.real, lambda z: z.imag)):
        ctx.true(len(ax.lines) == len(ind[::step]), 'one line per point')
        for l, i in zip(ax.lines, ind[::step]):
            line(ctx, l, x, [part(m[i + (ikz,)][n + niv]) for n in x], 'self-energy at the point')


def ornstein(ctx, nk):
    """cuts of susceptibility and fit through the antiferromagnetic point and along the diagonal"""
    g = bz.KGrid(tuple(nk), [])
    c, fit = ctx.cplx('c', tuple(nk)), ctx.real('f', (int(np.prod(nk)),))
    seen = []
    with replaced((plotting.ozfunc, 'oz_spin_w0', lambda grid, a, xi: seen.append((grid, a, xi)) or fit)):
        files, p = drawn(ctx, plotting.plot_oz_fit, chi_w0=c, oz_coeff=[2.0, 3.0], qgrid=g, pdir='dir/', name='oz')
    ctx.true(set(files) == {'dir/oz.png'} and not p.open, 'stored once, closed')
    ctx.true(len(seen) == 1 and seen[0][0] is g and seen[0][1:] == (2.0, 3.0), 'fit evaluated with its own coefficients')
    o = fit.reshape(tuple(nk))
    a, b, d = files['dir/oz.png'].axes
    hx, hy = nk[0] // 2, nk[1] // 2
    line(ctx, a.lines[0], g.kx, [c[i, hy, 0].real for i in range(nk[0])], 'susceptibility at q_y = pi')
    line(ctx, a.lines[1], g.kx, [o[i, hy, 0] for i in range(nk[0])], 'fit at q_y = pi')
    line(ctx, b.lines[0], g.ky, [c[hx, i, 0].real for i in range(nk[1])], 'susceptibility at q_x = pi')
    line(ctx, b.lines[1], g.ky, [o[hx, i, 0] for i in range(nk[1])], 'fit at q_x = pi')
    if nk[0] == nk[1]:
        pts = [(i, i, k) for i in range(nk[0]) for k in range(nk[2])]
        for l, y in zip(d.lines, (c, o)):
            ctx.true(len(l[1]) == len(pts), 'points on the diagonal')
            for v, i in zip(l[1], pts):
                ctx.eq(v, y[i].real, 'diagonal')


def spectra(ctx, n):
    """local spectrum; deviations against the blur"""
    w = np.arange(n) - 1.0
    im = ordered(ctx, 'im', (n,))
    g = ctx.real('re', (n,)) + 1j * im
    files, p = drawn(ctx, plotting.plot_aw_loc, v_real=w, gloc=g, output_path='dir/', name='a')
    ctx.true(set(files) == {'dir/a.png'} and not p.open, 'stored once, closed')
    line(ctx, files['dir/a.png'].axes[0].lines[0], w, [-x / np.pi for x in im], 'spectral function')
    bw, chi2, fits = np.arange(n) + .5, ordered(ctx, 'chi', (n,)), [ctx.real('f', (n,)), ctx.real('h', (n,))]
    files, p = drawn(ctx, plotting.plot_bw_fit, bw_opt=.7, bw=bw, chi2=chi2, fits=fits, output_path='dir/', name='b')
    ctx.true(set(files) == {'dir/b.png'} and not p.open, 'stored once, closed')
    l = files['dir/b.png'].axes[0].lines
    ctx.true(len(l) == 3, 'lines')
    for x, y in zip(l, [chi2] + fits):
        line(ctx, x, bw, y, 'deviation')


def optical(ctx, nb, nv, n):
    b, v = ctx.real('b', (2 * nb + 1,)), ctx.real('v', (2 * nv + 1,))
    files, p = drawn(ctx, optics.plot_opt_cond_matsubara, b, v, do_save=True, pdir='dir/')
    ctx.true(set(files) == {'dir/optical_conductivity_matsubara.png'} and not p.open, 'stored once, closed')
    l = {x[2]: x for x in files['dir/optical_conductivity_matsubara.png'].axes[0].lines}
    line(ctx, l['bubble'], range(-nb, nb + 1), b, 'bubble')
    line(ctx, l['vertex'], range(-nv, nv + 1), v, 'vertex part')
    m = max(nb, nv)
    line(ctx, l['full'], range(-m, m + 1), [(b[i + nb] if abs(i) <= nb else 0) + (v[i + nv] if abs(i) <= nv else 0) for i in range(-m, m + 1)], 'sum')
    w, s, t = np.arange(n) * 1.0, ctx.cplx('s', (n,)), ctx.cplx('t', (n,))
    files, p = drawn(ctx, optics.plot_opt_cond_realf, w, s, t, do_save=True, pdir='dir/')
    ctx.true(set(files) == {'dir/optical_conductivity_realf.png'} and not p.open, 'stored once, closed')
    a, c = files['dir/optical_conductivity_realf.png'].axes
    l = {x[2]: x for x in a.lines + c.lines}
    line(ctx, l['bubble'], w, [x.real for x in s], 'bubble')
    line(ctx, l['full'], w, [x.real for x in t], 'full')
    line(ctx, l['vertex'], w, [y.real - x.real for x, y in zip(s, t)], 'difference')
    ctx.raises(AssertionError, lambda: optics.plot_opt_cond_realf(w, s, t[:-1]), 'different meshes are refused')
    files, p = drawn(ctx, hlp.plot_opt_cond, s, w, pdir='dir/', name='o')
    ctx.true(set(files) == {'dir/o.png'} and not p.open, 'stored once, closed')
    line(ctx, files['dir/o.png'].axes[0].lines[0], w, [x.real for x in s], 'conductivity')


def path_figures(ctx, nk, path, nw):
    nk = tuple(nk)
    kp = bz.KPath(nk, path)
    pts = [tuple(int(i) for i in k) for k in kp.kpts]
    w = np.arange(nw) - 1.0
    a, aw = ctx.real('a', nk + (nw,)), ordered(ctx, 'aw', (nw,))
    g = types.SimpleNamespace(w=w, awk=lambda: a, aw=aw)
    files, p = drawn(ctx, hlp.plot_real_frequency_dispersion, g, kp, pdir='dir/', name='g')
    ctx.true(set(files) == {'dir/g.png'} and not p.open, 'stored once, closed')
    m, s = files['dir/g.png'].axes[:2]
    image(ctx, m, 'spectral function along the path', {(float(kp.k_axis[i]), float(w[j])): a[k][j] for i, k in enumerate(pts) for j in range(nw)})
    ctx.true(bool(np.all(m.ticks[0] == kp.x_ticks)) and list(m.ticks[1]) == list(kp.labels), 'corners')
    line(ctx, s.lines[0], aw, w, 'local spectral function')
    e = ordered(ctx, 'e', nk)
    files, p = drawn(ctx, kp.plot_kpath, e, pdir='dir', name='e')
    ctx.true(set(files) == {'dir/e.png'}, 'stored once')
    ax = files['dir/e.png'].axes[0]
    line(ctx, ax.lines[0], kp.k_axis, [e[k] for k in pts], 'field along the path')
    ctx.true(bool(np.all(ax.ticks[0] == kp.x_ticks)) and list(ax.ticks[1]) == list(kp.labels), 'corners')


def chi_path(ctx, nk, path, nw):
    """energy-weighted susceptibility along the path and the position of its maximum"""
    nk = tuple(nk)
    kp = bz.KPath(nk, path)
    pts = [tuple(int(i) for i in k) for k in kp.kpts]
    w = np.arange(nw) * 1.0
    # the maxima are at a known place
    c, top = np.empty(nk + (nw,), dtype=object), {}
    base = ctx.pos('base')
    for n, k in enumerate(np.ndindex(*nk)):
        top[k] = 1 + n % (nw - 1)
        for j in range(nw):
            c[k][j] = base * (10 if j == top[k] else 1) / max(j, 1) + 0 * ctx.real('z')
        for j in range(nw):
            c[k][j] = c[k][j] + (ctx.pos(f'p{n}') if j == top[k] else 0)
    c = ctx.arr(c.tolist(), dtype=float)
    files, p = drawn(ctx, hlp.plot_chi_along_kpath, c, w, kp, pdir='dir/', name='c')
    ctx.true(set(files) == {'dir/c.png'} and not p.open, 'stored once, closed')
    ax = files['dir/c.png'].axes[0]
    image(ctx, ax, 'energy-weighted susceptibility', {(float(kp.k_axis[i]), float(w[j])): c[k][j] * w[j] for i, k in enumerate(pts) for j in range(nw)})
    line(ctx, ax.lines[0], kp.k_axis, [w[top[k]] for k in pts], 'position of the maximum')


def program(ctx, nk, niv, full):
    """figures of the results: susceptibility, self-energy and propagator with their own axes and frequencies"""
    nk = tuple(nk)
    beta = ctx.pos('beta')
    cfg = make_cfg(ctx, nk=nk, niw=1, niv=niv, nsh=full - niv, beta=beta)
    cfg.pdir, cfg.output_path = 'dir', 'out'
    cfg.verbosity = 1
    kept = {}
    cfg.save_data = lambda mat, name: kept.__setitem__(name, mat)
    siw = ctx.cplx('s', nk + (full + 1,))
    s0, s1 = ctx.real('s0'), ctx.real('s1')
    sig = twop.SelfEnergy(siw, beta, pos=True, smom0=s0, smom1=s1, niv_core=full)
    loc_d, loc = ctx.cplx('dmft', (full + 1,)), ctx.cplx('sde', (2 * niv,))
    dmft = twop.SelfEnergy(loc_d, beta, pos=True, smom0=s0, smom1=s1, niv_core=full)
    giwk, g = make_giwk(ctx, nk, full, beta)
    cd, cm = ctx.cplx('cd', nk + (3,)), ctx.cplx('cm', nk + (3,))
    ld, lm = ctx.cplx('ld', (3,)), ctx.cplx('lm', (3,))
    giwk.e_kin_dmft = ctx.real('ekin')
    green = types.SimpleNamespace(beta=beta, e_kin=ctx.real('ekin'))
    ind = [(0, 1), (1, 1), (1, 0), (0, 0)]
    texts = {}

    def everything():
        dga_io.chiq_checks(cfg, ld, lm, cd, cm, green, name='ladder')
        dga_io.default_siwk_checks(cfg, sig, loc, dmft)
        dga_io.default_giwk_checks(cfg, giwk, sig)

    with replaced((bz, 'find_zeros', lambda m: np.array(ind)), (np, 'savetxt', lambda f, m, **k: texts.__setitem__(f.replace('//', '/'), m))):
        files, p = drawn(ctx, everything)
    ks, sh = k_of(nk), k_of(nk, True)
    parts = (lambda z: z.real, lambda z: z.imag)
    nq = int(np.prod(nk))

    def field(name, pos, val):
        for ax, part in zip(files[name].axes[:2], parts):
            image(ctx, ax, name, {k: part(val[i + (0,)]) for i, k in pos.items()})

    field('dir/Chi_ladder_dens_kz0.png', ks, cd[..., 1])
    field('dir/Chi_ladder_magn_kz0.png', ks, cm[..., 1])
    a = files['dir/chi_dens_magn_lad_q_tilde.png'].axes
    for ax, l, c in ((a[0], ld, cd), (a[1], lm, cm), (a[2], ld, cd), (a[3], lm, cm)):
        line(ctx, ax.lines[0], (-1, 0, 1), [z.real for z in l], 'local susceptibility')
        line(ctx, ax.lines[1], (-1, 0, 1), [sum(c[i + (w,)] for i in np.ndindex(*nk)).real / nq for w in range(3)], 'momentum sum')
        ctx.true((ax.lines[0][2], ax.lines[1][2]) == ('loc', 'ladder-sum'), 'labels')
    field('dir/Siwk_dga_kz0.png', sh, siw[..., 0])
    field('dir/Giwk_dga_kz0.png', sh, g[..., full])
    for ax in files['dir/Giwk_dga_kz0.png'].axes[:2]:
        (x, y), = ax.points
        want = [ks[i] for i in ind[:2]]
        ctx.true(len(x) == 2 and all(abs(float(a) - b[0]) < 1e-9 and abs(float(c) - b[1]) < 1e-9 for a, c, b in zip(x, y, want)), 'Fermi surface')

    def sym(pos, n):
        return [np.conj(pos[n - 1 - i]) for i in range(n)] + [pos[i] for i in range(n)]

    mean = [sum(siw[i + (v,)] for i in np.ndindex(*nk)) / nq for v in range(full + 1)]
    for name in ('dga_loc', 'dga_loc_core'):
        for ax, part in zip(files[f'dir/sde_{name}_check.png'].axes, parts):
            for l, y, n, lab in zip(ax.lines, (list(loc), sym(mean, full), sym(mean, full + 1), sym(list(loc_d), full)), (niv, full, full + 1, full),
                                    ('SDE-loc', 'DGA-loc', 'DGA-loc-raw', 'DMFT-input')):
                line(ctx, l, range(-n, n), [part(z) for z in y], lab)
                ctx.true(l[2] == lab, 'label')
    fs = files['dir/Sigma_{dga}_along_Fermi_surface.png']
    for ax, part in zip(fs.axes, parts):
        ctx.true(len(ax.lines) == 2, 'one line per point of the Fermi surface')
        for l, i in zip(ax.lines, ind[:2]):
            line(ctx, l, range(full), [part(siw[i + (0, n)]) for n in range(full)], 'self-energy on the Fermi surface')
    ctx.true(set(kept) == {'siwk_dga', 'giwk_dga'}, 'results kept')
    ctx.eq(kept['giwk_dga'], g, 'propagator')
    for i in np.ndindex(*nk):
        ctx.eq(kept['siwk_dga'][i], ctx.arr(sym([siw[i + (n,)] for n in range(full)], full), dtype=complex), 'self-energy')
    ctx.eq(texts['out/mu.txt'][0][0], giwk.mu, 'chemical potential')
    ctx.eq(texts['out/mu.txt'][0][1], cfg.sys.mu_dmft, 'chemical potential')


def vertex(ctx, which, nk, nq=None, sym=()):
    """the full vertex and the pairing vertex at the lowest frequencies, on the mesh they are known on"""
    got = []
    if which == 'pairing':
        files, p = drawn(ctx, lambda: got.append(c20.built(ctx, nk, sym, 2, 2, 2, nq)))
    elif which == 'optics':
        files, p = drawn(ctx, lambda: got.append(c25.built(ctx, nk, sym, 1, 2, 1, 1, 2, nq)))
    else:
        files, p = drawn(ctx, lambda: got.append(c26.built(ctx, nk, sym, 1, 1, 2, nq)))
    cfg, data, chi, out = got[0]
    mesh = tuple(cfg.lattice.q_grid.nk)
    inv = np.asarray(cfg.lattice.q_grid.irrk_inv).reshape(mesh)
    names = {n.split('/')[-1]: f for n, f in files.items()}
    ctx.true(not p.open, 'closed')
    want = {}
    if which == 'pairing':
        n = int(cfg.box.niv_pp)
        for c in ('sing', 'trip'):
            f = out[f'F_{c}_pp']
            want[f'F_{c}_pp.png'] = lambda i, f=f: f[i + (0, n, n)]
            mean = sum(f[k] for k in np.ndindex(*mesh)) / int(np.prod(mesh))
            for ax, part in zip(names.pop(f'F_{c}_pp_loc.png').axes, (lambda z: z.real, lambda z: z.imag)):
                image(ctx, ax, 'local pairing vertex', {(v, vp): part(mean[vp + n, v + n]) for v in range(-n, n) for vp in range(-n, n)})
    else:
        nw, nv = (1, 2) if which == 'optics' else (1, 1)
        for c in ('dens', 'magn'):
            a, vr, g = data[c]

            def f(i, c=c, a=a, vr=vr, g=g):
                q, u = int(inv[i + (0,)]), ur(c, cfg.sys.u)
                x, y = c20.f12(cfg.sys.beta, u, a[q, nw], vr[q, nw], g[q, nw], nv, nv)
                return x + (1 - u * chi[c][i + (0, nw)]) * y
            want[f'F_{c}_niw0.png'] = f
        if which == 'optics':
            want['F_cond_niw0.png'] = lambda i: out['F_cond'][i + (0, 1, 0, 1)]
    ctx.true(set(want) == set(names), 'figures of the vertex')
    ks = k_of(mesh)
    for name, f in want.items():
        for ax, part in zip(names[name].axes, (lambda z: z.real, lambda z: z.imag)):
            image(ctx, ax, name, {k: part(f(i)) for i, k in ks.items()})


def cases(tier):
    big = tier != 'quick'
    out = []
    for nk in ((2, 2, 1), (2, 4, 1), (3, 2, 1), (4, 4, 1)) + (((6, 8, 1),) if big else ()):
        for which in ('kxky', 'gap'):
            out.append((momentum, dict(nk=nk, which=which)))
    out.append((momentum, dict(nk=(2, 3, 1), which='kxky', scatter=True)))
    W = (-1.0, -0.5, -0.25, 0.0, 0.5)
    for nk in ((2, 2, 1), (2, 4, 1), (4, 2, 1)) + (((4, 6, 1),) if big else ()):
        for shift in (True, False):
            for w_plot, w_int in ((0, None), (-0.5, None), (0.4, None), (0, -1.0)):
                out.append((fermi, dict(nk=nk, shift=shift, w=W, w_plot=w_plot, w_int=w_int)))
        out.append((poly, dict(nk=nk)))
    for niw, niv, iwn, cut, wn in ((1, 1, 0, -1, None), (2, 2, -1, -1, None), (2, 2, 2, 1, None), (0, 2, 3, -1, (-1, 0, 3)), (0, 3, -1, 2, (-1, 0, 3))):
        out.append((fourpoint, dict(niw=niw, niv=niv, iwn=iwn, cut=cut, wn=wn)))
    for which in ('g2', 'gchi', 'gamma'):
        out.append((defaults, dict(which=which)))
    for sizes in ((1,), (2, 1), (1, 3)):
        out.append((chi, dict(sizes=sizes)))
        for which in (0, 1):
            out.append((local_sigma, dict(sizes=sizes, which=which)))
    for n, k in ((1, 1), (2, 2)):
        out.append((difference, dict(n=n, k=k)))
    for nk, niv, lo, hi, step, ikz in (((2, 2, 1), 2, 0, 20, 1, 0), ((3, 2, 2), 3, -1, 1, 2, 1), ((2, 3, 1), 2, 0, -1, 3, 0)):
        out.append((along, dict(nk=nk, niv=niv, lo=lo, hi=hi, step=step, ikz=ikz)))
    for nk, niv, full in (((2, 2, 1), 1, 1), ((2, 4, 1), 1, 2), ((4, 2, 2), 2, 3)):
        out.append((program, dict(nk=nk, niv=niv, full=full)))
    for nk in ((2, 2, 1), (4, 4, 1), (2, 4, 1), (4, 4, 2)):
        out.append((ornstein, dict(nk=nk)))
    for which in ('pairing', 'optics', 'full'):
        for nk, nq, sym in (((2, 2, 1), None, ()), ((4, 2, 1), (2, 3, 1), ()), ((4, 4, 1), (2, 2, 1), 'two_dimensional_square'), ((1, 2, 2), None, ('z-inv',))):
            out.append((vertex, dict(which=which, nk=nk, nq=nq, sym=sym)))
    for n in (2, 4):
        out.append((spectra, dict(n=n)))
    for nb, nv, n in ((1, 1, 2), (2, 1, 3), (1, 3, 2)):
        out.append((optical, dict(nb=nb, nv=nv, n=n)))
    for nk, path in (((2, 2, 1), 'Gamma-X-M'), ((4, 2, 1), 'Gamma-X-M-Gamma')):
        for nw in (3, 4):
            out.append((path_figures, dict(nk=nk, path=path, nw=nw)))
            out.append((chi_path, dict(nk=nk, path=path, nw=nw)))
    return out
