"""C41 text files of Hamiltonians: what is written is what is read"""
import io
import re
import numpy as np
import pandas as pd
from dga import wannier, brillouin_zone as bz
from vsym import scalar
from common import replaced
from c30 import RS

EXPLANATION = ('real writer and reader with symbolic Hamiltonians: symbolic numbers appear in the text as markers for their rounded value (any number within '
               'half a unit of the last written digit), the text is parsed as pandas / numpy would; reference: every entry keeps its vector, orbitals and value')
OUTSIDE = 'numbers larger than 1000 in the real-space file, other file formats, errors of the file system; more vectors, orbitals, momenta than listed'


class Files:
    """files of one check run; text with markers for symbolic numbers"""

    def __init__(self, ctx):
        self.ctx, self.data, self.table, self.limits = ctx, {}, [], []

    def write(self, x, spec):
        """text of a symbolic number of modulus below 1000"""
        v = x.constvalue()
        if v is not None and abs(v.imag) < 1e-300:
            return format(v.real, spec)
        m = re.fullmatch(r'([ +-]?)(\d*)(?:\.(\d+)([fe]))?', spec)
        if not m:
            raise scalar.Unsupported('text format ' + spec)
        i = len(self.table)
        if m[3] is None:  # shortest text of full precision
            self.table.append(x)
            return ' ' * min(1, len(m[2])) + f'sym{i}'
        if m[4] == 'e':
            raise scalar.Unsupported('text format ' + spec)
        r, half = self.ctx.real(f'rounding{i}'), 0.5 * 10. ** -int(m[3])
        self.limits.append((r <= half) & (-r <= half))
        self.table.append(x + r)
        free = int(m[2] or 0) - int(m[3]) - 5  # sign, three digits and point
        return ' ' * max(free, 0) + f'sym{i}'

    def number(self, word):
        m = re.fullmatch(r'sym(\d+)', word)
        return self.table[int(m[1])] if m else np.float64(word)

    def open(self, name, mode='r', **k):
        return Handle(self, name, mode)

    def numbers(self, f, sep='', dtype=float, **k):
        text = f.read()
        return self.array([self.number(t) for t in text.replace(sep, ' ').split()])

    def array(self, x):
        out = np.empty(len(x), dtype=object)
        for i, v in enumerate(x):
            out[i] = v
        return self.ctx.arr(out) if self.ctx.sym else np.array(x, dtype=float)

    def savetxt(self, f, mat, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', comments='# ', **k):
        if header:
            f.write(comments + header + newline)
        for row in mat:
            f.write(delimiter.join(format(x, fmt[1:]) for x in np.ravel(row)) + newline)
        if footer:
            f.write(comments + footer + newline)

    def csv(self, name, skiprows=0, names=None, sep=',', dtype=None, engine=None, header='infer', **k):
        if not self.ctx.sym:
            return real_csv(io.StringIO(self.data[name]), skiprows=skiprows, names=names, sep=sep, dtype=dtype, engine=engine, **k)
        rows = [t.split() for t in self.data[name].split('\n')[skiprows:]]
        rows = [[self.number(t) for t in r] for r in rows if r]
        if max(len(r) for r in rows) > len(names):
            raise ValueError('more numbers in a line than columns')
        out = np.empty((len(rows), len(names)), dtype=object)
        out[...] = float('nan')
        for i, r in enumerate(rows):
            out[i, :len(r)] = r

        class Frame:
            values = self.ctx.arr(out)

            def to_numpy(f, *a, **k):
                return f.values
        return Frame()


real_csv = pd.read_csv


class Handle:
    def __init__(self, files, name, mode):
        self.files, self.name = files, name
        if 'w' in mode:
            files.data[name] = ''
        self.at = 0

    def write(self, t):
        self.files.data[self.name] += t

    def readline(self):
        t = self.files.data[self.name]
        j = t.find('\n', self.at)
        j = len(t) if j < 0 else j + 1
        r, self.at = t[self.at:j], j
        return r

    def read(self):
        r = self.files.data[self.name][self.at:]
        self.at = len(self.files.data[self.name])
        return r

    def __iter__(self):
        while True:
            t = self.readline()
            if not t:
                return
            yield t

    def flush(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class disk:
    def __init__(self, ctx):
        self.files = Files(ctx)

    def __enter__(self):
        f = self.files
        self.r = replaced((scalar.Text, 'write', f.write), (pd, 'read_csv', f.csv), (np, 'fromfile', f.numbers), (np, 'savetxt', f.savetxt),
                          (wannier, 'warn', lambda *a, **k: self.files.data.setdefault('warnings', []).append(a)))
        self.r.__enter__()
        wannier.open = f.open
        return f

    def __exit__(self, *a):
        del wannier.open
        self.r.__exit__(*a)
        ok = True
        for x in self.files.limits:
            ok = x & ok
        if ok is not True:
            self.files.ctx.assume(ok)


def close(ctx, a, b, tol, what):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    ctx.true(a.shape == b.shape, what + ': shape')
    ok = True
    for x, y in zip(a.reshape(-1), b.reshape(-1)):
        for d in ((x - y).real, (x - y).imag):
            ok = (d <= tol) & (-d <= tol) & ok
    ctx.true(ok, what)


def vectors(nr, nb):
    """lattice vectors that differ between the entries as they do not in practice, to tell them apart"""
    r = np.zeros((nr, nb, nb, 3))
    for ix in np.ndindex(nr, nb, nb):
        r[ix] = (ix[0] - nr // 2, 2 * ix[1] - 3 * ix[2], -ix[0] % 5 + 10 * ix[1])
    return r


def real_space(ctx, nr, nb, intw):
    """written and read real-space Hamiltonian"""
    h = ctx.cplx('h', (nr, nb, nb))
    orbs = wannier.create_orbs(nr, nb)
    w = (np.arange(nr) * 3 % 7 + 1)[:, None] * (1 if intw else 1.)
    r = vectors(nr, nb)
    keep = h.copy(), r.copy(), w.copy(), np.array(orbs)
    with disk(ctx) as d:
        wannier.WannierHr(h, r, w, orbs).save_hr('/scratch/', 'h.dat')
        got = wannier.create_wannier_hr_from_file('/scratch/h.dat')
    ctx.true(list(d.data) == ['/scratch/h.dat'], 'file name')
    close(ctx, got.hr, keep[0], 1e-6, 'hopping')
    for a, b, t in ((got.r_grid, r, 'lattice vectors'), (got.r_weights, w, 'weights'), (got.orbs, orbs, 'orbitals')):
        ctx.true(a.shape == b.shape, t + ': shape')
        ctx.eq(a, b, t)
    for a, b in zip((h, r, w, orbs), keep):
        ctx.eq(a, b, 'argument unchanged')


def foreign(ctx, nr, nb, cols):
    """file of another program: vectors outermost, first orbital running fastest, weights in lines of cols"""
    with disk(ctx) as d:
        w = [i % 4 + 1 for i in range(nr)]
        val = ctx.cplx('h', (nr, nb, nb))
        t = ' written on 4Aug2022 at 13:25:46\n' + f'           {nb}\n        {nr}\n'
        for i in range(0, nr, cols):
            t += ''.join(f'{x:5d}' for x in w[i:i + cols]) + '\n'
        for i in range(nr):
            for b in range(nb):
                for a in range(nb):
                    x = val[i, a, b]
                    t += f'{i - 2:5d}{-i:5d}{3:5d}{a + 1:5d}{b + 1:5d} ' + ' '.join(str(y) for y in (x.real, x.imag)) + '\n'
        d.data['f'] = t
        hr, r, ww, orbs = wannier.read_hr_w2k('f')
    ctx.true(hr.shape == (nr, nb, nb) and r.shape == (nr, nb, nb, 3) and orbs.shape == (nr, nb, nb, 2), 'shapes')
    ctx.true(np.shape(ww) == (nr, 1), 'one weight per vector')
    ctx.eq(ww, np.array(w)[:, None], 'weights')
    seen = set()
    for ix in np.ndindex(nr, nb, nb):
        a, b = (int(x) for x in orbs[ix])
        seen.add((ix[0], a, b))
        ctx.eq(r[ix], np.array([ix[0] - 2, -ix[0], 3]), 'vector')
        ctx.eq(hr[ix], val[ix[0], a - 1, b - 1], 'hopping of its orbitals')
    ctx.true(len(seen) == nr * nb * nb, 'all orbitals')


def momentum_space(ctx, nk, nb, nr):
    """written and read H(k) is the Hamiltonian on the mesh"""
    nk = tuple(nk)
    r = np.zeros((nr, nb, nb, 3))
    for i in range(nr):
        r[i] = RS[i]
    h, kg = ctx.cplx('h', (nr, nb, nb)), bz.KGrid(nk, [])
    obj = wannier.WannierHr(h, r, np.ones((nr, 1)), wannier.create_orbs(nr, nb))
    with disk(ctx) as d:
        obj.save_hk(kg, '/scratch/', 'h.hk')
        hk, k = wannier.read_hk_w2k('/scratch/h.hk')
    ctx.true([x for x in d.data if x != 'warnings'] == ['/scratch/h.hk'], 'file name')
    ek = obj.get_ek(kg, one_band=False)
    n = int(np.prod(nk))
    ctx.true(hk.size == n * nb * nb and k.shape == (3, n), 'shapes')
    close(ctx, kg.map_fbz_list2mesh(hk.reshape(n, nb, nb)), ek, 1e-11, 'energy at its momentum')
    ctx.eq(k, kg.kmesh_list, 'momenta', tol=1e-9)


def spin(ctx, header, nk, extra, hermitian, orbit, newline=True):
    """orbital and spin indices, headers, incomplete and overlong files"""
    nb = 2 if orbit else 3
    ns = 2 if orbit else 1
    val = ctx.cplx('h', (nk + max(extra, 0), ns, nb, ns, nb))
    if hermitian:
        for i in range(len(val)):
            m = val[i].reshape(ns * nb, ns * nb)
            for a in range(ns * nb):
                m[a, a] = m[a, a].real + 0j
                for b in range(a):
                    m[b, a] = np.conj(m[a, b])
            val[i] = m.reshape(ns, nb, ns, nb)
    else:
        ctx.assume(val[0, 0, 0, 0, 0].imag > 1)
    kp = ctx.real('k', (nk + max(extra, 0), 3))
    with disk(ctx) as d:
        n = ns * nb
        t = {'plain': f'{nk} {n} {n}\n', 'comment': f'{nk} {n} {n} # a comment\n', 'old': f'{nk} {n} 1 0 # d p\n', 'version': f'VERSION 2\n{nk} 1 # a\n{n - 1} 1 0 # b\n'}[header]
        for i in range(nk + extra):
            t += ' '.join(str(x) for x in kp[i]) + '\n'
            for row in val[i].reshape(n, n):
                t += ' '.join(f'{x.real} {x.imag}' for x in row) + '\n'
        d.data['f'] = t if newline else t.rstrip('\n')
        if extra < 0:
            ctx.raises(ValueError, lambda: wannier.read_hk_w2k('f', spin_sym=not orbit), 'missing momenta are noticed')
            return
        hk, k = wannier.read_hk_w2k('f', spin_sym=not orbit)
        said = str(d.data.get('warnings', ''))
    want = val[:nk].transpose(0, 2, 1, 4, 3) if orbit else val[:nk, 0, :, 0, :]
    if nk == 1:
        want = want[0]
    ctx.eq(hk, want, 'orbital and spin indices')
    ctx.eq(k, kp[:nk].T, 'momenta')
    ctx.true(('ermit' in said) == (not hermitian), 'warning about Hermiticity')
    ctx.true(('runcat' in said) == (extra > 0), 'warning about unused momenta')


def odd(ctx):
    """spin structure needs an even number of bands"""
    with disk(ctx) as d:
        d.data['f'] = '1 3 3\n0 0 0\n' + '0 0 0 0 0 0\n' * 3
        ctx.raises(RuntimeError, lambda: wannier.read_hk_w2k('f', spin_sym=False), 'odd number of bands')


def cases(tier):
    big = tier == 'thorough'
    out = []
    for nr, nb in ((1, 1), (3, 1), (2, 2), (16, 1), (15, 1), (31, 1), (2, 3)) + (((17, 2), (46, 1)) if big else ()):
        for intw in (True, False):
            out.append((real_space, dict(nr=nr, nb=nb, intw=intw)))
        for cols in (15, 12, 7):
            out.append((foreign, dict(nr=nr, nb=nb, cols=cols)))
    for nk in ((1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 2, 1), (2, 3, 2)) + (((4, 4, 1), (6, 2, 3)) if big else ()):
        for nb in (1, 2, 3):
            if np.prod(nk) * nb < 14 and (3 not in nk or nb == 1) or big:
                out.append((momentum_space, dict(nk=nk, nb=nb, nr=2)))
    for orbit in (False, True):
        for header in ('plain', 'comment', 'old', 'version'):
            out.append((spin, dict(header=header, nk=2, extra=0, hermitian=True, orbit=orbit)))
            out.append((spin, dict(header=header, nk=2, extra=0, hermitian=True, orbit=orbit, newline=False)))
        for nk in (1, 3):
            for extra in (-1, 0, 1):
                if nk + extra > 0:
                    out.append((spin, dict(header='plain', nk=nk, extra=extra, hermitian=False, orbit=orbit)))
    out.append((odd, dict()))
    return out
