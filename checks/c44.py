"""C44 settings and output folders: what is read, kept, written down and where"""
import contextlib
import io
import os
import sys
import numpy as np
from dga import config, util
from common import Comm, replaced, NoOp
from c37 import collective

EXPLANATION = ('symbolic values in every setting (also inside lists, dictionaries and numbers that carry attributes, as the file reader delivers them), '
               'symbolic contents of the folder; reading, writing and looking up files are replaced by recorders')
OUTSIDE = 'the syntax of the files; two programs started in one folder at the same time'


class Number:
    """a value with attributes of its own, as made by the reader of the configuration file"""

    def __init__(self, x):
        self.width, self._x = 7, x


class Mapping(dict):
    """a dictionary with attributes of its own"""

    def __init__(self, *a):
        super().__init__(*a)
        self.anchor = None


def same(ctx, got, want, what):
    if isinstance(want, Number) or want is None or isinstance(want, (str, bool)):
        ctx.true(got is want or got == want, what)
    elif isinstance(want, dict):
        ctx.true(isinstance(got, dict) and set(got) == set(want), what + ': keys')
        for k in want:
            same(ctx, got[k], want[k], f'{what}.{k}')
    elif isinstance(want, list):
        ctx.true(isinstance(got, list) and len(got) == len(want), what + ': length')
        for i, x in enumerate(want):
            same(ctx, got[i], x, f'{what}[{i}]')
    else:
        ctx.eq(got, want, what)


def settings(ctx, kind):
    x = ctx.real('x', (6,))
    if kind == 'plain':
        return dict(a=x[0], b=x[1], name='text', flag=True)
    if kind == 'none':
        return dict(a=None, b=x[0], c=[x[1], None], d=None)
    if kind == 'number':
        return dict(eps=Number(x[0]), c=[Number(x[1]), x[2]], b=x[3])
    return dict(a=Mapping(dict(u=x[0], v=Mapping(dict(w=x[1])))), c=[Mapping(dict(u=x[2])), [x[3], x[4]]], b=x[5])


def classes():
    return dict(eliash=config.EliashbergConfig, optics=config.OpticsConfig, debug=config.DebugConfig)


def written(ctx, section, kind, nested=False):
    """the record of the settings holds every public setting with the value in use"""
    conf = settings(ctx, kind)
    c = classes()[section](dict(conf))
    c._hidden = 3
    if nested:
        inner = config.ConfigBase()
        inner.update_dict(**conf)
        c.inner, c.several = inner, [inner, 1]
    want = {k: v for k, v in vars(c).items() if not k.startswith('_')}
    if nested:
        want['inner'], want['several'] = dict(conf), [dict(conf), 1]
    for k in conf:
        ctx.true(k in want, 'setting is kept')
    same(ctx, c.as_dict(), want, 'record')
    same(ctx, {k: vars(c)[k] for k in conf}, conf, 'settings unchanged by the record')
    if hasattr(c, 'to_yaml'):
        put = []

        class Yaml:
            def dump(self, d, f):
                put.append((d, f))

        class File:
            def __init__(self, name, mode):
                self.name, self.mode = name, mode

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False
        c.output_path = '/out/'
        want['output_path'] = '/out/'
        config.open = File
        try:
            with replaced((config, 'YAML', Yaml)):
                c.to_yaml('record')
        finally:
            del config.open
        ctx.true(len(put) == 1 and os.path.normpath(put[0][1].name) == '/out/record.yaml' and 'w' in put[0][1].mode, 'file')
        same(ctx, put[0][0], want, 'written record')


def copied(ctx):
    """settings are taken over from dictionaries completely, from objects where they are known"""
    x = ctx.real('x', (4,))
    a = config.ConfigBase()
    a.set(dict(p=x[0], q=x[1]))
    ctx.eq(a.p, x[0], 'from a dictionary')
    b = config.ConfigBase()
    b.update_dict(q=x[2], r=x[3])
    b.set(a)
    ctx.eq(b.q, x[1], 'known setting')
    ctx.eq(b.r, x[3], 'setting the other does not have')
    ctx.true(not hasattr(b, 'p'), 'unknown setting')
    b.set(dict(p=x[3]))
    ctx.eq(b.p, x[3], 'new setting')
    ctx.eq(b.q, x[1], 'others stay')


def parsed(ctx, size, given):
    """every process gets the configuration of the file named on the command line"""
    x = ctx.real('x', (6,))
    conf = Mapping({'lattice': Mapping(dict(symmetries='two_dimensional_square', type='t_tp_tpp', hr_input=[x[0], x[1], x[2]], nk=[4, 4, 1])),
                    'box_sizes': dict(niv_core=ctx.int('niv', 1, 40), niv_shell=ctx.int('shell', 0, 40)), 'dga': dict(lambda_corr='spch'),
                    'poly_fitting': dict(n_fit=ctx.int('nfit', 2, 9)), 'pairing': dict(eps=x[3], k_sym='d-wave'), 'optics': dict(der_a=1, factor=x[4]),
                    'output': dict(verbosity=2), 'dmft_input': dict(type='test', input_path='/in/'), 'debug': dict(extra=x[5])})
    opened = []
    argv = ['dga'] + (['-c', 'file.yaml', '-p', '/where/'] if given else [])

    class Yaml:
        def load(self, f):
            return conf

    def prog(comm, turn):
        def op(name, *a):
            opened.append((comm.rank, name))
            return NoOp()
        config.open = op
        old, sys.argv = sys.argv, argv
        try:
            with replaced((config, 'YAML', Yaml)), contextlib.redirect_stdout(io.StringIO()):
                return config.parse_config_file(comm)
        finally:
            sys.argv = old
            del config.open
    out = collective(size, prog)
    ctx.true(opened != [] and all(r == 0 for r, _ in opened), 'the root reads the file')
    for _, name in opened:
        ctx.true(name == '/where/file.yaml' if given else name.endswith('/dga_config.yaml'), 'file of the command line')
    for r in range(size):
        c, f = out[r]
        same(ctx, f, conf, 'contents')
        ctx.true(c.box.niv_core == conf['box_sizes']['niv_core'], 'box')
        ctx.true(c.box.niv_shell == conf['box_sizes']['niv_shell'], 'shell')
        ctx.true(c.n_fit == conf['poly_fitting']['n_fit'], 'fit')
        ctx.true(c.do_poly_fitting is True and c.type == 'test' and c.input_path == '/in/' and c.verbosity == 2 and c.lambda_corr == 'spch', 'sections')
        ctx.true(c.fname_1p == '1p-data.hdf5' and c.o_fit == 3 and c.save_vrg is False, 'defaults')
        ctx.eq(c.eliash.eps, x[3], 'pairing')
        ctx.eq(c.optics.factor, x[4], 'optics')
        ctx.eq(c.debug.extra, x[5], 'debug')
        ctx.true(tuple(c.lattice.nk) == (4, 4, 1) and tuple(c.lattice.nq) == (4, 4, 1), 'mesh')


def saved(ctx):
    """the configuration is filed with the results as it was read"""
    conf, put = settings(ctx, 'mapping'), []

    class Yaml:
        def dump(self, d, f):
            put.append((d, f.name))

    class File:
        def __init__(self, name, mode):
            self.name = name

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass
    config.open = File
    try:
        with replaced((config, 'YAML', Yaml)):
            config.save_config_file(conf, '/out')
    finally:
        del config.open
    ctx.true(len(put) == 1 and os.path.normpath(put[0][1]) == '/out/dga_config.yaml', 'file')
    same(ctx, put[0][0], conf, 'contents')


class Disk:
    """folder with symbolic contents: whether the n-th name asked for is there is decided by the solver"""

    def __init__(self, ctx, n, files=False):
        self.ctx, self.n, self.known, self.made, self.removed = ctx, n, {}, [], []

    def exists(self, name):
        k = os.path.normpath(name)
        if k not in self.known:
            i = len(self.known)
            self.known[k] = bool(self.ctx.int(f'there{i}', 0, 1) == 1) if i < self.n else False
        return self.known[k]

    def mkdir(self, name):
        k = os.path.normpath(name)
        if self.exists(name):
            raise FileExistsError(name)
        self.known[k] = True
        self.made.append(k)

    def remove(self, name):
        k = os.path.normpath(name)
        if not self.exists(name):
            raise FileNotFoundError(name)
        self.known[k] = False
        self.removed.append(k)


def unique(ctx, n, path):
    """a name that is not taken, the given one if it is free"""
    d = Disk(ctx, n)
    with replaced((os.path, 'exists', d.exists)):
        taken = d.exists(path)
        got = util.uniquify(path)
        ctx.true(not d.exists(got), 'name is free')
    ctx.true(got.endswith('/'), 'folder')
    if not taken:
        ctx.true(os.path.normpath(got) == os.path.normpath(path), 'given name')
    ctx.true(os.path.normpath(got).startswith(os.path.normpath(path)), 'related to the given name')


def folder(ctx, size, n):
    """all processes write to one new folder made once"""
    first = []

    def prog(comm, turn):
        if comm.rank == 0:
            first[:] = [Disk(ctx, n)]
        d = first[0]
        # the root may or may not have made the folder by the time another process looks
        late = bool(ctx.int('late', 0, 1) == 1)
        c = config.OutputConfig()
        with replaced((os.path, 'exists', d.exists if comm.rank == 0 or late else lambda p: False), (os, 'mkdir', d.mkdir)):
            got = c.set_output_path('/base/name', comm)
        ctx.true(got == c.output_path, 'returned')
        return got, list(d.made), {k: v for k, v in d.known.items()}
    out = collective(size, prog)
    path = out[0][0]
    ctx.true(all(out[r][0] == path for r in range(size)), 'same folder for all processes')
    ctx.true(out[size - 1][1] == [os.path.normpath(path)], 'made once')


def alone(ctx, n):
    d = Disk(ctx, n)
    c = config.OutputConfig()
    with replaced((os.path, 'exists', d.exists), (os, 'mkdir', d.mkdir)):
        got = c.set_output_path('/base/name')
    ctx.true(got == c.output_path and d.made == [os.path.normpath(got)], 'one new folder')


def stored(ctx, shape):
    """results come back as they were stored; only the named file is removed"""
    x = ctx.cplx('x', shape) if shape else {'a': ctx.real('a', (2,)), 'b': ctx.real('b')}
    store = {}

    def save(name, m, **k):
        store[os.path.normpath(name)] = m

    def load(name, **k):
        m = store[os.path.normpath(name)]
        if isinstance(m, dict):
            r = np.empty((), dtype=object)
            r[()] = m
            return r.view(np.ndarray)
        return m
    c = config.OutputConfig()
    c.output_path = '/out'
    with replaced((np, 'save', save), (np, 'load', load)):
        c.save_data(x, 'res')
        ctx.true(list(store) == ['/out/res.npy'], 'file')
        r = c.load_data('res')
    if shape:
        ctx.eq(r, x, 'array')
    else:
        ctx.true(set(r) == {'a', 'b'}, 'keys')
        ctx.eq(r['a'], x['a'], 'array in a dictionary')
        ctx.eq(r['b'], x['b'], 'number in a dictionary')
    d = Disk(ctx, 2)
    d.known['/out/other.npy'] = True
    with replaced((os.path, 'isfile', d.exists), (os.path, 'exists', d.exists), (os, 'remove', d.remove)):
        there = d.exists('/out/res.npy')
        c.clean_data('res')
    ctx.true(d.removed == (['/out/res.npy'] if there else []), 'only the named file, if it is there')


def several(ctx):
    """many results in many folders: each comes back under its own name, the newest if stored twice; nothing else is touched"""
    store = {}

    def save(name, m, **k):
        store[os.path.normpath(name)] = np.array(m, dtype=m.dtype, copy=True, subok=True)

    def load(name, **k):
        return store[os.path.normpath(name)]
    cs = []
    for path in ('/out', '/out/Eliashberg', '/other'):
        c = config.OutputConfig()
        c.output_path = path
        cs.append((path, c))
    want = {}
    with replaced((np, 'save', save), (np, 'load', load)):
        for turn in range(2):
            for path, c in cs:
                for name in ('chi', 'chi_dens', 'res') if not turn else ('chi',):
                    x = want[path, name] = ctx.cplx(f'x{turn}{path}{name}', (2, 3))
                    keep = x.copy()
                    c.save_data(x, name)
                    ctx.eq(c.load_data(name), keep, 'stored array')
            for path, c in cs[::-1]:
                for name in ('res', 'chi', 'chi_dens'):
                    ctx.eq(c.load_data(name), want[path, name], 'array of this name in this folder')
        ctx.true(sorted(store) == sorted(f'{p}/{n}.npy' for p, n in want), 'files')
    gone = []
    for path, c in cs[1:]:
        with replaced((os.path, 'isfile', lambda p: os.path.normpath(p) in store), (os.path, 'exists', lambda p: os.path.normpath(p) in store),
                      (os, 'remove', lambda p: gone.append(os.path.normpath(p)))):
            c.clean_data('chi')
            c.clean_data('missing')
    ctx.true(gone == ['/out/Eliashberg/chi.npy', '/other/chi.npy'], 'only the named files of the folder are removed')


def fitted(ctx):
    """suggested number of frequencies and blur width"""
    b = ctx.int('b', 1, 3)
    lo, hi = ctx.int('lo', 1, 9), ctx.int('hi', 3, 7)
    m = config.MaxEntConfig.__new__(config.MaxEntConfig)
    m.beta, m.t = b, 1
    n = int(m.get_n_fit_opt(lo, hi))
    want = min(max(int(lo), 4 * int(b)), int(hi))
    ctx.true(n == want, 'number of frequencies')
    m.beta, m.t = ctx.pos('beta'), ctx.pos('t')
    ctx.eq(m.get_bw_opt() * m.beta * m.t, np.pi, 'blur width')


def cases(tier):
    out = []
    for s in ('eliash', 'optics', 'debug'):
        for k in ('plain', 'none', 'number', 'mapping'):
            out.append((written, dict(section=s, kind=k)))
            out.append((written, dict(section=s, kind=k, nested=True)))
    out.append((copied, {}))
    for size in (1, 2, 3):
        for given in (True, False):
            out.append((parsed, dict(size=size, given=given)))
    out.append((saved, {}))
    out.append((several, {}))
    for n in (0, 1, 3) + ((5,) if tier == 'thorough' else ()):
        for p in ('/a/name', '/a/Plots/', './LDGA_spch'):
            out.append((unique, dict(n=n, path=p)))
        out.append((alone, dict(n=n)))
        for size in (1, 2, 3):
            out.append((folder, dict(size=size, n=n)))
    for sh in ((2,), (2, 3), None):
        out.append((stored, dict(shape=sh)))
    out.append((fitted, {}))
    return out
