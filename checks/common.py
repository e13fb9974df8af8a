"""Shared construction of the repository's objects on symbolic / numeric data."""
import os
import numpy as np
from dga import matsubara_frequencies as mf
from dga import two_point as twop
from dga import local_four_point as lfp
from dga import bubble as bub


def sym_g(ctx, name, nk, niv, real_time=True):
    """G[kx,ky,kz,v] or G[v] (nk=()) with G(-v) = G(v)^*"""
    p = ctx.cplx(name, tuple(nk) + (niv,))
    return np.concatenate((np.conj(p[..., ::-1]), p), axis=-1) if real_time else ctx.cplx(name, tuple(nk) + (2 * niv,))


def make_giwk(ctx, nk, niv, beta, mu=None, smom0=0, smom1=0, ek=None, g=None, symmetric=True):
    """a genuine Green's function object whose values are then replaced by free symbolic ones"""
    if mu is None:
        mu = 0
    sig = ctx.zeros(tuple(nk) + (niv,))
    s = twop.SelfEnergy(sig, beta, pos=True, smom0=smom0, smom1=smom1, niv_core=niv)
    ek0 = ctx.zeros(tuple(nk)) if ctx.sym else np.zeros(tuple(nk))
    ctx.assume(beta * (smom0 - mu) < 20)
    obj = twop.GreensFunction(s, ek0, mu=mu, niv_asympt=0)
    if ek is not None:
        obj.ek = ek
    if g is None:
        g = sym_g(ctx, 'g', nk, niv, symmetric)
    obj.core = g
    obj.asympt = ctx.zeros(tuple(nk) + (0,))
    obj.niv_asympt = 0
    obj.full = g
    obj.g_loc = g.mean(axis=(0, 1, 2)) if not ctx.sym else sum(g[ix] for ix in np.ndindex(*nk)) / int(np.prod(nk))
    return obj, g


def lfp4(ctx, channel, mat, beta, u, wn=None):
    if wn is None:
        return lfp.LocalFourPoint(channel=channel, mat=mat, beta=beta, u=u, is_full_w=True)
    return lfp.LocalFourPoint(channel=channel, mat=mat, beta=beta, u=u, wn=wn)


def lfp3(ctx, channel, mat, beta, u, wn=None):
    if wn is None:
        return lfp.LocalThreePoint(channel=channel, mat=mat, beta=beta, u=u, is_full_w=True)
    return lfp.LocalThreePoint(channel=channel, mat=mat, beta=beta, u=u, wn=wn)


def ur(channel, u):
    return {'dens': u, 'magn': -u, 'updo': u, 'upup': -u}[channel]


def roll(a, q):
    """a(k - q) on the first three axes"""
    nk = a.shape[:3]
    out = a.copy()
    for ix in np.ndindex(*nk):
        out[ix] = a[tuple((i - qi) % n for i, qi, n in zip(ix, q, nk))]
    return out


def kmean(a):
    nk = a.shape[:3]
    t = 0
    for ix in np.ndindex(*nk):
        t = t + a[ix]
    return t / int(np.prod(nk))


def legs(notation, w):
    return {'plus': (0, w), 'minus': (0, -w), 'center': (w // 2, -(w // 2 + w % 2))}[notation]


def all_q(nk):
    return [tuple(int(i) for i in ix) for ix in np.ndindex(*nk)]


def inv_sym(a):
    """copy of a[kx,ky,kz,...] with a(-k) = a(k)"""
    nk = a.shape[:3]
    out = a.copy()
    for ix in np.ndindex(*nk):
        m = tuple((-i) % n for i, n in zip(ix, nk))
        out[ix] = a[min(ix, m)]
    return out


def diag(ctx, d):
    m = ctx.zeros((len(d), len(d)))
    for i, x in enumerate(d):
        m[i, i] = x
    return m


def extend(ctx, core, val, nsh):
    """core matrix surrounded by a shell of width nsh filled with val"""
    n = core.shape[-1] + 2 * nsh
    m = ctx.zeros((n, n))
    m[...] = val
    m[nsh:n - nsh, nsh:n - nsh] = core
    return m


def minv(ctx, a):
    return np.linalg.inv(a)


def total(a):
    t = 0
    for x in np.asarray(a).reshape(-1):
        t = t + x
    return t


class NoOp:
    """stands for loggers and plotting: every call does nothing"""

    def __getattr__(self, n):
        return self

    def __call__(self, *a, **k):
        return self

    def __bool__(self):
        return True


class Comm:
    """communicator of one process with the given rank (collectives of several ranks: see checks/c32.py)"""

    def __init__(self, rank=0, size=1):
        self.rank, self.size = rank, size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def bcast(self, data, root=0):
        return data

    def barrier(self):
        pass

    Barrier = barrier


import contextlib


def fits(f, then=None):
    """does nothing, but only for arguments that f takes (which are handed on by name)"""
    import inspect
    sig = inspect.signature(f)

    def g(*a, **k):
        try:
            b = sig.bind(*a, **k)
        except TypeError as e:
            raise Violation(f'{f.__name__} is called with what it takes', str(e))
        if then is not None:
            b.apply_defaults()
            then(**b.arguments)
    return g


@contextlib.contextmanager
def no_plots():
    """plotting does nothing while the block runs"""
    import types
    from dga import plotting
    saved = []
    for n, f in list(vars(plotting).items()):
        if isinstance(f, types.FunctionType):
            saved.append((plotting, n, f))
            setattr(plotting, n, fits(f))
    for c in (lfp.LocalFourPoint, lfp.LocalThreePoint):
        saved.append((c, 'plot', c.__dict__['plot']))
        c.plot = fits(c.__dict__['plot'])
    try:
        yield
    finally:
        for o, n, f in saved:
            setattr(o, n, f)


def make_cfg(ctx, nk=(2, 2, 1), nq=None, symmetries=(), niw=1, niv=1, nsh=0, beta=1.0, u=1.0, n=1.0, comm=None, hr=(1.0, -0.2, 0.1),
             box=None, **sections):
    from dga import config
    conf = {'box_sizes': dict(niw_core=niw, niv_core=niv, niv_shell=nsh, **(box or {})),
            'lattice': {'nk': list(nk), 'nq': list(nq or nk), 'symmetries': symmetries, 'type': 't_tp_tpp', 'hr_input': list(hr)}}
    conf.update(sections)
    cfg = config.DgaConfig(conf, comm=comm if comm is not None else Comm())
    cfg.sys = config.DmftInput(n, 1.0, u, 0.0, None, None)
    cfg.sys.beta = beta
    cfg.logger = NoOp()
    cfg.output_path = '/nonexistent-output/'
    cfg.pdir = '/nonexistent-plots/'
    return cfg


class H5:
    """stands for the h5py module: files live in memory (names and groups as in HDF5, an existing dataset cannot be created again)"""

    def __init__(self):
        self.files = {}

    def File(self, name, mode='r'):
        name = os.path.normpath(str(name))
        if mode in ('r', 'r+') and name not in self.files:
            raise FileNotFoundError(name)
        if mode in ('w-', 'x') and name in self.files:
            raise FileExistsError(name)
        if mode == 'w':
            self.files[name] = {}
        return H5File(self.files.setdefault(name, {}), mode)


class H5File:
    def __init__(self, data, mode):
        self.data, self.mode, self.open = data, mode, True
        self.file = self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.open = False

    def __bool__(self):
        return self.open

    @staticmethod
    def norm(k):
        return '/'.join(p for p in k.split('/') if p)

    def keys(self):
        return sorted(set(k.split('/')[0] for k in self.data))

    def __iter__(self):
        return iter(self.keys())

    def __contains__(self, k):
        k = self.norm(k)
        return any(d == k or d.startswith(k + '/') for d in self.data)

    def __setitem__(self, k, v):
        if not self.open:
            raise ValueError('file is closed')
        if self.mode == 'r':
            raise ValueError('file is read only')
        k = self.norm(k)
        if k in self:
            raise OSError('name already exists: ' + k)
        if isinstance(v, H5Group):
            for d in [d for d in v.f.data if d.startswith(v.k + '/')]:
                self.data[k + d[len(v.k):]] = v.f.data[d]
            return
        if isinstance(v, H5Set):
            self.data[k] = v.a
            return
        self.data[k] = np.array(v)if not hasattr(v, 'dtype') else v.copy()

    def __delitem__(self, k):
        k = self.norm(k)
        if k not in self:
            raise KeyError(k)
        for d in [d for d in self.data if d == k or d.startswith(k + '/')]:
            del self.data[d]

    def create_group(self, k):
        return H5Group(self, self.norm(k))

    def copy(self, k, other):
        other[k] = self[k]

    def create_dataset(self, k, shape=None, dtype=None, data=None, **kw):
        self[k] = data
        return self[k]

    def __getitem__(self, k):
        if not self.open:
            raise ValueError('file is closed')
        k = self.norm(k)
        if k in self.data:
            return H5Set(self.data[k])
        if k in self:
            return H5Group(self, k)
        raise KeyError(k)


class H5Group:
    def __init__(self, f, k):
        self.f, self.k, self.file = f, k, f

    def __getitem__(self, n):
        return self.f[self.k + '/' + n]

    def __setitem__(self, n, v):
        self.f[self.k + '/' + n] = v

    def create_group(self, n):
        return self.f.create_group(self.k + '/' + n)

    @property
    def attrs(self):
        return self.f.data[self.k + '/.attrs']

    def keys(self):
        return sorted(set(d[len(self.k) + 1:].split('/')[0] for d in self.f.data if d.startswith(self.k + '/')))

    def __iter__(self):
        return iter(self.keys())

    def __contains__(self, n):
        return n in self.keys()


class H5Set:
    def __init__(self, a):
        self.a = a
        self.shape, self.dtype = np.shape(a), a.dtype
        self.ndim, self.size = len(self.shape), int(np.prod(self.shape))

    def __len__(self):
        return self.shape[0]

    def __getitem__(self, ix):
        r = self.a[ix]
        return r.copy() if hasattr(r, 'copy') else r

    def __setitem__(self, ix, v):
        self.a[ix] = v

    def __array__(self, *a, **k):
        return np.asarray(self.a[()], *a, **k)


class Store(dict):
    """what np.save wrote: path as the file system sees it -> array"""

    @staticmethod
    def name(f):
        f = os.path.normpath(str(f))
        return f if f.endswith('.npy') else f + '.npy'

    def save(self, f, mat, **k):
        self[f] = mat

    def __setitem__(self, f, v):
        dict.__setitem__(self, self.name(f), v)

    def __getitem__(self, f):
        return dict.__getitem__(self, self.name(f))

    def setdefault(self, f, v):
        return dict.setdefault(self, self.name(f), v)


def standin(real, f):
    """f called the way the repository calls real: keyword and positional arguments are told apart by real's own signature; f's parameters get the
    argument of the same name, else the one at the same place"""
    import functools
    import inspect
    import types
    from vsym.harness import HarnessError
    if not (isinstance(real, (types.FunctionType, type)) and isinstance(f, (types.FunctionType, type)) and (real.__module__ or "").split('.')[0] in ('dga', 'ana_cont', 'postproc', 'cli')):
        return f
    try:
        sig = inspect.signature(real)
    except (ValueError, TypeError):
        return f
    K = inspect.Parameter
    if any(p.kind in (K.VAR_POSITIONAL, K.VAR_KEYWORD) for p in sig.parameters.values()):
        return f
    names = list(sig.parameters)
    mine = list(inspect.signature(f).parameters.values())

    def call(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        val = dict(b.arguments)
        pos, kw, used = [], {}, set()
        for i, p in enumerate(mine):
            if p.kind == K.VAR_POSITIONAL:
                rest = [n for n in names if n not in used and n not in [q.name for q in mine]]
                pos += [val[n] for n in rest]
                used |= set(rest)
            elif p.kind == K.VAR_KEYWORD:
                kw.update({n: val[n] for n in names if n not in used})
            else:
                n = p.name if p.name in val else names[i] if i < len(names) and names[i] not in [q.name for q in mine] else None
                if n is None:
                    if p.default is K.empty:
                        raise HarnessError(f'{real.__name__} has no argument {p.name}')
                    continue
                used.add(n)
                if p.kind == K.KEYWORD_ONLY or len(pos) != i:
                    kw[p.name] = val[n]
                else:
                    pos.append(val[n])
        return f(*pos, **kw)
    return call


@contextlib.contextmanager
def replaced(*triples):
    """(object, attribute, value) ... for the duration of the block"""
    old = []
    try:
        for o, a, v in triples:
            real = getattr(o, a)
            old.append((o, a, real))
            setattr(o, a, standin(real, v))
        yield
    finally:
        for o, a, v in reversed(old):
            setattr(o, a, v)


def random_numbers(rnd):
    """numbers drawn between zero and one are the given ones"""
    class Rng:
        random = uniform = staticmethod(lambda *a, **k: rnd.copy())
    names = ('random_sample', 'random', 'rand', 'ranf', 'sample', 'uniform')
    return replaced(*[(np.random, n, lambda *a, **k: rnd.copy()) for n in names], (np.random, 'default_rng', lambda *a, **k: Rng))


def distributor(cls, rank, size, ntasks):
    return cls(ntasks=ntasks, comm=Comm(rank, size), output_path='/nonexistent-output/', name='Q')
