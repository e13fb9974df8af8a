"""C32 distribution of tasks and collection of results over processes"""
import numpy as np
from dga import mpi_aux
from common import H5, replaced
from vsym.harness import HarnessError

EXPLANATION = ('symbolic data; every process of every listed size is run through the real code against a communicator that moves the flattened '
               'buffers as MPI does (counts and contiguous displacements); reference: rank r owns the r-th block of tasks')
OUTSIDE = 'the MPI library itself; more processes and tasks than listed'


class Group:
    """what all processes of a run hand to their collective calls, in call order"""

    def __init__(self, size):
        self.size, self.sent, self.first = size, {}, True


class Rank:
    def __init__(self, group, rank):
        self.g, self.rank, self.size, self.n = group, rank, group.size, 0

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def step(self, kind, data):
        k = self.n
        self.n += 1
        self.g.sent.setdefault(k, {})[self.rank] = (kind, data)
        return k

    def others(self, k, kind):
        d = self.g.sent[k]
        if any(x[0] != kind for x in d.values()):
            raise RuntimeError('processes call different collectives')
        return {r: x[1] for r, x in d.items()}

    def bcast(self, data, root=0):
        k = self.step('bcast', data)
        return self.others(k, 'bcast').get(root, data)

    @staticmethod
    def put(buf, vals):
        flat = buf.reshape(-1)
        if len(flat) < len(vals):
            raise RuntimeError('message truncated')
        for i, x in enumerate(vals):
            flat[i] = x
        buf[...] = flat.reshape(buf.shape)

    def counts(self, c):
        c = [float(x) for x in np.asarray(c).reshape(-1)]
        if len(c) != self.size or any(x != int(x) for x in c):
            raise RuntimeError('wrong counts')
        return [int(x) for x in c]

    @staticmethod
    def kinds(a, b):
        if object not in (a.dtype, b.dtype) and a.dtype != b.dtype:
            raise RuntimeError('message of another type')

    def Scatterv(self, send, recv, root=0):
        k = self.step('scatterv', send)
        full, cnt = self.others(k, 'scatterv')[root]
        self.kinds(full, recv)
        cnt = self.counts(cnt)
        flat = full.reshape(-1)
        if sum(cnt) > len(flat):
            raise RuntimeError('buffer too small')
        off = sum(cnt[:self.rank])
        self.put(recv, flat[off:off + cnt[self.rank]])

    def collect(self, kind, send, recv):
        k = self.step(kind, send.copy())
        d = self.others(k, kind)
        tot, cnt = recv
        if len(d) < self.size:
            tot[...] = 0  # first round: nothing known yet
            return False
        cnt = self.counts(cnt)
        out = []
        for r in range(self.size):
            self.kinds(d[r], tot)
            x = d[r].reshape(-1)
            if len(x) != cnt[r]:
                raise RuntimeError('message truncated')
            out += list(x)
        self.put(tot, out)
        return True

    def Gatherv(self, send, recv, root=0):
        k = self.n
        if self.rank != root:
            self.step('gather', send.copy())
        else:
            self.collect('gather', send, recv)

    def Allgatherv(self, send, recv):
        self.collect('allgather', send, recv)

    def Allreduce(self, send, recv):
        k = self.step('allreduce', send.copy())
        d = self.others(k, 'allreduce')
        if len(d) == self.size:
            t = 0
            for r in range(self.size):
                self.kinds(d[r], recv)
                t = t + d[r]
            recv[...] = t


def run(size, ntasks, prog, order):
    """every process runs prog twice: first to learn what each one sends, then with all messages available"""
    g = Group(size)
    out = {}
    for turn in (0, 1):
        for r in order:
            out[r] = prog(mpi_aux.MpiDistributor(ntasks=ntasks, comm=Rank(g, r)))
    return out


def partition(ctx, ntasks, size):
    """each task belongs to exactly one process, contiguous, in order, loads differ by at most one"""
    ds = [mpi_aux.MpiDistributor(ntasks=ntasks, comm=Rank(Group(size), r)) for r in range(size)]
    own = [[int(t) for t in d.my_tasks] for d in ds]
    ctx.true(sum(own, []) == list(range(ntasks)), 'every task exactly once, in rank order')
    ctx.true(max(map(len, own)) - min(map(len, own)) <= 1, 'balanced')
    data = ctx.real('x', (ntasks,))
    for r, d in enumerate(ds):
        ctx.true(int(d.my_size) == len(own[r]) and [int(x) for x in d.sizes] == [len(o) for o in own], 'sizes')
        ctx.true(d.is_root == (r == 0) and d.my_rank == r and d.mpi_size == size and d.ntasks == ntasks, 'attributes')
        s = data[d.my_slice]
        ctx.true(len(s) == len(own[r]), 'slice length')
        for i, t in enumerate(own[r]):
            ctx.eq(s[i], data[t], 'slice selects the own tasks')


def owned(ntasks, size):
    ds = [mpi_aux.MpiDistributor(ntasks=ntasks, comm=Rank(Group(size), r)) for r in range(size)]
    return [[int(t) for t in d.my_tasks] for d in ds]


def scatter(ctx, ntasks, size, extra, root):
    full = ctx.cplx('f', (ntasks,) + tuple(extra))
    keep = full.copy()
    order = [root] + [r for r in range(size) if r != root]
    res = run(size, ntasks, lambda d: d.scatter(full if d.my_rank == root else None, root=root), order)
    for r, own in enumerate(owned(ntasks, size)):
        ctx.true(res[r].shape == (len(own),) + tuple(extra), 'shape of the own part')
        for i, t in enumerate(own):
            ctx.eq(res[r][i], full[t], 'data of the own tasks')
    ctx.eq(full, keep, 'input unchanged')
    # and back
    got = run(size, ntasks, lambda d: d.gather(res[d.my_rank], root=root), order[1:] + [root])
    ctx.eq(got[root], full, 'gather undoes scatter')
    got = run(size, ntasks, lambda d: d.allgather(res[d.my_rank]), order)
    for r in range(size):
        ctx.eq(got[r], full, 'allgather undoes scatter on every process')


def sequence(ctx, ntasks, size):
    """one distributor used again and again: data of different shape and kind, roots in turn; earlier results stay"""
    last = size - 1
    x, y, z = ctx.cplx('x', (ntasks, 2)), ctx.cplx('y', (ntasks,)), ctx.real('z', (ntasks, 1, 3))
    whole = np.arange(10, 10 + ntasks)
    parts = [ctx.cplx(f'p{r}', (2,)) for r in range(size)]

    def prog(d):
        r = d.my_rank
        a = d.scatter(x if r == 0 else None)
        b = d.scatter(y if r == last else None, root=last)
        c = d.scatter(z if r == 0 else None, root=0)
        e = d.scatter(whole if r == last else None, root=last)
        out = [a, b, c, e]
        out += [d.gather(a, root=last), d.gather(b), d.allgather(c), d.allgather(e), d.allreduce(parts[r]), d.bcast(parts[r], root=last), d.bcast(parts[r]),
                d.allreduce(2 * parts[r]), d.allgather(a)]
        return out
    g = Group(size)
    res = {}
    for turn in range(6):
        for r in range(size):
            try:
                res[r] = prog(mpi_aux.MpiDistributor(ntasks=ntasks, comm=Rank(g, r)))
            except TypeError:  # messages of another process are not known yet
                if turn == 5:
                    raise
    total = sum(parts[r] for r in range(size))
    for r, own in enumerate(owned(ntasks, size)):
        a, b, c, e, ga, gb, ac, ae, red, bl, b0, red2, aa = res[r]
        for got, full in ((a, x), (b, y), (c, z), (e, whole)):
            ctx.true(got.shape == (len(own),) + full.shape[1:], 'shape of the own part')
            for i, t in enumerate(own):
                ctx.eq(got[i], full[t], 'data of the own tasks')
        ctx.true(np.asarray(e).dtype.kind == 'i' and np.asarray(ae).dtype.kind == 'i', 'integers stay integers')
        ctx.eq(ac, z, 'collected everywhere'), ctx.eq(ae, whole, 'collected everywhere'), ctx.eq(aa, x, 'collected everywhere')
        ctx.eq(red, total, 'sum'), ctx.eq(red2, 2 * total, 'second sum')
        ctx.eq(bl, parts[last], 'data of the last process'), ctx.eq(b0, parts[0], 'data of the first process')
        if r == last:
            ctx.eq(ga, x, 'collected on the last process')
        if r == 0:
            ctx.eq(gb, y, 'collected on the first process')


def reduce(ctx, size, shape):
    parts = [ctx.cplx(f'p{r}', tuple(shape)) for r in range(size)]
    keep = [p.copy() for p in parts]
    res = run(size, size, lambda d: d.allreduce(parts[d.my_rank]), list(range(size)))
    t = 0
    for p in keep:
        t = t + p
    for r in range(size):
        ctx.eq(res[r], t, 'sum over the processes, on every process')
        ctx.eq(parts[r], keep[r], 'input unchanged')


def broadcast(ctx, size, root):
    parts = [ctx.cplx(f'p{r}', (2,)) for r in range(size)]
    res = run(size, size, lambda d: d.bcast(parts[d.my_rank], root=root), list(range(size)))
    for r in range(size):
        ctx.eq(res[r], parts[root], 'data of the root on every process')
    if root == 0:
        res = run(size, size, lambda d: d.bcast(parts[d.my_rank]), list(range(size)))
        for r in range(size):
            ctx.eq(res[r], parts[0], 'first process unless stated')


def files(ctx, size):
    """each process has its own file, opened for the duration of a block, nothing lost between blocks"""
    h5 = H5()
    with replaced((mpi_aux, 'h5py', h5)):
        ds = [mpi_aux.MpiDistributor(ntasks=size, comm=Rank(Group(size), r), output_path='/nonexistent' + '/' * (r % 2), name='Q') for r in range(size)]
        ctx.true(sorted(h5.files) == sorted(f'/nonexistent/QRank{r:05d}.hdf5' for r in range(size)), 'one file per process')
        xs = [ctx.cplx(f'x{r}', (2,)) for r in range(size)]
        for d, x in zip(ds, xs):
            with d as f:
                f['a/b'] = x
            ctx.true(not d.file, 'closed after the block')
        for d, x in zip(ds, xs):
            with d as f:
                f['a/c'] = 2 * x
        for d, x in zip(ds, xs):
            with d as f:
                ctx.eq(f['a/b'][()], x, 'first dataset')
                ctx.eq(f['/a/c/'][()], 2 * x, 'second dataset')


def cases(tier):
    th = tier != 'quick'
    out = []
    for size in range(1, 9 if th else 6):
        for nt in range(1, 26 if th else 13):
            out.append((partition, dict(ntasks=nt, size=size)))
    for nt, size in ((100, 7), (257, 16), (64, 64), (63, 64), (1000, 24), (1025, 33)):
        out.append((partition, dict(ntasks=nt, size=size)))
    for nt, size, extra, root in ((1, 1, (), 0), (5, 1, (2,), 0), (5, 2, (), 0), (7, 3, (2, 3), 0), (4, 4, (1,), 0), (3, 4, (2,), 0), (5, 3, (2,), 1), (6, 3, (), 2), (101, 12, (), 0), (16, 16, (2,), 11)) + \
            (((12, 5, (2, 2), 0), (17, 8, (3,), 0), (9, 8, (2, 1, 2), 5)) if th else ()):
        out.append((scatter, dict(ntasks=nt, size=size, extra=extra, root=root)))
    for nt, size in ((4, 1), (5, 2), (7, 3), (2, 3)):
        out.append((sequence, dict(ntasks=nt, size=size)))
    for size in (1, 2, 3, 5):
        out.append((reduce, dict(size=size, shape=(2, 3))))
        out.append((reduce, dict(size=size, shape=(1,))))
    for size, root in ((1, 0), (3, 0), (3, 2)):
        out.append((broadcast, dict(size=size, root=root)))
    for size in (1, 3):
        out.append((files, dict(size=size)))
    return out
