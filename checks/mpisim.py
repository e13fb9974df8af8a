"""Processes of one run, simulated in one interpreter: every process is a thread, exactly one of them runs at a time, and it hands over only
where it has to wait in a collective call.  The order in which runnable processes are picked is given, so each run is deterministic."""
import threading
import numpy as np
from vsym.harness import Violation, HarnessError


class _Stop(BaseException):
    pass


_LOCAL = threading.local()


def flat(a):
    """the elements of a buffer in the order in which they lie in memory, as MPI sends them"""
    a = np.asarray(a) if not isinstance(a, np.ndarray) else a
    if a.flags.c_contiguous or a.ndim < 2:
        return a.reshape(-1)
    if a.flags.f_contiguous:
        return a.T.reshape(-1)
    raise ValueError('ndarray is not contiguous')


class World:
    def __init__(self, size, order=None):
        self.size, self.order = size, list(order or range(size))
        self.calls, self.main = {}, threading.Semaphore(0)
        self.turn = [threading.Semaphore(0) for _ in range(size)]
        self.wait = [None] * size
        self.done = [False] * size
        self.stop, self.error = False, None

    def run(self, prog):
        out = [None] * self.size
        state = np.geterr()

        def body(r):
            self.turn[r].acquire()
            try:
                if not self.stop:
                    _LOCAL.comm = Process(self, r)
                    with np.errstate(**state):
                        out[r] = prog(_LOCAL.comm)
            except _Stop:
                pass
            except BaseException as e:  # noqa
                self.error = self.error or e
            self.done[r] = True
            self.main.release()
        ts = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(self.size)]
        for t in ts:
            t.start()
        try:
            while not all(self.done) and self.error is None:
                ready = [r for r in self.order if not self.done[r] and (self.wait[r] is None or self.wait[r]())]
                if not ready:
                    raise Violation('processes', 'all remaining processes wait for each other')
                self.wait[ready[0]] = None
                self.turn[ready[0]].release()
                self.main.acquire()
        finally:
            self.stop = True
            for r in range(self.size):
                if not self.done[r]:
                    self.turn[r].release()
            for t in ts:
                t.join(5)
        if self.error is not None:
            raise self.error
        return out

    def block(self, rank, cond):
        if cond():
            return
        self.wait[rank] = cond
        self.main.release()
        self.turn[rank].acquire()
        if self.stop:
            raise _Stop()


class Process:
    """communicator as one process sees it"""

    def __init__(self, world, rank):
        self.w, self.rank, self.size, self.n = world, rank, world.size, 0

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def enter(self, kind, root, data):
        k = self.n
        self.n += 1
        d = self.w.calls.setdefault(k, {})
        for r, x in d.items():
            if x[0] != (kind, root):
                raise Violation('processes', f'process {r} is in {x[0]}, process {self.rank} in {(kind, root)}')
        d[self.rank] = ((kind, root), data)
        return d

    def everyone(self, d):
        self.w.block(self.rank, lambda: len(d) == self.size)

    def barrier(self):
        self.everyone(self.enter('barrier', 0, None))

    Barrier = barrier

    def bcast(self, data=None, root=0):
        d = self.enter('bcast', root, data)
        self.w.block(self.rank, lambda: root in d)
        return d[root][1]

    def counts(self, c):
        c = [float(x) for x in np.asarray(c).reshape(-1)]
        if len(c) != self.size or any(x != int(x) for x in c):
            raise Violation('processes', 'counts do not fit the number of processes')
        return [int(x) for x in c]

    @staticmethod
    def put(buf, vals):
        if buf.size < len(vals):
            raise ValueError('message truncated')
        if not buf.flags.c_contiguous:
            raise ValueError('ndarray is not contiguous')
        for i, x in zip(np.ndindex(*buf.shape), vals):
            buf[i] = x

    def Scatterv(self, send, recv, root=0):
        d = self.enter('scatterv', root, None if self.rank != root else (flat(send[0]).copy(), self.counts(send[1])))
        self.w.block(self.rank, lambda: root in d)
        full, cnt = d[root][1]
        off = sum(cnt[:self.rank])
        self.put(recv, full[off:off + cnt[self.rank]])

    def collected(self, d, recv):
        tot, cnt = recv
        cnt = self.counts(cnt)
        out = []
        for r in range(self.size):
            if len(d[r][1]) != cnt[r]:
                raise ValueError('message truncated')
            out += list(d[r][1])
        self.put(tot, out)

    def Gatherv(self, send, recv, root=0):
        d = self.enter('gatherv', root, flat(send).copy())
        if self.rank == root:
            self.everyone(d)
            self.collected(d, recv)

    def Allgatherv(self, send, recv):
        d = self.enter('allgatherv', 0, flat(send).copy())
        self.everyone(d)
        self.collected(d, recv)

    def Allreduce(self, send, recv):
        d = self.enter('allreduce', 0, flat(send).copy())
        self.everyone(d)
        if len({len(x[1]) for x in d.values()}) > 1:
            raise ValueError('message truncated')
        t = 0
        for r in range(self.size):
            t = t + d[r][1]
        self.put(recv, list(t))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise HarnessError(f'communicator: {n} is not modelled')


class Current:
    """stands for the world communicator of a module: the communicator of the process that runs at the moment"""

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(_LOCAL.comm, n)


def rank():
    return _LOCAL.comm.rank
