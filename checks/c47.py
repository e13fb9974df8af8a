"""C47 the log: who writes it, what it says about times and memory"""
import os
import re
import tempfile
import types
import numpy as np
from dga import loggers, util, two_point as twop
from common import replaced, make_cfg, make_giwk, lfp4, lfp3

EXPLANATION = ('the clock, the sizes of the objects and the number of copies are symbolic; the log is written to a scratch folder with a mark for every number, '
               'and the solver compares each number with the time passed, or the memory used, at that call')
OUTSIDE = 'the number of digits printed; clocks that run backwards'


class Marks:
    """numbers that leave a mark when they are printed"""

    def __init__(self):
        self.val = []

    def mark(self, x):
        self.val.append(x)
        return f'#{len(self.val) - 1}#'


class Amount:
    def __init__(self, x, marks):
        self.x, self.m = x, marks

    def _of(self, o):
        return o.x if isinstance(o, Amount) else o

    def __mul__(self, o):
        return Amount(self.x * self._of(o), self.m)

    __rmul__ = __mul__

    def __add__(self, o):
        return Amount(self.x + self._of(o), self.m)

    __radd__ = __add__

    def __sub__(self, o):
        return Amount(self.x - self._of(o), self.m)

    def __rsub__(self, o):
        return Amount(self._of(o) - self.x, self.m)

    def __truediv__(self, o):
        return Amount(self.x / self._of(o), self.m)

    def __pow__(self, n):
        return Amount(self.x ** n, self.m)

    def __round__(self, n=None):
        return self

    def __format__(self, spec):
        return self.m.mark(self.x)

    def __str__(self):
        return self.m.mark(self.x)


def clock(marks, now):
    """the time of day is the mark of the present moment; spans of time are marked with their length"""
    def delta(seconds=0, **k):
        return seconds + sum(v * {'minutes': 60, 'hours': 3600, 'milliseconds': 0.001}[a] for a, v in k.items())

    class Day:
        def __init__(self, x):
            self.x = x

        def strftime(self, f):
            return marks.mark(self.x)
    read = lambda: Amount(now[0], marks)
    t = types.SimpleNamespace(time=read, perf_counter=read, monotonic=read, strftime=lambda *a: marks.mark(now[0]))
    d = types.SimpleNamespace(timedelta=delta, datetime=types.SimpleNamespace(now=lambda *a: Day(now[0]), today=lambda *a: Day(now[0])))
    return replaced((loggers, 'time', t), (loggers, 'datetime', d))


def numbers(ctx, text, want, marks, label):
    got = [marks.val[int(i)] for i in re.findall(r'#(\d+)#', text)]
    ctx.true(len(got) == len(want), label + ': numbers')
    for g, w in zip(got, want):
        ctx.eq(g, w, label)


def log(ctx, calls, rank):
    """every call leaves one line, written by the first process"""
    marks, now = Marks(), [ctx.real('t0')]
    start = last = now[0]
    want = []
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'dga.log')
        with open(f, 'w') as old:
            old.write('an older log\n')
        with clock(marks, now):
            l = loggers.MpiLogger(logfile=f, comm=types.SimpleNamespace(rank=rank), output_path=d)
            ctx.true(l.is_root == (rank == 0) and l.out_dir == d, 'who writes')
            for i, c in enumerate(calls):
                now[0] = now[0] + ctx.pos(f'd{i}')
                if c == 'message':
                    l.log_message(f'message {i}')
                    want.append(([now[0]], f'message {i}'))
                elif c == 'memory':
                    a, b, n = ctx.pos(f'a{i}'), ctx.pos(f'b{i}'), ctx.pos(f'n{i}')
                    l.log_memory_usage(f'object {i}', types.SimpleNamespace(size=Amount(a, marks), itemsize=Amount(b, marks)), **({} if i % 2 else dict(n_exists=n)))
                    want.append(([now[0], a * b * 1e-9 * (1 if i % 2 else n)], f'object {i}'))
                else:
                    if c == 'task':
                        l.log_cpu_time(task=f'task {i}')
                    else:
                        l.log_event(f'task {i}')
                    want.append(([now[0], now[0] - start, now[0] - last], f'task {i}'))
                    last = now[0]
        lines = open(f).read().splitlines()
    if rank:
        ctx.true(lines == ['an older log'], 'the others leave the log alone')
        return
    ctx.true(len(lines) == len(calls) + 1 and 'older' not in lines[0], 'one line for every call in a new log')
    for x, (v, name) in zip(lines[1:], want):
        ctx.true(name in x, 'the line names its subject')
        numbers(ctx, x, v, marks, 'time and amount')


def timer(ctx, calls, rank):
    """the stop watch: every span is the time since the previous reading"""
    marks, now = Marks(), [ctx.real('t0')]
    start = last = now[0]
    want = []
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'cpu_time.txt')
        with clock(marks, now):
            r = loggers.RealTime()
            r.create_file(f)
            for i, c in enumerate(calls):
                now[0] = now[0] + ctx.pos(f'd{i}')
                if c == 'total':
                    numbers(ctx, str(r.tot_time()), [now[0] - start], marks, 'time since the start')
                    continue
                if c == 'task':
                    numbers(ctx, str(r.task_time()), [now[0] - last], marks, 'time of the task')
                elif c == 'string':
                    numbers(ctx, r.string_time(f'step {i}'), [now[0] - last], marks, 'time of the step')
                elif c == 'measure':
                    r.measure_time()
                else:
                    r.write_time_to_file(string=f'step {i}', rank=rank)
                    if rank:
                        continue
                    want.append((f'step {i}', now[0] - last))
                last = now[0]
        lines = open(f).read().splitlines()
    ctx.true(len(lines) == len(want), 'one line for every measured step of the first process')
    for x, (name, v) in zip(lines, want):
        ctx.true(x.startswith(name), 'the line names the step')
        numbers(ctx, x, [v], marks, 'time of the step')


def estimate(ctx):
    """sizes announced before they are needed: propagator, vertex, bubble and full vertex, each with its mesh and frequencies"""
    marks = Marks()
    cfg = make_cfg(ctx, nk=(4, 2, 1), nq=(2, 3, 1), niw=1, niv=2)
    v = {n: ctx.pos(n) for n in ('niv_core', 'niw_core', 'niv_shell', 'niv_asympt')}
    for n, x in v.items():
        setattr(cfg.box, n, Amount(x, marks))
    said = []
    cfg.logger = types.SimpleNamespace(log_message=said.append)
    cfg.log_estimated_memory_consumption()
    item = np.zeros(1, dtype=complex).itemsize * 1e-9
    nv, nw, nf = 2 * v['niv_core'], 2 * v['niw_core'] + 1, 2 * (v['niv_core'] + v['niv_shell'])
    ctx.true(len(said) == 1, 'one message')
    found = dict((n, i) for n, i in re.findall(r"(\w+): *\[?#(\d+)#\]?", said[0]))
    want = {'giwk': 8 * (nf + 2 * v['niv_asympt']), 'vrg': 6 * nw * nv, 'chi0q': 6 * nw * nf, 'f_cond': 6 * nw * nv ** 3}
    ctx.true(sorted(found) == sorted(want), 'what is announced')
    for n, x in want.items():
        ctx.eq(marks.val[int(found[n])] / item, x, 'memory of ' + n)


def memory(ctx, what):
    """reported sizes are those of the data held"""
    beta, a, b = ctx.pos('beta'), ctx.pos('a'), ctx.pos('b')
    part = types.SimpleNamespace(size=a, itemsize=b)
    if what == 'array':
        for shape in ((2, 3), (4,), (1, 2, 2, 5)):
            x = np.zeros(shape, dtype=np.complex128)
            ctx.true(abs(float(util.mem(x)) - x.itemsize * 1e-9 * int(np.prod(shape))) < 1e-13, 'memory of an array')
    elif what in ('full', 'core'):
        g, _ = make_giwk(ctx, (1, 1, 1), 1, beta)
        other = types.SimpleNamespace(size=ctx.pos('c'), itemsize=ctx.pos('e'))
        g.core, g.full = (part, None) if what == 'core' else (other, part)
        ctx.eq(g.size, a, 'number of elements'), ctx.eq(g.itemsize, b, 'size of an element'), ctx.eq(g.mem, a * b * 1e-9, 'memory of the propagator')
    else:
        for make, shape in ((lfp4, (3, 2, 2)), (lfp3, (3, 2))):
            v = make(ctx, 'dens', ctx.cplx(f'v{len(shape)}', shape), beta, ctx.real('u'))
            v.mat = part
            ctx.eq(v.size, a, 'number of elements'), ctx.eq(v.itemsize, b, 'size of an element')


def cases(tier):
    out = [(memory, dict(what=w)) for w in ('array', 'full', 'core', 'vertex')] + [(estimate, {})]
    for rank in (0, 1, 2):
        for c in (('event', 'message', 'task', 'memory', 'event'), ('memory', 'memory', 'message', 'event'), ('task',) * 4, ('message', 'event', 'event')):
            out.append((log, dict(calls=c, rank=rank)))
        for c in (('string', 'task', 'total', 'write', 'string'), ('write', 'write', 'total', 'task', 'total'), ('measure', 'string', 'measure', 'measure', 'write')):
            out.append((timer, dict(calls=c, rank=rank)))
    if tier != 'quick':
        import itertools
        out += [(log, dict(calls=c, rank=0)) for c in itertools.product(('event', 'message', 'task', 'memory'), repeat=4)]
        out += [(timer, dict(calls=c, rank=0)) for c in itertools.product(('string', 'task', 'total', 'write', 'measure'), repeat=4)]
    return out
