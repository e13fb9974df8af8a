"""Harness context: the same harness runs symbolically (solver decides) and numerically (replay / cross-validation)."""
import math
import random
import re
import signal
import sys
import time
import traceback
import json
import os
import numpy as np
from fractions import Fraction
from . import poly as P
from . import scalar, arr, paths, z3conv
from .scalar import S, lift, Unsupported
from .sint import SInt
from .arr import SymArray, symbolic_numpy
import z3


def _nterms(x):
    return sum(len(n) for n in x.parts.values()) if type(x) is scalar.L else len(x.num)


class Violation(Exception):
    def __init__(self, label, detail):
        super().__init__(f'{label}: {detail}')
        self.label, self.detail = label, detail


class SkipCase(Exception):
    pass


class HarnessError(Exception):
    """the harness could not be set up (not a property failure)"""


TOL = 1e-7


class Ctx:
    """mode 'sym' or 'num'"""

    def __init__(self, mode, assignment=None, seed=0):
        self.mode = mode
        self.sym = mode == 'sym'
        self.assignment = dict(assignment or {})
        self.used = {}
        self.rng = random.Random(seed)
        self.labels = []
        self.nvars = 0
        self.kinds = {}
        self.calls = 0

    # ------------------------------------------------------------------ inputs
    def _val(self, name, kind, lo, hi):
        if name in self.assignment:
            v = self.assignment[name]
        elif kind == 'cplx':
            v = complex(round(self.rng.uniform(lo, hi), 3), round(self.rng.uniform(lo, hi), 3))
        elif kind == 'angle':
            v = round(self.rng.uniform(0.1, 6.1), 3)
        else:
            v = round(self.rng.uniform(lo, hi), 3)
            if v == 0:
                v = 0.5
        self.used[name] = v
        return v

    def _mk(self, name, shape, kind, pos=False, lo=-1.5, hi=1.5):
        def one(nm):
            self.kinds[nm] = kind
            if not self.sym:
                v = self._val(nm, kind, lo, hi)
                return complex(*v) if isinstance(v, (list, tuple)) else v
            if kind == 'cplx':
                v = P.new_var(nm, 'cplx')
                w = P.new_var(nm + '~', 'cbar')
                v.conj, w.conj = w.idx, v.idx
            else:
                v = P.new_var(nm, 'real', pos=pos)
            return S({((v.idx, 1),): 1})
        if shape == ():
            return one(name)
        out = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            out[ix] = one(name + str(list(ix)).replace(' ', ''))
        if self.sym:
            return out.view(SymArray)
        return np.array(out.tolist(), dtype=complex if kind == 'cplx' else float).reshape(shape)

    def real(self, name, shape=(), lo=-1.5, hi=1.5):
        return self._mk(name, shape, 'real', lo=lo, hi=hi)

    def pos(self, name, shape=(), lo=0.4, hi=2.0):
        return self._mk(name, shape, 'real', pos=True, lo=lo, hi=hi)

    def cplx(self, name, shape=()):
        return self._mk(name, shape, 'cplx')

    def angle(self, name, shape=()):
        return self._mk(name, shape, 'angle' if not self.sym else 'real')

    def int(self, name, lo, hi):
        """integer input with lo <= value <= hi"""
        self.kinds[name] = 'int'
        if not self.sym:
            v = self.assignment.get(name)
            v = int(round(v)) if v is not None else self.rng.randint(lo, hi)
            self.used[name] = v
            return v
        z = z3.Int('int:' + name)
        paths.CUR.zint[name] = z
        x = SInt(z)
        paths.CUR.assume(lambda p: z3.And(z >= lo, z <= hi))
        return x

    @property
    def pi(self):
        return S({((P.PI_, 1),): 1}) if self.sym else math.pi

    def arr(self, nested, dtype=complex):
        if self.sym:
            a = np.array(nested, dtype=object) if not isinstance(nested, np.ndarray) else nested.astype(object)
            return a.view(SymArray)
        return np.array(nested, dtype=dtype)

    def zeros(self, shape):
        if self.sym:
            a = arr.O('empty')(shape, dtype=object)
            a[...] = 0
            return a.view(SymArray)
        return np.zeros(shape, dtype=complex)

    def conj(self, a):
        return np.conj(a)

    # ------------------------------------------------------------------ assumptions / obligations
    def assume(self, cond):
        """cond: SBool / bool"""
        if isinstance(cond, paths.SBool):
            paths.CUR.assume(cond.t)
        elif not cond:
            raise SkipCase()

    def eq(self, got, want, label, tol=None):
        """obligation: got == want for all values"""
        self.calls += 1
        self.labels.append(label)
        if isinstance(got, SInt) or isinstance(want, SInt):
            return self._true1(got == want, label)
        if isinstance(got, (S, int, float, complex, np.number)) and not isinstance(got, np.ndarray):
            gs = ()
        else:
            gs = np.shape(got)
        ws = np.shape(want) if not isinstance(want, S) else ()
        if tuple(gs) != tuple(ws):
            raise Violation(label, f'shape {tuple(gs)} instead of {tuple(ws)}')
        if self.sym:
            return ENGINE.check_eq(self, got, want, label)
        g = np.asarray(got, dtype=complex)
        w = np.asarray(want, dtype=complex)
        t = TOL if tol is None else tol
        if g.size == 0:
            return
        d = np.abs(g - w)
        scale = np.maximum(1.0, np.abs(w))
        bad = ~(d <= t * scale)
        if bad.any():
            ix = tuple(int(i) for i in np.argwhere(bad)[0]) if g.ndim else ()
            raise Violation(label, f'at index {ix}: got {g[ix]!r}, expected {w[ix]!r}')

    def true(self, cond, label):
        """obligation: the (possibly symbolic) condition holds for all values"""
        self.calls += 1
        self.labels.append(label)
        if isinstance(cond, np.ndarray):
            for c in cond.ravel():
                self._true1(c, label)
            return
        self._true1(cond, label)

    def _true1(self, cond, label):
        if isinstance(cond, paths.SBool):
            ENGINE.check_valid(self, cond, label)
        elif not cond:
            raise Violation(label, 'condition is false')

    def lt(self, a, b):
        return a < b

    def raises(self, exc, f, label):
        self.calls += 1
        self.labels.append(label)
        try:
            f()
        except exc:
            if self.sym:
                ENGINE.stats['concrete_obligations'] += 1
            return
        except (Unsupported, paths.Infeasible, paths.PathLimit):
            raise
        except Exception as e:
            raise Violation(label, f'raised {type(e).__name__} instead of {exc}')
        raise Violation(label, 'did not raise')


class Engine:
    def __init__(self):
        self.reset_stats()
        self.eq_timeout = 120000

    def reset_stats(self):
        self.stats = {'obligations': 0, 'elements': 0, 'discharged': 0, 'concrete_obligations': 0, 'symbolic_elements': 0,
                      'paths': 0, 'vars': 0, 'max_terms': 0}
        for k in list(paths.STATS):
            paths.STATS[k] = 0

    def _elems(self, a, n):
        if isinstance(a, S) or not isinstance(a, np.ndarray):
            if isinstance(a, (list, tuple)):
                a = np.array(a, dtype=object)
            else:
                return [a]
        return list(np.ndarray.view(a, np.ndarray).reshape(-1))

    def check_eq(self, ctx, got, want, label):
        n = int(np.prod(np.shape(want))) if not isinstance(want, S) else 1
        ge, we = self._elems(got, n), self._elems(want, n)
        fr = z3conv.Free()
        diseqs = []
        st = self.stats
        for k, (g, w) in enumerate(zip(ge, we)):
            if isinstance(g, SInt) or isinstance(w, SInt):
                ctx._true1(g == w, label)
                ge[k] = we[k] = 0
        for k, (g, w) in enumerate(zip(ge, we)):
            lg, lw = lift(g), lift(w)
            if lg is NotImplemented or lw is NotImplemented:
                raise Violation(label, f'element {k} is not a number: {g!r} (expected {w!r})')
            if lg.const() is None or lw.const() is None:
                st['symbolic_elements'] += 1
            st['max_terms'] = max(st['max_terms'], _nterms(lg), _nterms(lw))
            d = z3conv.diseq_free(fr, lg, lw)
            diseqs.append((k, lg, lw, d))
        st['obligations'] += 1
        st['elements'] += len(diseqs)
        flat = [x for _, _, _, d in diseqs for x in d]
        if not flat:
            st['discharged'] += 1
            return
        s = self._solver()
        s.add(z3.Or(*flat) if len(flat) > 1 else flat[0])
        r = paths.timed_check(s, 5000)
        if r == z3.unsat:
            st['discharged'] += 1
            return
        # not valid as a free identity: decide under the path condition with the physical meaning of the generators
        bad = [(k, a, b) for k, a, b, d in diseqs if not (a - b).is_zero()]
        if not bad and r == z3.unknown:
            r = paths.timed_check(s, self.eq_timeout)
            if r == z3.unsat:
                st['discharged'] += 1
                return
        if not bad and r == z3.unknown:
            raise HarnessError(f'solver gave up on {label}')
        if paths.CUR.conds and all(self._valid_under_path(a, b) for _, a, b in bad):
            st['discharged'] += 1
            return
        k, a, b = bad[0]
        d = a - b
        m = None if type(d) is scalar.L and d._f is None and not paths.CUR.conds else self._witness(ctx, lambda ph: self._phys_diseq(ph, a, b))
        raise Violation(label, f'element {k}: code gives {a!r}, required {b!r}') if m is None else \
            _with_model(Violation(label, f'element {k}: code gives {a!r}, required {b!r}'), m)

    def _solver(self):
        return z3.Then(z3.With('simplify', som=True, flat=True), 'solve-eqs', 'smt').solver()

    def _phys_diseq(self, ph, a, b):
        d = a - b
        n, = z3conv.clear_neg([d.num]) if not any(P.VARS[v].kind == 'phase' for m in d.num for v, _ in m) else [d.num]
        n2 = {}
        mins = {}
        for m in d.num:
            for v, e in m:
                if P.VARS[v].kind != 'phase' and e < mins.get(v, 0):
                    mins[v] = e
        n = P.pmul(d.num, {tuple(sorted((v, -e) for v, e in mins.items())): 1}) if mins else d.num
        re, im = ph.poly(n)
        cs = [z3.Or(re != 0, im != 0)]
        for k, _ in d.den:
            fr, fi = ph.poly_shift(scalar.FACTORS[k])
            cs.append(z3.Or(fr != 0, fi != 0))
        return z3.And(*cs)

    def _valid_under_path(self, a, b):
        if (a - b).is_zero():
            return True
        ph = z3conv.Phys()
        s = z3.SolverFor('QF_NRA') if not paths.CUR.zint else z3.Solver()
        cs = [c(ph) for c in paths.CUR.conds] + [self._phys_diseq(ph, a, b)]
        s.add(*ph.side)
        s.add(*cs)
        r = paths.timed_check(s, self.eq_timeout)
        if r == z3.unknown:
            raise HarnessError('solver gave up under a path condition')
        return r == z3.unsat

    def _witness(self, ctx, extra, tries=6):
        """concrete counterexample from the solver: all but a few inputs fixed to random rationals"""
        names = [v for v in P.VARS if v.kind in ('real', 'cplx', 'phase')]
        rng = random.Random(7)
        for t in range(tries):
            fixed = {}
            free_n = [0, 1, 2, 4, 8, len(names)][min(t, 5)]
            free = set(rng.sample(range(len(names)), min(free_n, len(names))))
            for i, v in enumerate(names):
                if i in free:
                    continue
                q = lambda: Fraction(rng.randint(-14, 14) or 3, 10)
                if v.kind == 'real':
                    fixed[v.name] = Fraction(rng.randint(4, 20), 10) if v.pos else q()
                elif v.kind == 'cplx':
                    fixed[v.name] = (q(), q())
                else:
                    tt = Fraction(rng.randint(1, 9), 10)
                    fixed[v.name] = ((1 - tt * tt) / (1 + tt * tt), 2 * tt / (1 + tt * tt))
            ph = z3conv.Phys(fixed)
            try:
                s = z3.Solver()
                cs = [c(ph) for c in (paths.CUR.conds if paths.CUR else [])] + [extra(ph)]
            except Unsupported:
                return None
            s.add(*ph.side)
            s.add(*cs)
            if paths.timed_check(s, 10000) == z3.sat:
                return self._model(s.model(), ph, fixed)
        return None

    def _model(self, m, ph, fixed):
        def num(x):
            v = m.eval(x, model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            if z3.is_int_value(v):
                return float(v.as_long())
            return float(v.as_fraction())
        out = {}
        for n, f in fixed.items():
            out[n] = [float(f[0]), float(f[1])] if isinstance(f, tuple) else float(f)
        for n, x in (paths.CUR.zint if paths.CUR else {}).items():
            out[n] = int(num(x))
        for n, x in ph.names.items():
            if isinstance(x, tuple):
                out[n] = [num(x[0]), num(x[1])]
            else:
                out[n] = num(x)
        # phases -> angles of the underlying real symbols
        res = {}
        for n, v in out.items():
            if n.startswith('U['):
                res[n[2:-1]] = scalar.HALF_ANGLE * math.atan2(v[1], v[0])
            else:
                res[n] = v
        return res

    def check_valid(self, ctx, cond, label):
        self.stats['obligations'] += 1
        self.stats['symbolic_elements'] += 1
        ph = z3conv.Phys()
        s = z3.SolverFor('QF_NRA') if not paths.CUR.zint else z3.Solver()
        cs = [c(ph) for c in paths.CUR.conds] + [cond.f(ph)]
        s.add(*ph.side)
        s.add(*cs)
        r = paths.timed_check(s, self.eq_timeout)
        if r == z3.unsat:
            self.stats['discharged'] += 1
            return
        if r == z3.unknown:
            raise HarnessError(f'solver gave up on {label}')
        m = self._model(s.model(), ph, {})
        raise _with_model(Violation(label, 'condition can be false'), m)


def _with_model(v, m):
    v.model = m
    return v


ENGINE = Engine()


# --------------------------------------------------------------------------------------------------- running
_REPO_FUNCS = set()


_MON = sys.monitoring
_TOOL = 4
_MON.use_tool_id(_TOOL, 'vsym')


def _on_start(co, off):
    fn = co.co_filename
    if fn.startswith(REPO + '/src/') and co.co_name[0] != '<':
        _REPO_FUNCS.add(os.path.relpath(fn, REPO + '/src') + ':' + getattr(co, 'co_qualname', co.co_name))
    return _MON.DISABLE


_MON.register_callback(_TOOL, _MON.events.PY_START, _on_start)


class CaseTimeout(BaseException):
    pass


def _on_alarm(sig, frame):
    raise CaseTimeout()


def _in_repo(e):
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + '/src/'):
            return True
        tb = tb.tb_next
    return False


_HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def _names_here():
    out = set()
    for m in list(sys.modules.values()):
        if (getattr(m, '__file__', None) or '').startswith(_HERE + os.sep):
            out |= set(vars(m)) - {'np'}
    return out


def _misfit(e):
    """the code asks a stand-in of the harness for something it does not model"""
    if isinstance(e, AttributeError) and getattr(e, 'obj', None) is not None:
        m = sys.modules.get(type(e.obj).__module__)
        return (getattr(m, '__file__', None) or '').startswith(_HERE + os.sep)
    if isinstance(e, TypeError):
        m = re.match(r"([\w.<>]+)\(\) (got|takes|missing)", str(e)) or re.search(r"'(\w+)' (?:object|and '\w+')", str(e))
        if m:
            q = m.group(1)
            return '<lambda>' in q.split('.')[-1] and not _last_def_in_repo(e) or q.split('.')[0] in _names_here() - _repo_names()
    return False


def _repo_names():
    out = set()
    for m in repo_modules():
        out |= {n for n, v in vars(m).items() if getattr(v, '__module__', None) == m.__name__}
    return out


def _last_def_in_repo(e):
    return re.match(r"[\w.]+\.<locals>\.<lambda>\(\)", str(e)) is not None and str(e).split('.')[0] in _repo_names()


REPO = os.environ.get('VERIF_REPO', '/repo')


def repo_modules():
    return [m for n, m in list(sys.modules.items()) if m is not None and (n.startswith('dga.') or n.startswith('ana_cont.'))]


def run_numeric(fn, params, assignment=None, seed=0):
    ctx = Ctx('num', assignment, seed)
    try:
        with np.errstate(all='ignore'):
            fn(ctx, **params)
    except SkipCase:
        return ctx, 'skip'
    return ctx, 'ok'


def _path_witness(ctx, ex):
    """concrete inputs for the current path, when it has conditions"""
    if not ex.conds:
        return None
    try:
        return ENGINE._witness(ctx, lambda ph: z3.BoolVal(True))
    except Exception:
        return None


def run_case(fn, params, max_paths=200, numeric_runs=2, time_limit=300, lazy=1500, died=None):
    """returns dict(result=..., ...)"""
    t0 = time.time()
    res = {'params': {k: _js(v) for k, v in params.items()}, 'fn': fn.__name__, 'status': 'ok', 'paths': 0, 'forks': 0}
    scalar.LAZY = lazy
    scalar.reset()
    arr.reset()
    ENGINE.reset_stats()
    _REPO_FUNCS.clear()
    _MON.restart_events()
    ex = paths.Explorer(max_paths)
    ex.pending = [[]] if died is None else []
    viol = None
    undecided = died
    wit = None                       # inputs that lead to the path on which the code raised
    labels = set()
    calls = 0
    while ex.pending:
        if res['paths'] >= max_paths or time.time() - t0 > time_limit:
            undecided = undecided or f'path/time limit after {res["paths"]} paths'
            break
        plan = ex.pending.pop()
        ex.start(plan)
        paths.CUR = ex
        ctx = Ctx('sym')
        _MON.set_events(_TOOL, _MON.events.PY_START)
        old = signal.signal(signal.SIGALRM, _on_alarm)
        signal.alarm(max(1, int(time_limit - (time.time() - t0))))
        try:
            with symbolic_numpy(repo_modules()):
                fn(ctx, **params)
            res['paths'] += 1
            labels |= set(ctx.labels)
            calls += ctx.calls
        except paths.Infeasible:
            pass
        except SkipCase:
            pass
        except Violation as v:
            viol = (v.label, v.detail, getattr(v, 'model', None) or _path_witness(ctx, ex))
            res['paths'] += 1
        except (Unsupported, HarnessError, paths.PathLimit) as e:
            undecided = f'{type(e).__name__}: {e}'
        except CaseTimeout:
            undecided = f'time limit of {time_limit} s'
        except Exception as e:
            undecided = f'exception in the symbolic run: {type(e).__name__}: {e}'
            res['tb'] = traceback.format_exc()[-2500:]
            wit = _path_witness(ctx, ex)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
            _MON.set_events(_TOOL, 0)
            paths.CUR = None
        if viol or undecided:
            break
    res['forks'] = ex.forks
    res['labels'] = sorted(labels)
    res['obligation_calls'] = calls
    res['nvars'] = sum(1 for v in P.VARS if v.kind in ('real', 'cplx', 'phase'))
    res['functions'] = sorted(_REPO_FUNCS)
    res['stats'] = dict(ENGINE.stats)
    res['solver'] = dict(paths.STATS)

    # ---- concrete side: replay of the counterexample, otherwise cross-validation of the encoding
    def conc(assignment, seed):
        try:
            c, s = run_numeric(fn, params, assignment, seed)
            return None, c
        except Violation as v:
            return ('violation', v.label, v.detail, v), None
        except HarnessError:
            raise
        except Exception as e:
            if isinstance(e, (AttributeError, TypeError, NameError, ImportError)) and (not _in_repo(e) or _misfit(e)):
                raise HarnessError(f'the harness does not fit the code: {type(e).__name__}: {e}')
            return ('exception', type(e).__name__, str(e) + ' | ' + traceback.format_exc()[-800:], e), None

    hit = None
    try:
        if viol and viol[2] is not None:
            r, _ = conc(viol[2], 0)
            if r is not None:
                hit = (viol[2], 0, r)
        if wit is not None:
            r, _ = conc(wit, 0)
            if r is not None:
                hit = (wit, 0, r)
        if hit is None:
            for seed in range(numeric_runs if not (viol or undecided) else 5):
                r, _ = conc(None, seed)
                if r is not None:
                    hit = (None, seed, r)
                    break
    except HarnessError as e:
        viol, undecided = None, str(e)
    if hit is not None:
        res['status'] = 'violation'
        res['violation'] = {'assignment': hit[0], 'seed': hit[1], 'kind': hit[2][0], 'label': str(hit[2][1]),
                            'detail': str(hit[2][2])[:1500],
                            'symbolic': None if viol is None else {'label': viol[0], 'detail': viol[1][:800]},
                            'decided_by': 'solver counterexample, replayed' if viol else 'concrete run (encoding ' +
                                          (undecided or 'validated differently') + ')'}
    elif viol:
        res['status'] = 'undecided'
        res['undecided'] = f'symbolic counterexample did not reproduce concretely: {viol[0]}: {viol[1][:600]}'
    elif undecided:
        res['status'] = 'undecided'
        res['undecided'] = undecided
    elif res['paths'] == 0 or calls == 0:
        res['status'] = 'undecided'
        res['undecided'] = 'vacuous: no feasible path reached an obligation'
    res['wall_s'] = time.time() - t0
    return res


def _js(v):
    try:
        json.dumps(v)
        return v
    except TypeError:
        return str(v)
