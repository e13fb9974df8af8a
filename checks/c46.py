"""C46 nothing handed in or out is changed behind the caller's back"""
import importlib
import os
import sys
import numpy as np
from dga import two_point as twop, bubble as bub, brillouin_zone as bz, local_four_point as lfp, wannier
from common import make_giwk
from vsym import harness
from vsym.harness import SkipCase, HarnessError, Violation
from vsym.scalar import Unsupported
from vsym import paths

EXPLANATION = ('the scenarios of the other checks are executed symbolically once more; at every call of a routine of the repository made by a scenario the '
               'arrays among its arguments (also inside lists, dictionaries and objects), the arrays handed to the object before and the arrays it returned '
               'earlier are recorded entry by entry, and the solver compares them with their contents after the call')
OUTSIDE = 'arrays reachable only through third-party objects; calls made inside the repository; results changed by the caller'
HERE = os.path.dirname(os.path.abspath(__file__))
SRC = harness.REPO + '/src/'
MON, TOOL = sys.monitoring, 3
MODULES = ['c%02d' % i for i in range(2, 46) if i != 33]
LONG = {('c21', 'second'), ('c21', 'shifted')}
ONCE = {('c12', 'pipeline'), ('c12', 'full_vertex'), ('c21', 'iterate'), ('c44', 'fitted')}
LIMIT = 4096
# documented to work in place, or to fill the array they are given; the last is a step of the solver's own iteration
IN_PLACE = {'inv_sym', 'x_y_sym', 'x_y_inv', 'apply_symmetry', 'apply_symmetries', 'insert_hr_elemend', 'root_fun'}


def arrays(x, name, out, seen, depth=0):
    """the arrays reachable from an argument"""
    if isinstance(x, np.ndarray):
        if id(x) not in seen and x.size <= LIMIT:
            seen.add(id(x))
            out.append((name, x))
        return
    if depth > 2 or id(x) in seen:
        return
    if isinstance(x, (list, tuple)):
        seen.add(id(x))
        for i, y in enumerate(x[:20]):
            arrays(y, f'{name}[{i}]', out, seen, depth + 1)
    elif isinstance(x, dict):
        seen.add(id(x))
        for k, y in list(x.items())[:20]:
            arrays(y, f'{name}[{k!r}]', out, seen, depth + 1)
    elif type(x).__module__.split('.')[0] in ('dga', 'ana_cont') and hasattr(x, '__dict__'):
        seen.add(id(x))
        for k, y in list(vars(x).items()):
            arrays(y, f'{name}.{k}', out, seen, depth + 1)


def copy(a):
    return np.ndarray.view(a, np.ndarray).copy()


class Monitor:
    def __init__(self):
        self.open, self.pairs, self.given, self.out = {}, [], {}, {}

    def start(self, code, offset):
        if not code.co_filename.startswith(SRC) or code.co_name[0] == '<':
            return MON.DISABLE
        f = sys._getframe(1)
        if f.f_back is None or not f.f_back.f_code.co_filename.startswith(HERE):
            return None
        n = code.co_argcount + code.co_kwonlyargcount + bool(code.co_flags & 4) + bool(code.co_flags & 8)
        out, seen = [], set()
        names = code.co_varnames[:n]
        for k in names:
            v = f.f_locals.get(k)
            if code.co_flags & 4 and '<locals>' in code.co_qualname and isinstance(v, tuple) and v and not isinstance(v[0], np.ndarray):
                v = v[1:]           # the object a wrapped method belongs to
            if k != 'self':
                arrays(v, k, out, seen)
        mine = []
        if 'self' in names[:1] and code.co_name != '__init__':
            arrays(f.f_locals['self'], 'self', mine, set(seen))
        where = code.co_qualname
        out += [(n, a) for n, a in mine if id(a) in self.given]
        seen |= {id(a) for n, a in out}
        if where.split('.')[-1] in IN_PLACE:
            out = []
        out += [(f'({n})', a) for n, a in self.out.values() if id(a) not in seen]
        self.open[id(f)] = (f, where, [(n, a, copy(a)) for n, a in out])
        for n, a in out:
            self.given[id(a)] = a

    def end(self, code, offset, value):
        f = sys._getframe(1)
        o = self.open.pop(id(f), None)
        if o is None:
            return
        for n, a, before in o[2]:
            self.pairs.append((f'{o[1]}: {n}', before, copy(a)))
        res = []
        arrays(value, 'result of ' + o[1], res, set())
        for n, a in res:
            self.out[id(a)] = (n, a)

    def __enter__(self):
        ev = MON.events
        MON.use_tool_id(TOOL, 'c46')
        MON.register_callback(TOOL, ev.PY_START, self.start)
        MON.register_callback(TOOL, ev.PY_RETURN, self.end)
        MON.set_events(TOOL, ev.PY_START | ev.PY_RETURN)
        MON.restart_events()
        return self

    def __exit__(self, *a):
        MON.set_events(TOOL, 0)
        MON.free_tool_id(TOOL)


class Quiet:
    """the scenario runs on symbols of its own; what it asserts is decided by its own check"""

    def __init__(self, ctx, prefix=''):
        self._ctx, self._prefix = ctx, prefix

    def real(self, name, *a, **k):
        return self._ctx.real(self._prefix + name, *a, **k)

    def pos(self, name, *a, **k):
        return self._ctx.pos(self._prefix + name, *a, **k)

    def cplx(self, name, *a, **k):
        return self._ctx.cplx(self._prefix + name, *a, **k)

    def angle(self, name, *a, **k):
        return self._ctx.angle(self._prefix + name, *a, **k)

    def int(self, name, *a, **k):
        return self._ctx.int(self._prefix + name, *a, **k)

    def __getattr__(self, k):
        return getattr(self._ctx, k)

    def eq(self, *a, **k):
        pass

    def true(self, *a, **k):
        pass

    def raises(self, exc, f, label):
        try:
            f()
        except (Unsupported, paths.Infeasible, paths.PathLimit):
            raise
        except (Exception, SystemExit):
            pass


def kept(ctx, check, scenario, what, runs=1):
    """the scenario, as often as asked, with new data each time"""
    fn = objects if check == 'c46' else getattr(importlib.import_module(check), scenario)
    with Monitor() as mon:
        try:
            for i in range(runs):
                fn(Quiet(ctx, 'ab'[i] + ':' if i else ''), **what)
        except (SkipCase, HarnessError, Unsupported, paths.Infeasible, paths.PathLimit):
            raise
        except (Exception, SystemExit) as e:
            raise HarnessError(f'the scenario does not run: {type(e).__name__}: {e}')
    seen = set()
    n = 0
    for label, before, after in mon.pairs:
        if before.dtype.kind not in 'OfciubB':
            continue
        n += 1
        if before.dtype != object or all(x is y for x, y in zip(before.ravel(), after.ravel())):
            if label in seen and (before.dtype == object or np.array_equal(before, after)):
                continue
        seen.add(label)
        if before.dtype == object and not all(number(x) for x in before.ravel()):
            ctx.true(all(x is y for x, y in zip(before.ravel(), after.ravel())), label)
            continue
        if before.dtype.kind in 'fc' and not np.isfinite(before).all():
            before, after = np.nan_to_num(before), np.nan_to_num(after)
        ctx.eq(after, before, label)
    if n == 0:
        ctx.true(True, 'no array changes hands')


def number(x):
    return isinstance(x, (int, float, complex, np.number)) or type(x).__module__.startswith('vsym') and '__add__' in dir(type(x))


def objects(ctx, kind):
    """one object, asked for the same thing with data of the same size"""
    nk, niv, wn = (2, 2, 1), 2, np.array([-1, 0, 1])
    beta = ctx.pos('beta')
    if kind == 'bubble':
        g, _ = make_giwk(ctx, nk, niv + 3, beta, ek=ctx.real('ek', nk), mu=0)
        b = bub.BubbleGenerator(wn=wn, giwk_obj=g)
        for ql in ([(0, 0, 0), (1, 0, 0)], [(1, 1, 0), (0, 1, 0)]):
            ql = np.array(ql)
            core = b.get_chi0_q_list(niv, ql)
            b.get_gchi0_q_list(niv, ql), b.get_exact_asymptotics_q(ql), b.get_asympt_sum_q(niv, ql), b.get_ek_ekpq(ql)
            b.get_asymptotic_correction_q(niv, ql), b.get_chi0q_shell(core, niv, 1, ql), b.get_asympt_prefactors_q(ql)
        for nt in ('minus', 'plus', 'minus'):
            x = b.get_gchi0(niv, freq_notation=nt)
            b.get_chi0(niv, freq_notation=nt), b.get_asympt_sum(niv, freq_notation=nt), b.get_asymptotic_correction(niv, freq_notation=nt)
            b.contract_legs(x), b.get_gchi0_vvp_full(x), b.get_exact_asymptotics()
    elif kind == 'mesh':
        g = bz.KGrid(nk, ['x-inv'])
        for i in 'abc':
            f, q = ctx.cplx(i, nk + (2,)), {'a': (0, 1, 0), 'b': (1, 0, 0), 'c': (1, 1, 0)}[i]
            l, r = g.map_fbz_mesh2list(f), g.map_fbz2irrk(f)
            g.map_fbz_list2mesh(l), g.map_irrk2fbz(r), g.map_irrk2fbz(r, shape='list'), g.symmetrize_irrk(f), g.shift_mat_by_pi(f)
            g.shift_mat_by_ind(f, q), g.shift_mat_by_q(f, tuple(np.pi * x for x in q)), g.k_mean(r), g.k_mean(f, 'mesh'), g.k_mean(l, 'list')
            g.get_k_slice(f, 2, 0), g.find_q_ind(tuple(np.pi * x for x in q)), g.add_q_to_kgrid(tuple(np.pi * x for x in q))
            g.get_q_list(), g.get_irrq_list(), g.kmesh, g.kmesh_list, g.irr_kgrid, g.kx_shift, g.ky_shift, g.kz_shift
    elif kind == 'path':
        p = bz.KPath((4, 4, 1), 'Gamma-X-M')
        for i in 'ab':
            p.map_to_kpath(ctx.cplx(i, (4, 4, 1, 2))), p.get_kpoints(), p.corner_k_points(), p.get_kpath_val()
    elif kind == 'hopping':
        r = np.array([[[[0, 0, 0]]], [[[1, 0, 0]]], [[[0, 1, 0]]]]).reshape(3, 1, 1, 3)
        h = wannier.WannierHr(ctx.cplx('h', (3, 1, 1)), r, ctx.pos('w', (3, 1)), np.zeros((3, 1, 1, 2)))
        for n in ((2, 4, 1), (4, 2, 1), (2, 4, 1)):
            k = bz.KGrid(n, [])
            h.get_ek(k), [h.get_light_vertex(k, der=d) for d in range(3)]
        for n in ((2, 2, 1), (2, 2, 1)):
            h.get_ek(bz.KGrid(n, []))
    elif kind == 'self-energy':
        s = twop.SelfEnergy(ctx.cplx('s', nk + (niv,)), beta, pos=True, smom0=ctx.real('s0'), smom1=ctx.real('s1'), niv_core=niv)
        for n in (1, 3, 4, 3, 1):
            s.get_siw(n), s.get_siw(n, pi_shift=True), s.get_asympt(n), s.k_mean()
    elif kind == 'green':
        for i in 'ab':
            s = twop.SelfEnergy(ctx.cplx('s' + i, nk + (niv,)), beta, pos=True, smom0=0, smom1=ctx.real('s1'), niv_core=niv)
            ek, mu = ctx.real('e' + i, nk), ctx.real('mu' + i)
            ctx.assume(beta * (sum(ek[k] for k in np.ndindex(*nk)) / 4 - mu) < 20)
            g = twop.GreensFunction(s, ek, mu=mu, niv_asympt=1)
            for n in (1, 2, 2, 1):
                g.set_g_asympt(n)
                g.g_full(), g.g_full(pi_shift=True), g.k_mean('core'), g.k_mean('full'), g.get_sigma_full(n), g.fs(), g.build_g_core(), g.build_asympt(n)
    else:
        for i in 'ab':
            for ch in ('dens', 'magn'):
                f = lfp.LocalFourPoint(channel=ch, mat=ctx.cplx(i + ch, (3, 4, 4)), beta=beta, u=ctx.real('u'), is_full_w=True)
                o = f.contract_legs()
                f.append_shell(ctx.real('v'), 1), f.cut_iv(1), f.cut_iw(0), f.contract_legs()


def cases(tier):
    out = [(kept, dict(check='c46', scenario='objects', what=dict(kind=k), runs=2))
           for k in ('bubble', 'mesh', 'path', 'hopping', 'self-energy', 'green', 'vertex')]
    for name in MODULES:
        try:
            found = importlib.import_module(name).cases('quick')
        except Exception:
            continue                # that check says so itself
        seen = set()
        for c in found:
            key = (c[0].__name__,) + tuple(sorted((k, v) for k, v in c[1].items() if isinstance(v, (str, bool))))
            if tier == 'quick' and key in seen or (name, c[0].__name__) in LONG:
                continue
            seen.add(key)
            opt = dict(c[2]) if len(c) > 2 else {}
            opt['time_limit'] = min(opt.get('time_limit', 60), 60)
            opt['numeric_runs'] = 1
            out.append((kept, dict(check=name, scenario=c[0].__name__, what=c[1], runs=1 if (name, c[0].__name__) in ONCE else 2), opt))
    return out
