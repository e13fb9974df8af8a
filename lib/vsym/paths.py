"""Path exploration: symbolic comparisons fork, z3 decides which branches are feasible."""
import time
import z3
from fractions import Fraction
from . import poly as P
from .scalar import S, Unsupported, lift
from .z3conv import Phys

STATS = {'queries': 0, 'solver_s': 0.0, 'unknown': 0, 'sat': 0, 'unsat': 0}


def timed_check(solver, timeout=60000, assumptions=()):
    solver.set('timeout', timeout)
    t = time.time()
    r = solver.check(*assumptions)
    STATS['solver_s'] += time.time() - t
    STATS['queries'] += 1
    STATS[str(r)] = STATS.get(str(r), 0) + 1
    return r


class PathLimit(Exception):
    pass


class Infeasible(Exception):
    pass


class Explorer:
    """depth first exploration by re-execution"""

    def __init__(self, max_paths=400, timeout=10000):
        self.max_paths = max_paths
        self.timeout = timeout
        self.plan = []      # decisions to replay
        self.pos = 0
        self.trace = []     # (decision, alternative_open)
        self.pending = []
        self.conds = []     # list of (kind, payload) path conditions
        self.forks = 0
        self.picks = {}
        self.zint = {}

    def start(self, plan):
        self.plan = plan
        self.pos = 0
        self.trace = []
        self.conds = []
        self.phys = Phys()
        self.zint = {}
        self.sargs = None

    def pick(self, e):
        """a feasible value of the integer term e (deterministic: replayed decisions see the same values)"""
        key = (self.pos, e.sexpr())
        k = tuple(self.trace)
        c = self.picks.get((k, key))
        if c is not None:
            return c
        s = z3.Solver()
        cs = [f(self.phys) for f in self.conds]
        s.add(*self.phys.side)
        s.add(*cs)
        if timed_check(s, self.timeout) != z3.sat:
            raise Unsupported('no value for an integer term')
        v = s.model().eval(e, model_completion=True).as_long()
        self.picks[(k, key)] = v
        return v

    def constraints(self, phys):
        return [c(phys) for c in self.conds]

    def _feasible(self, extra):
        s = z3.SolverFor('QF_NRA') if not self.zint else z3.Solver()
        phys = self.phys
        cs = [c(phys) for c in self.conds] + [extra(phys)]
        s.add(*phys.side)
        s.add(*cs)
        r = timed_check(s, self.timeout)
        return r != z3.unsat

    def assume(self, zfun):
        self.conds.append(zfun)
        if self.pos >= len(self.plan) and not self._feasible(lambda p: z3.BoolVal(True)):
            raise Infeasible()

    def decide(self, zfun_true, zfun_false):
        if self.pos < len(self.plan):
            d = self.plan[self.pos]
            self.pos += 1
            self.trace.append(d)
            self.conds.append(zfun_true if d else zfun_false)
            return d
        t = self._feasible(zfun_true)
        f = self._feasible(zfun_false)
        if not t and not f:
            raise Infeasible()
        d = t
        if t and f:
            self.forks += 1
            self.pending.append(list(self.trace) + [False])
        self.pos += 1
        self.plan = self.plan + [d]
        self.trace.append(d)
        self.conds.append(zfun_true if d else zfun_false)
        return d


CUR = None  # active Explorer


class SBool:
    """symbolic truth value; coerced to bool by forking the path"""
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t, self.f = t, f

    def __bool__(self):
        if CUR is None:
            raise Unsupported('symbolic branch outside of an exploration')
        return CUR.decide(self.t, self.f)

    def __and__(self, o):
        if isinstance(o, SBool):
            return SBool(lambda p: z3.And(self.t(p), o.t(p)), lambda p: z3.Or(self.f(p), o.f(p)))
        if isinstance(o, (bool, int)) or type(o).__name__ == 'bool_':
            return self if o else False
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SBool):
            return SBool(lambda p: z3.Or(self.t(p), o.t(p)), lambda p: z3.And(self.f(p), o.f(p)))
        if isinstance(o, (bool, int)) or type(o).__name__ == 'bool_':
            return True if o else self
        return NotImplemented

    __ror__ = __or__

    def __invert__(self):
        return SBool(self.f, self.t)


def compare(d, op):
    """truth value of  d op 0"""
    if d.is_zero():
        return op in ('<=', '>=', '==')
    v = d.constvalue()
    if v is not None:
        if op == '==':
            return False
        if op == '!=':
            return True
        x = v.real
        return {'<': x < 0, '<=': x <= 0, '>': x > 0, '>=': x >= 0}[op]
    if op in ('==', '!='):
        def eq(p):
            from .z3conv import clear_neg
            re, im = p.poly(clear_neg([d.num])[0])
            return z3.And(re == 0, im == 0)
        ne = lambda p: z3.Not(eq(p))
        return SBool(eq, ne) if op == '==' else SBool(ne, eq)
    if not d.is_real():
        raise TypeError("'%s' not supported between complex values" % op)
    # sign known for single monomials of positive generators
    if len(d.num) == 1 and not d.den:
        (m, c), = d.num.items()
        if all(P.VARS[v].pos and P.VARS[v].kind != 'alg' for v, _ in m):
            x = float(c)
            return {'<': x < 0, '<=': x <= 0, '>': x > 0, '>=': x >= 0}[op]
    fs = {'<': (lambda t: t < 0, lambda t: t >= 0), '<=': (lambda t: t <= 0, lambda t: t > 0),
          '>': (lambda t: t > 0, lambda t: t <= 0), '>=': (lambda t: t >= 0, lambda t: t < 0)}[op]
    return SBool(lambda p: fs[0](p.sign_term(d)), lambda p: fs[1](p.sign_term(d)))
