"""C48 results depend on what is asked, not on what was computed before"""
import importlib
from vsym.harness import SkipCase, HarnessError
from vsym.scalar import Unsupported
from vsym import paths
import c46

EXPLANATION = ('the scenarios of the other checks are executed symbolically once more, each in a process that has just gone through another scenario of the '
               'same routines (other sizes and options) and through the same one, both with symbols of their own; the assertions of the scenario are then '
               'decided as in its own check, so a result that remembers anything from before cannot pass')
OUTSIDE = 'longer histories; histories mixing the routines of different checks; files left by earlier runs of the program'
MODULES = ['c%02d' % i for i in range(1, 46)]
# too many branches to be run more than once
ALONE = {('c44', 'fitted'), ('c33', 'box'), ('c33', 'optics'), ('c01', 'fermi_int'), ('c01', 'fermi_beta'), ('c01', 'bose_int'), ('c01', 'bose_beta')}
SHORT = {('c29', 'crossing'), ('c21', 'one'), ('c28', 'nearest')}    # and those only after the other


def names(v):
    return isinstance(v, (tuple, list)) and len(v) > 0 and all(isinstance(x, str) for x in v)


def turned(what):
    """the same scenario on the mesh with its first two directions exchanged"""
    nk = what.get('nk')
    if not isinstance(nk, tuple) or len(nk) != 3 or nk[0] == nk[1]:
        return None
    return dict(what, nk=(nk[1], nk[0], nk[2]))


def fresh(ctx, check, scenario, what, before, same=True, turn=False):
    """what was computed before with other data leaves no trace in what is computed now"""
    fn = getattr(importlib.import_module(check), scenario)
    for i, past in enumerate((before, turned(what) if turn else None, what if same else None)):
        if past is not None:
            try:
                fn(c46.Quiet(ctx, 'abc'[i] + ':'), **past)
            except (SkipCase, HarnessError, Unsupported, paths.Infeasible, paths.PathLimit):
                raise
            except (Exception, SystemExit) as e:
                if i == 1:
                    continue        # momenta of the scenario which the exchanged mesh does not have
                raise HarnessError(f'the scenario does not run: {type(e).__name__}: {e}')
    fn(ctx, **what)


def cases(tier):
    out = []
    for name in MODULES:
        try:
            found = importlib.import_module(name).cases('quick')
        except Exception:
            continue                # that check says so itself
        seen, last = set(), {}
        for c in found:
            key = (c[0].__name__,) + tuple(sorted((k, str(v)) for k, v in c[1].items() if isinstance(v, (str, bool)) or names(v)))
            turn = turned(c[1]) is not None and (name, c[0].__name__) not in SHORT
            key += (turn,)
            if (name, c[0].__name__) in c46.LONG | ALONE:
                continue
            past, last[c[0].__name__] = last.get(c[0].__name__), c[1]
            if tier == 'quick' and key in seen:
                continue
            seen.add(key)
            opt = dict(c[2]) if len(c) > 2 else {}
            opt['time_limit'] = min(opt.get('time_limit', 60), 60)
            opt['numeric_runs'] = 1
            out.append((fresh, dict(check=name, scenario=c[0].__name__, what=c[1], before=past, same=not (past and (name, c[0].__name__) in SHORT), turn=turn), opt))
    return out
