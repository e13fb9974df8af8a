#!/usr/bin/env python
"""Usage: run.py <PROPERTY> [quick|thorough]        run the check of one property
          run.py --replay <file>                    re-run a recorded counterexample on the real code
Executed with /opt/venv/bin/python; the code under test is imported from /repo/src (working tree)."""
import os, sys, json, time, importlib, traceback, warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('HOME', '/root')
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.path.insert(0, os.path.join(REPO, 'src'))


def load(pid):
    m = importlib.import_module(pid.lower())
    return m


_MOD = None
_CASES = None


def _work(i, died=None):
    from vsym import harness
    fn, params, opt = _CASES[i]
    try:
        return i, harness.run_case(fn, params, died=died, **opt)
    except BaseException as e:  # noqa
        return i, {'fn': fn.__name__, 'params': {k: str(v) for k, v in params.items()}, 'status': 'error',
                   'error': f'{type(e).__name__}: {e}', 'tb': traceback.format_exc()[-2000:], 'wall_s': 0}


def _child(conn, i, died):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass
    conn.send(_work(i, died)[1])
    conn.close()


def run_parallel(idx, results, nproc, deadline):
    """one process per case; a case whose process dies is decided as far as its concrete runs go"""
    import multiprocessing as mp
    from multiprocessing.connection import wait
    ctx = mp.get_context('fork')
    todo = [(i, None) for i in reversed(idx)]
    live = {}
    while todo or live:
        while todo and len(live) < nproc:
            i, died = todo.pop()
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(w, i, died))
            p.start()
            w.close()
            live[r] = (p, i, died)
        left = deadline - time.time()
        ready = wait(list(live), timeout=max(0, left)) if left > 0 else []
        if not ready:
            break
        for r in ready:
            p, i, died = live.pop(r)
            try:
                results[i] = r.recv()
            except EOFError:
                p.join()
                why = f'the process of the case ended with {p.exitcode}'
                if died is None:
                    todo.append((i, why))
                else:
                    results[i] = {'fn': _CASES[i][0].__name__, 'params': {k: str(v) for k, v in _CASES[i][1].items()},
                                  'status': 'error', 'error': why, 'wall_s': 0}
            r.close()
            p.join(5)
    for r, (p, i, died) in live.items():
        p.kill()
        p.join()


def norm_cases(cs):
    out = []
    for c in cs:
        fn, params = c[0], c[1]
        opt = c[2] if len(c) > 2 else {}
        out.append((fn, params, opt))
    return out


def main():
    global _MOD, _CASES
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    try:
        _MOD = load(pid)
        _CASES = norm_cases(_MOD.cases(tier))
    except Exception:
        # the code under test cannot even be imported / the harness cannot be built
        traceback.print_exc()
        print(f'ERROR property={pid} harness could not be set up')
        return 2
    results = [None] * len(_CASES)
    nproc = int(os.environ.get('VERIF_JOBS', '8'))
    only = os.environ.get('VERIF_ONLY')
    idx = [i for i in range(len(_CASES)) if not only or only in _CASES[i][0].__name__]
    budget = 700 if tier == 'quick' else 3600
    if nproc > 1 and len(idx) > 1:
        run_parallel(idx, results, nproc, t0 + budget)
    else:
        for i in idx:
            results[i] = _work(i)[1]
    return report(pid, tier, seed, [results[i] for i in idx], time.time() - t0)


def report(pid, tier, seed, results, wall):
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))
    fn = {}
    viol, kn, und = [], [], []
    agg = {'queries': 0, 'solver_s': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0}
    st = {}
    funcs = set()
    paths = forks = nv = 0
    for r in results:
        if os.environ.get('VERIF_TIMES') and r is not None and r.get('wall_s', 0) > 5:
            print('  %6.1f s' % r['wall_s'], r['fn'], r['params'], r['status'])
        if r is None:
            und.append({'status': 'error', 'undecided': 'time budget exhausted'})
            continue
        d = fn.setdefault(r['fn'], {'cases': 0, 'proved': 0, 'undecided': 0, 'violated': 0, 'labels': set(), 'params': []})
        d['cases'] += 1
        d['labels'] |= set(r.get('labels', []))
        d['params'].append(r['params'])
        for k in agg:
            agg[k] += r.get('solver', {}).get(k, 0)
        for k, v in r.get('stats', {}).items():
            st[k] = max(st.get(k, 0), v) if k == 'max_terms' else st.get(k, 0) + v
        funcs |= set(r.get('functions', []))
        paths += r.get('paths', 0)
        forks += r.get('forks', 0)
        nv += r.get('nvars', 0)
        if r['status'] == 'ok':
            d['proved'] += 1
        elif r['status'] == 'violation':
            f = match_known(known, pid, r)
            if f is not None:
                kn.append((f, r))
            else:
                d['violated'] += 1
                viol.append(r)
        else:
            d['undecided'] += 1
            und.append(r)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': getattr(_MOD, 'EXPLANATION', 'bounded symbolic execution of the real functions; solver-decided obligations'),
            'method': 'symbolic execution of the functions imported from /repo/src on arrays of symbolic scalars; z3 decides '
                      'every obligation (negated property) for all values of the inputs at the listed sizes',
            'functions_encoded': sorted(funcs),
            'bounds': {k: {'cases': v['cases'], 'proved': v['proved'], 'undecided': v['undecided'], 'violated': v['violated'],
                           'obligation_labels': sorted(v['labels']), 'sizes': v['params'][:60]} for k, v in fn.items()},
            'outside_bounds': getattr(_MOD, 'OUTSIDE', 'array sizes beyond those listed; floating point rounding'),
            'symbolic_paths': paths, 'path_forks': forks, 'symbolic_inputs': nv,
            'obligations_discharged': st.get('discharged', 0), 'obligations': st.get('obligations', 0),
            'elements_compared': st.get('elements', 0), 'elements_symbolic': st.get('symbolic_elements', 0),
            'concrete_obligations': st.get('concrete_obligations', 0), 'largest_normal_form_terms': st.get('max_terms', 0),
            'queries': agg['queries'], 'queries_unsat': agg['unsat'], 'queries_sat': agg['sat'],
            'queries_unknown': agg['unknown'], 'solver_seconds': round(agg['solver_s'], 3),
            'undecided': [{'fn': u.get('fn'), 'params': u.get('params'), 'why': u.get('undecided') or u.get('error')} for u in und][:40],
            'known_findings': [f['what'] for f, _ in kn],
        },
        'assumptions': getattr(_MOD, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2), 'violations': len(viol),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    n_ok = sum(d['proved'] for d in fn.values())
    print(f'{pid} [{tier}] cases={len(results)} proved={n_ok} undecided={len(und)} violated={len(viol)} known={len(kn)} '
          f'queries={agg["queries"]} solver={agg["solver_s"]:.2f}s wall={wall:.1f}s')
    seen = set()
    for f, r in kn:
        if f['what'] not in seen:
            seen.add(f['what'])
            print(f'KNOWN-FINDING: property={pid} {f["what"]}')
    for u in und[:4]:
        print('UNDECIDED', u.get('fn'), u.get('params'), str(u.get('undecided') or u.get('error'))[:400])
        if os.environ.get('VERIF_DEBUG') and u.get('tb'):
            print(u['tb'][-600:])
    if viol:
        rd = os.path.join(HERE, 'replays')
        os.makedirs(rd, exist_ok=True)
        shown = 0
        for k, r in enumerate(viol[:5]):
            p = os.path.join(rd, f'{pid}_{k}.json')
            with open(p, 'w') as f:
                json.dump({'property': pid, 'tier': tier, 'fn': r['fn'], 'params': r['params'], **r['violation']}, f, indent=1)
            v = r['violation']
            print(f'  {r["fn"]} {r["params"]}: {v["kind"]} {v["label"]}: {v["detail"][:300]}  [{v["decided_by"]}]')
            print(f'VIOLATION property={pid} replay={p}')
        return 1
    if n_ok == 0 and not kn:
        print(f'ERROR property={pid}: nothing could be decided')
        return 2
    return 0


def match_known(known, pid, r):
    for f in known.get('findings', []):
        if f['property'] != pid or f['fn'] != r['fn']:
            continue
        if f.get('label') and f['label'] != r['violation']['label']:
            continue
        if all(r['params'].get(k) == v for k, v in f.get('params', {}).items()):
            return f
    return None


def replay(path):
    from vsym import harness
    d = json.load(open(path))
    m = load(d['property'])
    for fn, params, opt in norm_cases(m.cases(d.get('tier', 'quick'))):
        if fn.__name__ == d['fn'] and {k: harness._js(v) for k, v in params.items()} == d['params']:
            try:
                harness.run_numeric(fn, params, d['assignment'], d['seed'])
            except Exception as e:
                traceback.print_exc()
                print(f'reproduced: {type(e).__name__}: {e}')
                return 1
            print('not reproduced')
            return 0
    print('case not found')
    return 2


if __name__ == '__main__':
    sys.exit(main())
