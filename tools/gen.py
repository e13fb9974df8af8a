#!/usr/bin/env python3
"""writes /verif/properties.jsonl and /verif/MANIFEST.json from props.py and the existing checks"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
import props
NOTE = ('Bounded symbolic execution of the functions imported from /repo/src: the sizes listed in the evidence are enumerated, all '
        'data values are symbolic, z3 decides the negation of each obligation over exact real/complex arithmetic; counterexamples are '
        'replayed on the plain numpy code. Trusted: the symbolic array layer (cross-validated by concrete runs of the same harness), '
        'z3, numpy indexing. Outside: larger sizes, floating-point rounding.')
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for pid in sorted(props.P):
        p = props.P[pid]
        f.write(json.dumps({
            'id': pid, 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'observe_at': p['observe'] or ['return values of the public functions named under mechanism'],
                        'hook_needed': None}}) + '\n')
checks = []
na = dict(props.NA)
for pid in sorted(props.P):
    if pid in props.NA:
        continue
    if not os.path.exists(os.path.join(H, 'checks', pid.lower() + '.py')):
        na[pid] = 'not yet built'
        continue
    checks.append({'property': pid, 'quick_cmd': f'bash check.sh {pid} quick', 'thorough_cmd': f'bash check.sh {pid} thorough',
                   'technique': 'bounded symbolic execution of the real code, obligations decided by z3',
                   'level': 'other', 'level_note': (props.P[pid]['note'] + ' ' if props.P[pid]['note'] else '') + NOTE})
json.dump({'version': 1, 'setup_cmd': 'bash check.sh --setup', 'checks': checks,
           'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(na.items())],
           'notes': 'no hooks in /repo; see DESIGN.md'}, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', na)
