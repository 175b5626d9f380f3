"""Writes /verif/MANIFEST.json from properties.jsonl and the checks in props/."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
NA = {}
for p in props:
    f = os.path.join(V, 'props', p['id'].lower() + '.py')
    if not os.path.exists(f):
        na.append({'property': p['id'], 'reason': NA.get(p['id'], 'check not built yet')})
        continue
    consts = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('TECHNIQUE', 'NOTE'):
            consts[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
        'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
        'technique': consts['TECHNIQUE'], 'level': 'exploration', 'level_note': consts['NOTE']})
m = {'version': 1, 'setup_cmd': 'python3 check.py --help >/dev/null', 'checks': checks, 'not_applicable': na,
     'notes': 'Runtime monitors on the public API (no hooks in /repo needed): workloads are executed on the code in /repo, '
              'recorded events are judged by oracles (reference models, relations, conservation laws, history models). '
              'See DESIGN.md. known_findings.json lists the defects found (all repaired by "fix:" commits).'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not built')
