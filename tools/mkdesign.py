"""Writes /verif/DESIGN.md."""
import ast
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
body = open(os.path.join(V, 'tools/design_body.md')).read()
out = []
for p in [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]:
    t = ast.parse(open(os.path.join(V, 'props/%s.py' % p['id'].lower())).read())
    c = {}
    for n in t.body:
        if isinstance(n, ast.Assign):
            try:
                c[getattr(n.targets[0], 'id', '')] = ast.literal_eval(n.value)
            except ValueError:
                pass
    out.append('**%s %s.** Method: %s. Workload: %s. Bounds: %s Size: %s / %s; at least %s. Why tests cannot: %s\n' % (
        p['id'], p['title'], c['TECHNIQUE'], c['RULE'], c['NOTE'], c['N']['quick'], c['N']['thorough'],
        ', '.join('%d %s' % (v, k) for k, v in c['MIN'].items()), p['why_tests_cant']))
body = body.replace('@@PROPS@@', '\n'.join(out))
k = json.load(open(os.path.join(V, 'known_findings.json')))
body = body.replace('@@FIXED@@', '\n'.join('* ' + x[len('fixed: property='):] for x in k['fixed']))
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
res = json.load(open(os.path.join(V, 'tools/caught.json'))) if os.path.exists(os.path.join(V, 'tools/caught.json')) else {}
for d in sorted(glob.glob(os.path.join(V, 'seeded/*'))):
    m = json.load(open(d + '/meta.json'))
    b = os.path.basename(d)
    rows.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'], res.get(b, m['property'])))
body = body.replace('@@SEEDED@@', '\n'.join(rows))
body = body.replace('@@MUTATION@@', open(os.path.join(V, 'tools/mutation.md')).read())
open(os.path.join(V, 'DESIGN.md'), 'w').write(body)
