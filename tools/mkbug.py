#!/usr/bin/env python3
"""Dev tool: create seeded/<ID> from a spec: a python file that defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)...], DEMO (python text).
Verifies that the edited lines belong to the original commit.  usage: mkbug.py SPEC.py..."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '7fa92e1'
SH = '''#!/bin/bash
# run with cwd = the repository; exit 0: behaves, 1: broken
export MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
D="$(cd "$(dirname "$0")" && pwd)"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONPATH="$PWD:$D" exec "$PY" -W ignore "$D/demo.py"
'''


def main():
    for spec in sys.argv[1:]:
        g = {}
        exec(open(spec).read(), g)
        sc = '/tmp/mkbug_%s' % g['ID']
        shutil.rmtree(sc, ignore_errors=True)
        subprocess.check_call(['git', 'clone', '-q', '/repo', sc])
        try:
            for f, old, new in g['EDITS']:
                p = os.path.join(sc, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(g['ID'], 'text occurs %d times in %s: %r' % (s.count(old), f, old))
                    return 1
                open(p, 'w').write(s.replace(old, new))
            diff = subprocess.check_output(['git', 'diff', '-U3'], cwd=sc).decode()
            # removed lines must be original ones
            for f in set(e[0] for e in g['EDITS']):
                base = subprocess.check_output(['git', 'show', '%s:%s' % (BASE, f)], cwd=sc).decode().splitlines()
                d0 = subprocess.check_output(['git', 'diff', '-U0', f], cwd=sc).decode().splitlines()
                for l in d0:
                    if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in base:
                        print(g['ID'], 'WARNING: not an original line:', l)
            d = os.path.join(V, 'seeded', g['ID'])
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            open(os.path.join(d, 'demo.sh'), 'w').write(SH)
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            open(os.path.join(d, 'demo.py'), 'w').write(g['DEMO'].lstrip())
            json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            print(g['ID'], 'made')
        finally:
            shutil.rmtree(sc, ignore_errors=True)


main()
