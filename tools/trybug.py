#!/usr/bin/env python3
"""Dev tool: verify a planted bug in a scratch copy (demo on clean and patched, stable tests, its property's check).
usage: trybug.py ID [--no-tests] [--no-check] [--tier quick] [--seed N]"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, env=None, t=900):
    e = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode(errors='replace')


def main():
    bid = sys.argv[1]
    opt = sys.argv[2:]
    seed = opt[opt.index('--seed')+1] if '--seed' in opt else '1'
    tier = opt[opt.index('--tier')+1] if '--tier' in opt else 'quick'
    d = os.path.join(V, 'seeded', bid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    sc = '/tmp/bug_%s' % bid
    shutil.rmtree(sc, ignore_errors=True)
    os.makedirs(sc)
    try:
        subprocess.check_call(['cp', '-a', '/repo', sc + '/repo'])
        R = sc + '/repo'
        shutil.copytree(d, sc + '/demo', ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
        rc0, o0 = sh(['bash', sc + '/demo/demo.sh'], R, {'PYTHONPATH': R}, 300)
        if rc0:
            print(bid, 'DEMO FAILS ON CLEAN TREE', o0[-1500:])
            return 1
        rc, o = sh(['git', 'apply', os.path.join(d, 'patch.diff')], R)
        if rc:
            print(bid, 'PATCH DOES NOT APPLY', o)
            return 1
        rc1, o1 = sh(['bash', sc + '/demo/demo.sh'], R, {'PYTHONPATH': R}, 300)
        if not rc1:
            print(bid, 'DEMO PASSES ON PATCHED TREE')
            return 1
        print(bid, 'demo ok:', o1.strip().splitlines()[-1][:150] if o1.strip() else '')
        if '--no-tests' not in opt:
            rc, o = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider . -k "not test_FitEmissionLines2D" 2>&1 | tail -3', R + '/tests', {'PYTHONPATH': R})
            if 'failed' in o or '12 passed' not in o:
                print(bid, 'TESTS FAIL', o)
                return 1
        if '--no-check' not in opt:
            rc, o = sh([sys.executable, os.path.join(V, 'check.py'), meta['property'], '--tier', tier, '--seed', seed], V, {'RV_REPO': R}, 7200)
            caught = rc == 1 and ('VIOLATION property=%s' % meta['property']) in o
            print(bid, meta['property'], 'CAUGHT' if caught else '*** MISSED rc=%d' % rc, '|', ' '.join(x for x in o.splitlines() if not x.startswith('  events'))[-300 if not caught else -250:])
            return 0 if caught else 2
    finally:
        shutil.rmtree(sc, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
