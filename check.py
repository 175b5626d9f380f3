#!/usr/bin/env python3
"""Run the runtime monitors of one property:  check.py P01 [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: held on everything observed.  Exit 1 + "VIOLATION property=..": broken.
Exit 2: inconclusive or an error of the check itself (never folded into either).
"""
import os
import sys

PY = '/opt/venv/bin/python'
WANT = {'MPLBACKEND': 'Agg', 'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
        'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
        'ASTROPY_SKIP_CONFIG_UPDATE': '1', 'RV_REEXEC': '1'}

if os.environ.get('RV_REEXEC') != '1':
    env = dict(os.environ)
    env.update(WANT)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[0] = HERE
from rvlib import core   # noqa: E402

if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:]))
