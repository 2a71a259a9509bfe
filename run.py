#!/opt/venv/bin/python
"""Entry point: run.py <property id> [--tier quick|thorough]"""
import os
import sys

os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
PY = '/opt/venv/bin/python'
if os.path.realpath(sys.executable) != os.path.realpath(PY) or \
        sys.prefix != '/opt/venv':
    os.execv(PY, [PY, '-B', '-s'] + sys.argv)
sys.path[:] = [p for p in sys.path if p not in ('', '/repo')]
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import numpy  # noqa
import scipy.stats, scipy.interpolate, scipy.special, scipy.integrate  # noqa
# z3's python binding lives in the tooling venv (same python version)
_V = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
sys.path.append(_V)
import z3  # noqa
sys.path.remove(_V)
from symx import runner  # noqa

if __name__ == '__main__':
    sys.exit(runner.main(sys.argv[1:]))
