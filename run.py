#!/opt/venv/bin/python
"""Run one check: run.py C01 [--replay FILE] [--seed N] [--tier quick|thorough] [--only KIND] [--jobs N]"""
import os
import sys

for _v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ['HDF5_USE_FILE_LOCKING'] = 'FALSE'
HERE = os.path.dirname(os.path.abspath(__file__))
REPO_SRC = os.environ.get('VMON_REPO_SRC', '/repo/src')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO_SRC)

from vmon import core, poison  # noqa: E402

poison.install(REPO_SRC)

if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:], HERE, REPO_SRC))
