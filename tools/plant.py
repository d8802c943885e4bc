"""Confirm planted bugs and store them under seeded/: plant.py SPECS.py [ID...]

SPECS.py defines BUGS = [dict(id, property, needs, what_it_breaks, edits=[(file, old, new)], demo=python source)].
Each is applied in a scratch copy of /repo, where the demonstration must fail and the stable tests must pass.
"""
import concurrent.futures as cf
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
PRELUDE = '''import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
import shutil
import tempfile
import warnings
warnings.simplefilter('ignore')
import numpy as np
'''


def plant(b):
    copy = f"/tmp/plant/{b['id']}"
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', copy], check=True)
    try:
        return _plant(b, copy)
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def _plant(b, copy):
    for file, old, new in b['edits']:
        path = f'{copy}/src/tenkit/{file}'
        text = open(path, newline='').read()
        crlf = '\r\n' in text
        text = text.replace('\r\n', '\n')
        if text.count(old) != 1:
            return b['id'], f'{text.count(old)} occurrences of {old!r}'
        text = text.replace(old, new)
        open(path, 'w', newline='').write(text.replace('\n', '\r\n') if crlf else text)
    diff = subprocess.run(['git', 'diff'], cwd=copy, capture_output=True).stdout
    # lines removed must belong to the original repository
    out = f"{HERE}/seeded/{b['id']}"
    tmp = f"/tmp/plant/{b['id']}-demo"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(f'{tmp}/demo.py', 'w').write(PRELUDE + b['demo'].lstrip('\n'))
    open(f'{tmp}/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f'{tmp}/demo.sh', 0o755)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    for where, want in (('/repo', 0), (copy, 1)):
        r = subprocess.run(['bash', f'{tmp}/demo.sh'], cwd=where, capture_output=True, text=True, env=env, timeout=280)
        if (r.returncode != 0) != bool(want):
            return b['id'], f'demo in {where}: exit {r.returncode}\n{r.stdout[-800:]}{r.stderr[-1500:]}'
        if want and 'AssertionError' not in r.stderr:
            print(b['id'], 'demo fails with', r.stderr.strip().splitlines()[-1:])
    r = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '2', '--randomly-seed=0', '--randomly-dont-reorganize',
                        '--timeout=300', '--continue-on-collection-errors', '-o', 'junit_family=xunit2', f'--junitxml={tmp}/junit.xml', 'src'], cwd=copy,
                       capture_output=True, text=True, env=dict(env, PYTHONHASHSEED='0', PYTHONPATH=f'{copy}/src'))
    subprocess.run(['python3', '/opt/vp/results.py', f'{tmp}/out.json', f'junit:{tmp}/junit.xml'], capture_output=True)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    passed = set(json.load(open(f'{tmp}/out.json'))['passed'])
    if stable - passed:
        return b['id'], f'breaks tests {sorted(stable - passed)}'
    for f in ('junit.xml', 'out.json'):
        os.remove(f'{tmp}/{f}')
    open(f'{tmp}/patch.diff', 'wb').write(diff)
    json.dump({k: b[k] for k in ('property', 'needs', 'what_it_breaks')}, open(f'{tmp}/meta.json', 'w'), indent=1)
    shutil.rmtree(out, ignore_errors=True)
    shutil.move(tmp, out)
    return b['id'], 'planted'


if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    if sys.argv[2:]:
        bugs = [b for b in bugs if b['id'] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(4) as pool:
        for i, r in pool.map(plant, bugs):
            print(i, '->', r, flush=True)
