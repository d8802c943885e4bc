"""Run the checks against planted bugs in scratch copies: trial.py [--all] [ID...]; --all runs every check on each bug."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def trial(job):
    bug, every = job
    copy = f'/tmp/trial/{bug}'
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs('/tmp/trial', exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', copy], check=True)
    try:
        patch = f'{HERE}/seeded/{bug}/patch.diff'
        subprocess.run(['git', 'apply', patch], cwd=copy, check=True)
        blame = []
        file = None
        for line in open(patch, errors='replace'):  # do the removed lines belong to the original repository?
            if line.startswith('--- a/'):
                file = line[6:].strip()
            if line.startswith('-') and not line.startswith('---') and line[1:].strip():
                out = subprocess.run(['git', 'log', '--format=%h', f'-S{line[1:].rstrip()}', '2d69621..', '--', file], cwd='/repo', capture_output=True, text=True).stdout
                blame.append(bool(out.strip()))
        own = json.load(open(f'{HERE}/seeded/{bug}/meta.json'))['property']
        props = [own] if not every else [f'C{i:02d}' for i in range(1, 99) if os.path.exists(f'{HERE}/checks/c{i:02d}.py')]
        caught = []
        t = time.time()
        for p in props:
            r = subprocess.run([PY, 'run.py', p, '--no-evidence', '--jobs', '2'], cwd=HERE, capture_output=True, text=True,
                               env=dict(os.environ, VMON_REPO_SRC=f'{copy}/src', VERIF_SEED='1', VERIF_TIER='quick'))
            n = re.findall(r'(\d+) violating cases', r.stdout)
            if r.returncode == 1:
                caught.append(f'{p}({n[0] if n else "?"})')
            elif r.returncode != 0:
                caught.append(f'{p}:exit{r.returncode} {(r.stdout+r.stderr)[-300:]}')
        return bug, own, caught, time.time() - t, sum(blame), len(blame)
    finally:
        shutil.rmtree(copy, ignore_errors=True)


if __name__ == '__main__':
    every = '--all' in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(f'{HERE}/seeded'))
    with cf.ThreadPoolExecutor(4) as pool:
        for bug, own, caught, t, mine, n in pool.map(trial, [(i, every) for i in ids]):
            hit = any(c.startswith(own + '(') for c in caught)
            print(f"{'caught' if hit else 'MISSED':7} {bug:28} {own} by {' '.join(caught) or '-'}  {t:.0f} s"
                  + (f'  [{mine}/{n} removed lines are from own commits]' if mine else ''), flush=True)
