"""Rewrite the section of DESIGN.md on workloads and assumptions from the checks: gen_design.py (run with /opt/venv/bin/python)."""
import glob
import importlib
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, '/repo/src']
START, END = '### Workloads and assumptions of each check\n', '## Genuine defects found'
lines = []
for path in sorted(glob.glob(f'{HERE}/checks/c[0-9][0-9].py')):
    m = importlib.import_module('checks.' + os.path.basename(path)[:-3])
    kinds = ', '.join(f'{k} {v.quick}/{v.thorough}' for k, v in m.KINDS.items())
    lines.append(f"* **{m.PROPERTY}** {m.RULE} *Assumptions:* {'; '.join(m.ASSUMPTIONS)}. *Cases (quick/thorough):* {kinds}.")
text = open(f'{HERE}/DESIGN.md').read()
a, b = text.index(START) + len(START), text.index(END)
open(f'{HERE}/DESIGN.md', 'w').write(text[:a] + '\n'.join(lines) + '\n\n' + text[b:])
