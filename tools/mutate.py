"""Mutation testing of the checks: mutate.py [--scale 0.1] [--sample N] [--seed S] [--file cp.py] [--jobs 8] [--out FILE]

Small syntactic changes of the library, each in a scratch copy of /repo/src, run against (a fraction of the cases of) every
check until one reports it. What survives is either equivalent or shows what no check looks at.
"""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import time

HERE = os.environ.get('MUT_VERIF') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SRC = '/repo/src/tenkit'
FILES = ['base.py', 'utils.py', 'metrics.py', 'log.py', 'decomposition/cp.py', 'decomposition/cmtf.py', 'decomposition/parafac2.py',
         'decomposition/decompositions.py', 'decomposition/base_decomposer.py', 'decomposition/logging/logger.py']
FIRST = {'base.py': 'C16 C17 C02 C24 C13 C18', 'utils.py': 'C14 C22 C19 C24 C15 C23', 'metrics.py': 'C15 C18', 'log.py': 'C20',
         'decomposition/cp.py': 'C02 C04 C22 C23 C08 C14 C10 C09 C25', 'decomposition/cmtf.py': 'C07 C04 C22 C25 C03 C28',
         'decomposition/parafac2.py': 'C06 C05 C04 C22 C23 C08 C10 C09 C25', 'decomposition/decompositions.py': 'C12 C13 C14 C22 C11 C24',
         'decomposition/base_decomposer.py': 'C10 C08 C09 C11 C25 C23 C04 C19', 'decomposition/logging/logger.py': 'C10 C09'}
ONLY = {'log.py': 'C20', 'metrics.py': 'C15 C18 C26 C14 C22', 'decomposition/cmtf.py': 'C07 C04 C22 C25 C03 C28 C27 C19 C21 C26',
        'decomposition/cp.py': 'C06 C05 C07 C12 C01 C02 C03 C04 C08 C09 C10 C11 C14 C19 C21 C22 C23 C25 C26 C27 C28 C18',
        'decomposition/parafac2.py': 'C03 C04 C05 C06 C08 C09 C10 C11 C19 C21 C22 C23 C25 C26 C27 C28',
        'decomposition/logging/logger.py': 'C10 C09 C11 C26 C25', 'utils.py': 'C14 C15 C16 C17 C19 C22 C23 C24 C02 C06 C07'}
DEAD = {('metrics.py', '_factor_match_score_parafac2'), ('utils.py', 'signfix_evolving_factors'), ('utils.py', 'signfix_normal_factors'),
        ('utils.py', 'fix_signs_evolving_tensor'), ('cmtf.py', '_update_als_factor_')}   # never called
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
       ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '//', ast.Pow: '*'}


def mutants(path):
    src = open(path, newline='').read()
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    for line in src.encode().split(b'\n'):
        starts.append(starts[-1] + len(line) + 1)
    raw = src.encode()
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and (os.path.basename(path), n.name) in DEAD:
            docs |= set(ast.walk(n))
    for n in ast.walk(tree):  # the text of an error is nobody's property
        if isinstance(n, ast.Raise):
            docs |= set(ast.walk(n)) - {n}
    for n in ast.walk(tree):
        for s in getattr(n, 'body', []) if isinstance(getattr(n, 'body', None), list) else []:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
                docs.add(s.value)
    out = []

    def pos(n):
        return starts[n.lineno-1] + n.col_offset, starts[n.end_lineno-1] + n.end_col_offset

    def text(n):
        a, b = pos(n)
        return raw[a:b].decode()

    def put(n, new, what, a=None, b=None):
        p, q = pos(n) if a is None else (a, b)
        out.append((p, q, new, f'{n.lineno}: {what}: {raw[p:q].decode()[:70]!r} -> {new[:70]!r}'))

    for n in ast.walk(tree):
        if n in docs or isinstance(n, ast.Expr) and n.value in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = pos(n.left)[1], pos(n.comparators[0])[0]
            put(n, f' {CMP[type(n.ops[0])]} ', 'compare', a, b)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            put(n, f'({text(n.left)}) {BIN[type(n.op)]} ({text(n.right)})', 'binop')
            if isinstance(n.op, (ast.Add, ast.Mult)):
                put(n, f'({text(n.left)})', 'left only')
        elif isinstance(n, ast.BoolOp):
            put(n, (' or ' if isinstance(n.op, ast.And) else ' and ').join(f'({text(v)})' for v in n.values), 'boolop')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            put(n, f'({text(n.operand)})', 'unary')
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                put(n, str(not n.value), 'bool')
            elif isinstance(n.value, int):
                put(n, str(n.value + 1), 'int+1')
                if n.value > 0:
                    put(n, str(n.value - 1), 'int-1')
            elif isinstance(n.value, float):
                put(n, f'({n.value!r}*100)', 'float')
            elif n.value is None:
                pass
        elif isinstance(n, ast.If):
            put(n.test, 'True', 'if True')
            put(n.test, 'False', 'if False')
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise, ast.Break, ast.Continue, ast.Delete)) or (
                isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript))):
            put(n, 'pass', 'delete')
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    a, b = pos(k)
                    if raw[b:b+1] == b',':
                        b += 1
                    put(n, '', f'drop keyword {k.arg}', a, b)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'astype', 'conj', 'ravel') and not isinstance(n.func.value, ast.Name) or \
                    isinstance(n.func, ast.Attribute) and n.func.attr == 'copy':
                put(n, text(n.func.value) if not text(n.func.value) in ('np', 'copy') else text(n.args[0]), 'no copy')
            elif len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
                put(n, f'({text(n.args[0])})', 'argument only')
            if len(n.args) == 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                put(n, f'{text(n.args[1])}, {text(n.args[0])}', 'swap arguments', pos(n.args[0])[0], pos(n.args[1])[1])
        elif isinstance(n, ast.Attribute) and n.attr == 'T':
            put(n, text(n.value), 'no transpose')
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            put(n, 'return None', 'return None')
    return raw, out


def compiles(raw, m):
    new = raw[:m[0]] + m[2].encode() + raw[m[1]:]
    try:
        ast.parse(new.decode())
    except SyntaxError:
        return None
    return new


def run(job):
    k, file, new, what, scale = job
    d = f'/tmp/mut/{os.getpid()}-{k}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        subprocess.run(['cp', '-a', '/repo/src', d], check=True)
        open(f'{d}/src/tenkit/{file}', 'wb').write(new)
        every = [f'C{i:02d}' for i in range(1, 99) if os.path.exists(f'{HERE}/checks/c{i:02d}.py')]
        first = FIRST[file].split()
        order = first + [c for c in ONLY.get(file, ' '.join(every)).split() if c not in first]
        t = time.time()
        try:
            r = subprocess.run([PY, os.path.abspath(__file__), '--inner', str(scale), str(len(first)), *order], capture_output=True, text=True, timeout=1500, cwd='/tmp',
                               env=dict(os.environ, VMON_REPO_SRC=f'{d}/src', VERIF_SEED='1', MUT_VERIF=HERE))
            last = (r.stdout.strip().splitlines() or ['?'])[-1]
            if r.returncode not in (0, 1):
                last = 'HARNESS ' + last + (r.stderr or '')[-300:]
        except subprocess.TimeoutExpired:
            last = 'TIMEOUT'
        return file, what, last, time.time() - t
    finally:
        shutil.rmtree(d, ignore_errors=True)


def inner(scale, first, order):
    for v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    sys.dont_write_bytecode = True
    os.environ['HDF5_USE_FILE_LOCKING'] = 'FALSE'
    src = os.environ['VMON_REPO_SRC']
    sys.path.insert(0, HERE)
    sys.path.insert(0, src)
    import importlib
    import tempfile
    from vmon import core, poison
    poison.install(src)
    scratch = tempfile.mkdtemp(prefix='mut')
    os.environ['TMPDIR'] = scratch
    tempfile.tempdir = scratch
    os.chdir(scratch)
    try:
        try:
            importlib.import_module('vmon.preload')
        except Exception as e:
            print('killed import', e)
            return 1
        for rank, prop in enumerate(order):
            try:
                mod = importlib.import_module(f'checks.{prop.lower()}')
            except Exception as e:
                print('killed import', e)
                return 1
            known = core.load_known(HERE, prop)
            core._STATE.update(repo=src, here=HERE, seed=int(os.environ.get('VERIF_SEED', '1')), tier='quick', scratch=scratch, case_timeout=60, mod=mod)
            jobs = []
            for kind, k in mod.KINDS.items():
                n = max(min(k.quick, 5), int(k.quick*(scale if rank < first else scale/4)))
                jobs += [(i/max(n, 1), kind, i) for i in range(n)]
            slow = 0
            for _, kind, i in sorted(jobs):
                res = core.run_case((kind, i))
                if res['status'] == 'violation' and res.get('key') not in known:
                    print(f"killed {prop} {kind} {i}: {res['message'][:100]!r}")
                    return 1
                if res['status'] in ('error', 'timeout'):
                    slow += 1
                    print('unclear', prop, kind, i, res['status'], res['message'][:100])
                    if slow > 3:
                        print('killed? ', prop, kind, i, res['status'], res['message'][:100])
                        return 1
        print('SURVIVED')
        return 0
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1:2] == ['--inner']:
        sys.exit(inner(float(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]))
    ap = argparse.ArgumentParser()
    ap.add_argument('--scale', type=float, default=0.1)
    ap.add_argument('--sample', type=int, default=0)
    ap.add_argument('--seed', type=int, default=0)
    ap.add_argument('--file')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--done', help='the output of an earlier run, whose mutants are left out')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    todo = []
    for file in FILES:
        if a.file and a.file not in file:
            continue
        raw, ms = mutants(f'{SRC}/{file}')
        for m in ms:
            new = compiles(raw, m)
            if new is not None and new != raw:
                todo.append((file, new, m[3]))
    random.Random(a.seed).shuffle(todo)
    if a.done:
        done = {x.split('  || ')[1].rsplit('  ', 1)[0] for x in open(a.done) if '  || ' in x}
        todo = [t for t in todo if f'{t[0]} {t[2]}' not in done]
    if a.sample:
        todo = todo[:a.sample]
    print(len(todo), 'mutants', flush=True)
    if a.list:
        for f, _, w in todo:
            print(f, w)
        sys.exit()
    with cf.ThreadPoolExecutor(a.jobs) as pool:
        for f in cf.as_completed([pool.submit(run, (k, *t, a.scale)) for k, t in enumerate(todo)]):
            file, what, last, t = f.result()
            print(f'{last[:160]}  || {file} {what}  {t:.0f} s', flush=True)
