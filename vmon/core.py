"""Engine of the runtime monitors: seeded cases, worker pool, three-valued verdicts, evidence and replay files.

A check module defines
    PROPERTY, RULE, ASSUMPTIONS, LEVEL (default exploration)
    KINDS   = {name: Kind(fn, quick, thorough)}   # fn(rng, mon, index)
    FLOORS  = {event name: minimum count on the quick tier}
"""
import argparse
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib
from collections import Counter, namedtuple

from . import poison, solver

Kind = namedtuple('Kind', 'fn quick thorough')


class Violation(Exception):
    """The monitor saw an execution that breaks the property."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class Skip(Exception):
    """The case does not belong to the property's scope (e.g. an ill-conditioned problem); counted, not judged."""


class CaseTimeout(BaseException):
    pass


class Monitor:
    """What one case observed."""

    def __init__(self, scratch):
        self.events = Counter()
        self.digests = set()
        self.desc = {}
        self.extremes = {}
        self.scratch = scratch

    def count(self, name, n=1):
        self.events[name] += n

    def describe(self, **kw):
        self.desc.update(kw)

    def state(self, *arrays):
        """Record a distinct observed state."""
        import numpy as np
        h = hashlib.blake2b(digest_size=8)
        for a in arrays:
            h.update(np.ascontiguousarray(a).tobytes() if not isinstance(a, (str, bytes)) else str(a).encode())
        self.digests.add(h.hexdigest())

    def extreme(self, name, value):
        """Keep the largest value of a residual, to see how near the monitors come to their thresholds."""
        value = float(value)
        if not value <= self.extremes.get(name, float('-inf')):
            self.extremes[name] = value

    def check(self, ok, message, key=None, **details):
        self.events['assertions'] += 1
        if not ok:
            text = message
            if details:
                text += ' ' + ', '.join(f'{k}={_short(v)}' for k, v in details.items())
            raise Violation(text, key or message)

    def leq(self, name, value, bound, message, key=None, **details):
        """Check value <= bound (NaN violates) and record how near it came."""
        import numpy as np
        value = float(value)
        bound = float(bound)
        if np.isfinite(value) and bound > 0:
            self.extreme(name, value/bound)
        self.check(value <= bound, message, key=key, value=value, bound=bound, **details)


def _short(v):
    s = repr(v)
    return s if len(s) < 200 else s[:200] + '...'


def case_seed(seed, prop, kind, index):
    return [int(seed) & 0xffffffff, zlib.crc32(prop.encode()), zlib.crc32(kind.encode()), int(index)]


_STATE = {}
MALFORMED = (ArithmeticError, AttributeError, LookupError, TypeError, ValueError)  # LinAlgError is a ValueError


def _alarm(signum, frame):
    raise CaseTimeout()


def _blame(exc):
    """Whether an unexpected exception was raised by the code under test ('library') or by this harness."""
    repo, here = _STATE['repo'], _STATE['here']
    for frame in reversed(traceback.extract_tb(exc.__traceback__)):
        path = os.path.abspath(frame.filename)
        if path.startswith(repo):
            return 'library', f'{os.path.basename(path)}:{frame.name}'
        if path.startswith(here):
            return 'harness', f'{os.path.basename(path)}:{frame.lineno}'
    return 'harness', '?'


def run_case(args):
    kind, index = args
    import numpy as np
    mod, seed = _STATE['mod'], _STATE['seed']
    rng = np.random.default_rng(case_seed(seed, mod.PROPERTY, kind, index))
    np.random.seed(int(rng.integers(2**32)))
    scratch = tempfile.mkdtemp(prefix='case', dir=_STATE['scratch'])
    mon = Monitor(scratch)
    res = dict(kind=kind, index=index, status='ok')
    out = io.StringIO()
    t0, filled = time.time(), poison.filled
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(_STATE['case_timeout'])
    try:
        with contextlib.redirect_stdout(out), warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            mod.KINDS[kind].fn(rng, mon, index)
    except Violation as e:
        res.update(status='violation', message=str(e), key=e.key)
    except Skip as e:
        res.update(status='skip', message=str(e))
    except CaseTimeout:
        res.update(status='timeout', message='watchdog')
    except solver.SolverFailed as e:  # outside the code under test
        mon.count('set aside: scipy nnls failed')
        res.update(status='skip', message=f'scipy nnls: {e}')
    except Exception as e:
        _unexpected(res, e)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        shutil.rmtree(scratch, ignore_errors=True)
    mon.count('uninitialised arrays poisoned', poison.filled - filled)
    res.update(events=dict(mon.events), digests=list(mon.digests), desc=mon.desc, extremes=mon.extremes,
               wall=time.time() - t0)
    return res


def _unexpected(res, e):
    who, where = _blame(e)
    tb = ''.join(traceback.format_exception(e))
    if who == 'library':
        res.update(status='violation', key=f'raised {type(e).__name__} in {where}',
                   message=f'the library raised {type(e).__name__} in {where}: {str(e)[:300]}', traceback=tb)
    elif isinstance(e, MALFORMED):  # the monitor could not even read what the library delivered
        res.update(status='violation', key=f'unreadable result: {type(e).__name__} in {where}',
                   message=f'the result cannot be judged, {type(e).__name__} in {where}: {str(e)[:300]}', traceback=tb)
    else:
        res.update(status='error', message=f'{type(e).__name__} in {where}: {e}', traceback=tb)


def _worker_init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def load_known(here, prop):
    """Lines 'known: property=<id> key=<key> :: <what fails>' of known_findings.txt."""
    known = {}
    path = os.path.join(here, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith(f'known: property={prop} key='):
                key, _, what = line.split(' key=', 1)[1].partition(' :: ')
                known[key.strip()] = what.strip()
    return known


def main(argv, here, repo):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    prop = a.property.upper()

    scratch = tempfile.mkdtemp(prefix=f'vmon-{prop}-')
    os.environ['TMPDIR'] = scratch
    tempfile.tempdir = scratch
    os.chdir(scratch)
    _STATE.update(repo=os.path.abspath(repo), here=here, seed=a.seed, tier=a.tier, scratch=scratch,
                  case_timeout=150 if a.tier == 'quick' else 600)
    try:
        return _main(a, prop, here, repo, t0)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


def _main(a, prop, here, repo, t0):
    try:
        import tenkit
        origin = os.path.abspath(os.path.dirname(tenkit.__file__))
        if not origin.startswith(os.path.abspath(repo)):
            print(f'ERROR: tenkit was imported from {origin}, not from {repo}')
            return 2
        importlib.import_module('vmon.preload')
        mod = importlib.import_module(f'checks.{prop.lower()}')
    except Exception as e:
        traceback.print_exc()
        who, where = _blame(e)
        if who == 'library':  # the code under test does not even import
            print(f'the library raised {type(e).__name__} on import in {where}: {e}')
            return _report_import_failure(a, prop, here, t0, f'import failed in {where}: {e}')
        return 2
    _STATE['mod'] = mod

    if a.replay:
        r = json.load(open(a.replay))
        _STATE['seed'] = r['seed']
        _STATE['case_timeout'] = 3600
        if r.get('kind') is None:
            print('import succeeded')
            return 0
        res = run_case((r['kind'], r['index']))
        print(json.dumps({k: v for k, v in res.items() if k not in ('digests', 'traceback')}, indent=1, default=str))
        if 'traceback' in res:
            print(res['traceback'])
        if res['status'] == 'violation':
            print(f'VIOLATION property={prop} replay={a.replay}')
            return 1
        return 0 if res['status'] in ('ok', 'skip') else 2

    jobs = []
    for kind, k in mod.KINDS.items():
        if a.only and kind not in a.only.split(','):
            continue
        n = k.quick if a.tier == 'quick' else k.thorough
        jobs += [(i/max(n, 1), kind, i) for i in range(n)]
    jobs = [(kind, i) for _, kind, i in sorted(jobs)]  # interleave the kinds

    budget = 700 if a.tier == 'quick' else 3300
    results, broken, cut = [], None, False
    if a.jobs == 1:
        for j in jobs:
            results.append(run_case(j))
            if time.time() - t0 > budget:
                cut = True
                break
    else:
        from concurrent.futures import ProcessPoolExecutor, FIRST_COMPLETED, wait
        ctx = mp.get_context('fork')
        with ProcessPoolExecutor(a.jobs, mp_context=ctx, initializer=_worker_init) as pool:
            try:
                it = iter(jobs)
                pending = set()
                exhausted = False
                while True:
                    while not exhausted and len(pending) < 4*a.jobs:
                        j = next(it, None)
                        if j is None or time.time() - t0 > budget:
                            cut = cut or j is not None
                            exhausted = True
                            break
                        pending.add(pool.submit(run_case, j))
                    if not pending:
                        break
                    done, pending = wait(pending, return_when=FIRST_COMPLETED)
                    results += [f.result() for f in done]
            except Exception as e:  # a worker died
                broken = f'{type(e).__name__}: {e}'
    return _verdict(a, prop, mod, here, results, broken, cut, len(jobs), t0)


def _report_import_failure(a, prop, here, t0, message):
    path = _write_replay(here, dict(property=prop, kind=None, index=0, seed=a.seed, tier=a.tier, message=message))
    _write_evidence(a, prop, here, 'exploration', dict(
        evaluations=1, distinct_nontrivial=0, rule='importing the package', samples=[message]), [], t0, 1)
    print(f'VIOLATION property={prop} replay={path}')
    return 1


def _write_replay(here, r):
    os.makedirs(os.path.join(here, 'replays'), exist_ok=True)
    path = os.path.join(here, 'replays', f"{r['property']}-{r['kind']}-{r['index']}-s{r['seed']}.json")
    json.dump(r, open(path, 'w'), indent=1, default=str)
    return path


def _write_evidence(a, prop, here, level, coverage, assumptions, t0, violations):
    if a.no_evidence or a.only:
        return
    os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
    ev = dict(property=prop, tier=a.tier, seed=a.seed, level=level, coverage=coverage, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=violations)
    tmp = os.path.join(here, 'evidence', f'.{prop}.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1, default=_jsonable)
    os.replace(tmp, os.path.join(here, 'evidence', f'{prop}.json'))


def _jsonable(o):
    if hasattr(o, 'tolist'):
        return o.tolist()
    return str(o)


def _verdict(a, prop, mod, here, results, broken, cut, planned, t0):
    events, extremes, digests = Counter(), {}, set()
    status, per_kind, descs, nontrivial = Counter(), {}, [], set()
    for r in results:
        status[r['status']] += 1
        pk = per_kind.setdefault(r['kind'], Counter())
        pk[r['status']] += 1
        for k, v in r['events'].items():
            events[k] += v
        for k, v in r['extremes'].items():
            extremes[k] = max(v, extremes.get(k, v))
        digests.update(r['digests'])
        if r['status'] == 'ok' and r['events'].get('assertions', 0) > 0:
            nontrivial.add(json.dumps([r['kind'], r['desc']], sort_keys=True, default=_jsonable)
                           if r['desc'] else f"{r['kind']}#{r['index']}")
    seen_kinds = set()
    for r in sorted(results, key=lambda r: (r['kind'], r['index'])):
        if r['status'] == 'ok' and r['kind'] not in seen_kinds:
            seen_kinds.add(r['kind'])
            descs.append(dict(kind=r['kind'], index=r['index'], case=r['desc'], observed=r['events']))

    known = load_known(here, prop)
    viol = [r for r in results if r['status'] == 'violation']
    known_hits = Counter(r['key'] for r in viol if r['key'] in known)
    new = [r for r in viol if r['key'] not in known]
    new.sort(key=lambda r: (r['kind'], r['index']))

    if a.verbose:
        for r in sorted(results, key=lambda r: -r['wall'])[:5]:
            print('slow', r['kind'], r['index'], round(r['wall'], 2), r['desc'])
        for r in results:
            if r['status'] in ('error', 'timeout'):
                print(r['status'], r['kind'], r['index'], r.get('message'), r['desc'])
                print(r.get('traceback', ''))
        skips = Counter((r['kind'], r['message']) for r in results if r['status'] == 'skip')
        for k, v in skips.most_common(12):
            print('skip', k, v)
        print('extremes', {k: f'{v:.3g}' for k, v in extremes.items()})

    coverage = dict(
        evaluations=len(results), distinct_nontrivial=len(nontrivial), rule=mod.RULE, samples=descs,
        cases=dict(status), cases_per_kind={k: dict(v) for k, v in per_kind.items()},
        observed_events=dict(events), distinct_states_observed=len(digests),
        largest_residual_relative_to_tolerance={k: float(f'{v:.3g}') for k, v in extremes.items()},
        planned_cases=planned, cut_by_time=cut)
    if hasattr(mod, 'coverage_extra'):
        coverage.update(mod.coverage_extra(results, events))
    _write_evidence(a, prop, here, getattr(mod, 'LEVEL', 'exploration'), coverage, mod.ASSUMPTIONS, t0, len(new))

    print(f"{prop} tier={a.tier} seed={a.seed}: {dict(status)}, {len(digests)} distinct states, "
          f"{dict(events)}, {time.time() - t0:.1f} s")
    for key, n in known_hits.items():
        print(f'KNOWN-FINDING: property={prop} {known[key]} ({n} cases)')
    if new:
        keys = set()
        for r in new:
            if r['key'] in keys:
                continue
            keys.add(r['key'])
            path = _write_replay(here, dict(property=prop, kind=r['kind'], index=r['index'], seed=a.seed, tier=a.tier,
                                            message=r['message'], case=r['desc'], traceback=r.get('traceback')))
            print(f"  {r['kind']}[{r['index']}] {r['desc']}: {r['message']}")
            print(f'VIOLATION property={prop} replay={path}')
            if len(keys) >= 5:
                break
        print(f'  {len(new)} violating cases')
        return 1
    if broken:
        print(f'INCONCLUSIVE: {broken}')
        return 2
    errors = [r for r in results if r['status'] == 'error']
    for r in errors[:3]:
        print(f"HARNESS ERROR in {r['kind']}[{r['index']}]: {r['message']}\n{r['traceback']}")
    if errors:
        return 2
    if status['timeout'] > 0.02*len(results):
        print(f"INCONCLUSIVE: {status['timeout']} cases hit the watchdog")
        return 2
    if not a.only:
        scale = 1 if a.tier == 'quick' else 1
        low = {k: (events[k], v) for k, v in getattr(mod, 'FLOORS', {}).items() if events[k] < v*scale}
        if low:
            print(f'INCONCLUSIVE: too little was observed {low}')
            return 2
    return 0
