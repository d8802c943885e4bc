"""C26: models that are fitted at the same time in different threads do not disturb each other."""
import copy
import os
import random
import sys
import threading
import time

import h5py
import numpy as np
from tenkit import base, metrics, utils
from tenkit.decomposition import decompositions
from tenkit.decomposition.decompositions import KruskalTensor

from vmon import gen
from vmon.core import Kind
from vmon.record import Recorder, Sanitised, distance, snap, snap_decomposition

from .c19 import Problem

PROPERTY = 'C26'
RULE = ('Two to five fits (or readers of one model, or callers of the pure functions) run in threads which are preempted at random lines of '
        'the library; every one must end with the trace and the result it has alone. The interleavings of iterations that really '
        'occurred are recorded. Non-trivial: the iterations of at least two threads were interleaved.')
ASSUMPTIONS = ['every fit has its own model, loggers, starting point and checkpoint file; data arrays may be shared',
               'starts that draw from the global random state are made beforehand', 'threads switch at lines of the Python code of the library '
               '(numpy and h5py release the lock on their own account as well)']
FLOORS = {'fits compared': 1500, 'interleaved iterations': 4000, 'preemptions': 150000, 'checkpoints compared': 800, 'shared data': 120,
          'equal shapes': 400, 'reads compared': 2500, 'calls compared': 6000}
SRC = os.path.dirname(os.path.dirname(os.path.abspath(decompositions.__file__)))


class Noise:
    """Runs functions in threads which give way at random lines of the library."""

    def __init__(self, rng):
        self.p = float(rng.choice([0.02, 0.1, 0.3, 0.6]))
        self.seed = int(rng.integers(2**31))
        self.interval = float(rng.choice([1e-6, 1e-4, 5e-3]))
        self.yields = 0
        self.events = []

    def _tracer(self, rnd):
        p = self.p

        def line(frame, event, arg):
            if event == 'line' and rnd.random() < p:
                self.yields += 1
                time.sleep(0 if rnd.random() < 0.9 else 2e-5)
            return line

        def call(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(SRC) else None
        return call

    def run(self, fns):
        """The results of the functions, or the first exception of one of them."""
        out, errors = [None]*len(fns), []
        gate = threading.Barrier(len(fns))

        def body(i):
            gate.wait()
            sys.settrace(self._tracer(random.Random(self.seed + i)))
            try:
                out[i] = fns[i]()
            except BaseException as e:
                errors.append(e)
            finally:
                sys.settrace(None)
        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(fns))]
        old = sys.getswitchinterval()
        sys.setswitchinterval(self.interval)
        try:
            for t in threads:
                t.start()
            for t in threads:
                t.join()
        finally:
            sys.setswitchinterval(old)
        if errors:
            raise errors[0]
        return out

    def report(self, mon):
        mon.count('preemptions', self.yields)
        switches = sum(a[0] != b[0] for a, b in zip(self.events, self.events[1:]))
        mon.count('interleaved iterations', switches)
        mon.state(repr(self.events))
        return switches


class Task:
    """A fit to be run alone and among others."""

    def __init__(self, rng, mon, i, which, index, like=None):
        self.which, self.i = which, i
        if like is not None and which == like.which:
            self.p = p = copy.copy(like.p)
            p.case = copy.copy(p.case)
            kind = str(rng.choice(['data', 'same', 'noise']))
            if kind == 'data' and p.dtype == 'float64':   # other data of the same shape
                p.data = [rng.standard_normal(x.shape)*np.abs(x).max() for x in p.data]
            elif kind == 'noise' and p.dtype == 'float64':
                p.data = [np.asarray(x)*2.0 for x in p.data]
            else:
                mon.count('shared data')
            mon.count('equal shapes')
        else:
            self.p = p = Problem(rng, which, index)
        if p.init not in ('precomputed', 'svd'):
            p.init = 'precomputed'
        p.its = int(rng.integers(2, 7))
        self.locks = Sanitised(*p.data, lock=True)
        self.freq = int(rng.integers(1, 4)) if which != 'cmtf' and rng.random() < 0.5 else None
        self.metrics = ('SSE', 'loss', 'MSE') if rng.random() < 0.5 else ()
        self.V = None
        if which == 'cmtf':
            np.random.seed(p.seed)
        self.scratch = mon.scratch

    def prepare(self, tag, events=None):
        """The function to run, and where its results will be."""
        p = self.p

        def hook(dec, rec):
            if events is not None:
                events.append((self.i, rec.its[-1]))
        rec = Recorder(metrics=self.metrics, hook=hook)
        kw = dict(loggers=[rec])
        if self.freq:
            kw.update(checkpoint_path=os.path.join(self.scratch, f'{tag}-{self.i}.h5'), checkpoint_frequency=self.freq)
        m = p.model(**kw)
        c = p.case
        start = p.start()
        if self.which == 'cmtf':   # the uncoupled factors are drawn at random
            np.random.seed(p.seed)
            m.fit(p.data[0], list(p.data[1:]), list(c.modes), max_its=0, initial_decomposition=start)

            def go():
                m.continue_fit(max_its=p.its)
                return m
        elif self.which == 'pf2':
            X = p.data[0] if p.tensor else list(p.data)

            def go():
                m.fit(X, max_its=p.its, initial_decomposition=start)
                return m
        else:
            def go():
                m.fit(p.data[0], max_its=p.its, initial_decomposition=start)
                return m
        return go, rec, kw.get('checkpoint_path')

    def sensitivity(self):
        """How far rounding may carry the result."""
        p = copy.copy(self.p)
        p.data = p.perturbed()
        t = copy.copy(self)
        t.p, t.freq = p, None
        go, rec, _ = t.prepare('pert')
        return snap(go()), rec


def compare(mon, task, got, rec, ref, rec0, info):
    mon.check(rec.its == rec0.its, 'other iterations than alone', got=rec.its, alone=rec0.its, **info)
    d = max(distance(snap(got), snap(ref)), max([distance(a, b) for a, b in zip(rec.snaps, rec0.snaps)], default=0))
    bound = 0.0
    if d > 0:
        s, r = task.sensitivity()
        d0 = max(distance(s, snap(ref)), max([distance(a, b) for a, b in zip(r.snaps, rec0.snaps)], default=0))
        if d0 > 1e-7:
            mon.count('sensitive, not compared')
            return False
        bound = 1e-9 + 1e4*d0
    mon.leq('difference', d, bound, 'another result than alone', **info)
    if d == 0 and task.metrics:
        mon.check([s.metrics for s in rec.snaps] == [s.metrics for s in rec0.snaps], 'other metrics than alone', **info)
    return True


def contents(path):
    out = {}
    with h5py.File(path, 'r') as h5:
        out['its'] = [int(i) for i in h5.attrs['checkpoint_its']]
        out['final'] = int(h5.attrs['final_iteration'])
        for k in h5:
            h5[k].visititems(lambda name, o: out.__setitem__(f'{k}/{name}', np.array(o)) if isinstance(o, h5py.Dataset) else None)
    return out


def fits(rng, mon, index):
    n = int(rng.integers(2, 6))
    noise = Noise(rng)
    tasks = []
    alike = bool(rng.random() < 0.6)
    which = ['cp', 'pf2', 'cmtf', 'cp', 'pf2'][index % 5]
    for i in range(n):
        w = which if alike or i == 0 else str(rng.choice(['cp', 'pf2', 'cmtf']))
        tasks.append(Task(rng, mon, i, w, index + 3*i, tasks[0] if alike and i and rng.random() < 0.8 else None))
    mon.describe(threads=[t.which for t in tasks], shapes=[[list(x.shape) for x in t.p.data][:3] for t in tasks], p=noise.p, interval=noise.interval)
    alone = []
    for t in tasks:
        go, rec, path = t.prepare('alone')
        alone.append((go(), rec, path))
    together = [t.prepare('together', noise.events) for t in tasks]
    out = noise.run([go for go, _, _ in together])
    switches = noise.report(mon)
    for t, m, (_, rec, path), (ref, rec0, path0) in zip(tasks, out, together, alone):
        info = dict(model=t.which, threads=n, switches=switches, constraints=t.p.case.cons)
        if not compare(mon, t, m, rec, ref, rec0, info):
            continue
        mon.count('fits compared')
        mon.check(t.locks.verify(), 'the data were changed', **info)
        if path is not None:
            a, b = contents(path), contents(path0)
            mon.check(a.keys() == b.keys() and a['its'] == b['its'] and a['final'] == b['final'], 'other checkpoints than alone', got=a['its'],
                      alone=b['its'], **info)
            last = rec.snaps[-1]
            for k, v in a.items():
                if k.startswith(f'checkpoint_{last.it:05d}'):
                    mon.check(any(v.shape == f.shape and np.array_equal(v, f) for f in [*last.F, *(last.P or []), np.atleast_1d(last.w) if last.w is not None else last.F[0]]),
                              'the last checkpoint is not that of this fit', dataset=k, **info)
            mon.count('checkpoints compared', len(a['its']))


def readers(rng, mon, index):
    """One fitted model, or its decomposition, is read by several threads."""
    which = ['cp', 'pf2', 'cmtf'][index % 3]
    p = Problem(rng, which, index)
    m = p.model(max_its=3)
    p.fit(m, its=3)
    d = m.decomposition
    before = snap(m)
    jobs = {'SSE': lambda: m.SSE, 'loss': lambda: m.loss, 'MSE': lambda: m.MSE, 'reconstruction': lambda: m.reconstructed_X}
    if which == 'pf2':
        jobs.update(slices=lambda: d.construct_slices(), B=lambda: [np.array(b) for b in d.B], unfolded=lambda: d.B_unfolded)
        if len(set(p.case.J)) == 1:
            jobs['tensor'] = d.construct_tensor
        jobs['fms'] = lambda: metrics.factor_match_score([d.A, d.blueprint_B, d.C], [d.A, d.blueprint_B, d.C])[0]
    else:
        jobs.update(tensor=lambda: d.construct_tensor(), parts=lambda: [d.get_single_component_decomposition(r).construct_tensor() for r in range(p.case.rank)],
                    fms=lambda: metrics.factor_match_score(d.factor_matrices, d.factor_matrices, weight_penalty=False)[0])
        if which == 'cp':
            jobs.update(variance=lambda: m.explained_variance, degeneracy=d.degeneracy)
    jobs['copy'] = lambda: snap(m).F
    if p.case.rank > 5:   # the score tries all permutations
        jobs.pop('fms', None)

    def store(k):
        def go():
            path = os.path.join(mon.scratch, f'{k}-{random.random()}.h5')
            d.store(path)
            return snap_decomposition(type(d).from_file(path)).F
        return go
    names = list(jobs)
    want = {k: jobs[k]() for k in names}
    noise = Noise(rng)
    n = int(rng.integers(2, 6))
    orders = [[str(k) for k in rng.permutation(names)] for _ in range(n)]

    def body(i):
        def go():
            out = []
            for k in orders[i]:
                out.append((k, jobs[k]()))
                noise.events.append((i, k))
            return out, store(i)()
        return go
    mon.describe(model=which, rank=p.case.rank, readers=n)
    for out, F in noise.run([body(i) for i in range(n)]):
        for k, v in out:
            mon.check(equal(v, want[k]), f'{k} is another one when several threads read the model', model=which)
            mon.count('reads compared')
        mon.check(equal(F, before.F), 'the decomposition stored by one of several threads is another one', model=which)
        mon.count('reads compared')
    noise.report(mon)
    mon.check(distance(snap(m), before) == 0, 'reading changed the model', model=which)


def equal(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if np.array_equal(a, b, equal_nan=True):
        return True
    s = max(np.abs(a).max(initial=0), np.abs(b).max(initial=0))
    return bool(np.isfinite(a).all()) and bool((np.abs(a - b) <= 1e-10*s + 1e-300).all())


def functions(rng, mon, index):
    """The functions of base, metrics and utils called from several threads on different arguments of equal shapes."""
    shp = gen.shape(rng, big=0, lo=2)
    R = int(rng.integers(1, 5))
    n = int(rng.integers(2, 6))

    def calls():
        F, G = gen.factors(rng, shp, R), gen.factors(rng, shp, R)
        X = rng.standard_normal(shp)
        k = int(rng.integers(len(shp)))
        A, B = rng.standard_normal((R, 9)), rng.standard_normal((4, 9))
        w = gen.weights(rng, R)
        K = KruskalTensor([f.copy() for f in F], w.copy())
        jobs = [lambda: base.khatri_rao(*F), lambda: base.khatri_rao(*F, skip=k) if len(F) > 1 else 0,
                lambda: base.matrix_khatri_rao_product(X, F, k), lambda: base.ktensor(*F), lambda: base.unfold(X, k),
                lambda: base.fold(base.unfold(X, k), k, shp), lambda: base.rightsolve(A, B), lambda: base.non_negative_rightsolve(A, B),
                lambda: base.orthogonal_rightsolve(A, B), lambda: base.add_rightsolve_ridge(base.rightsolve, 0.3)(A, B),
                lambda: base.kron(A, B), lambda: base.unflatten_factors(base.flatten_factors(F), R, shp),
                lambda: utils.normalize_factors(F)[0], lambda: utils.flip_factors(F)[0],
                lambda: metrics.factor_match_score(F, G, weight_penalty=True)[0], lambda: metrics.separate_mode_factor_match_score(F, G),
                lambda: K.construct_tensor(), lambda: K.degeneracy(),
                lambda: [K.get_single_component_decomposition(r).construct_tensor() for r in range(R)]]
        if shp[k] > R + 1:
            jobs.append(lambda: metrics.leverage(F[k]))
        if len(shp) == 3 and min(shp) >= R:
            jobs.append(lambda: metrics.core_consistency(X, *F))
        return [jobs[int(j)] for j in rng.integers(0, len(jobs), 12)]
    noise = Noise(rng)
    lists = [calls() for _ in range(n)]
    want = [[f() for f in fs] for fs in lists]

    def body(i):
        def go():
            out = []
            for j, f in enumerate(lists[i]):
                out.append(f())
                noise.events.append((i, j))
            return out
        return go
    mon.describe(shape=shp, rank=R, threads=n)
    for got, exp in zip(noise.run([body(i) for i in range(n)]), want):
        for g, e in zip(got, exp):
            mon.check(equal(g, e), 'a function called in several threads returns something else', shape_=shp, rank=R)
            mon.count('calls compared')
    noise.report(mon)


KINDS = {'fits': Kind(fits, 500, 6000), 'readers': Kind(readers, 150, 2000), 'functions': Kind(functions, 200, 2500)}
