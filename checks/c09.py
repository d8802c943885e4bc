"""C09: an interrupted fit resumed from its checkpoint equals an uninterrupted one."""
import os
import signal

import h5py
import numpy as np
from tenkit.decomposition.decompositions import KruskalTensor
from tenkit.decomposition.logging.logger import LossLogger, SSELogger

from vmon import gen
from vmon.core import Kind, Skip
from vmon.record import Interrupt, Recorder, distance, same, snap

from .common import CP_STRATA, PF2_STRATA, cp_case, cp_model, pf2_case, pf2_model, pf2_start

PROPERTY = 'C09'
RULE = ('Pairs of runs: an uninterrupted fit and the same fit stopped by an exception in a logger, by SIGKILL of its process, '
        'or by its limit, then resumed in a new model (from the latest or any earlier checkpoint, possibly interrupted again, '
        'possibly into the same file) or continued; final state, iteration counts and stored logs are compared. '
        'Models with tolerances and models used before also load checkpoints and are continued. Non-trivial: a resumed or continued run was compared.')
ASSUMPTIONS = ['rounding differences are judged against a twin run from a start perturbed by 1e-13; pairs whose twin differs '
               'by more than 1e-6 are compared by their iteration counts only',
               'a process is killed between checkpoint writes, not within the HDF5 library',
               'fits with tolerances are interrupted before they have converged']
FLOORS = {'resumed runs compared': 900, 'resumed after exception': 200, 'resumed after kill': 80, 'resumed after limit': 150,
          'resumed from an earlier checkpoint': 150, 'interrupted more than once': 100, 'split runs compared': 250,
          'logs over a resumption judged': 400, 'with tolerances': 150,
          'loaded into a used model': 100, 'loaded with tolerances': 100}


class Problem:
    """One CP or PARAFAC2 fit which can be repeated."""

    def __init__(self, rng, index):
        self.pf2 = index % 3 == 2
        self.seed = int(rng.integers(2**31))
        if self.pf2:
            self.case = pf2_case(rng, PF2_STRATA[index//3 % len(PF2_STRATA)])
        else:
            self.case = cp_case(rng, CP_STRATA[(2*(index//3) + index % 3) % len(CP_STRATA)], max_rank=4, big=0)
        self.init = str(rng.choice(['random', 'precomputed']))
        self.w = gen.weights(rng, self.case.rank, positive=True) if rng.random() < 0.5 and not self.pf2 else None
        self.tol = {}

    def atol(self, ref):
        return 1e-9*np.abs(ref).max() + 1e-12*sum(np.linalg.norm(x)**2 for x in self.case.X)

    def model(self, **kw):
        args = dict(self.tol, **kw)
        args.setdefault('init', self.init)
        return pf2_model(self.case, **args) if self.pf2 else cp_model(self.case, **args)

    def start(self, m=None, n=None, perturbed=0):
        """Fit from the start of this problem."""
        np.random.seed(self.seed)
        d = None
        X = self.case.X
        if perturbed:
            r = np.random.default_rng(perturbed)     # each slice differently: equal slices are to differ
            def noise(x):
                return x*(1 + 1e-13*r.standard_normal()) + 1e-13*np.abs(x).max()*r.standard_normal(x.shape)
            X = [noise(x) for x in X] if self.pf2 else noise(X)
        if self.init == 'precomputed':
            if self.pf2:
                d = pf2_start(self.case)
            else:
                d = KruskalTensor([f.copy() for f in self.case.start], None if self.w is None else self.w.copy())
        m.fit(X, max_its=n, initial_decomposition=d)
        return m


def reference(p, T, rng, mon):
    """Uninterrupted run, with the tolerance to which others can be compared with it."""
    if rng.random() < 0.35:
        free = p.start(p.model(max_its=T, loggers=[r := Recorder(metrics=('SSE', 'loss'))])) and r
        e = np.array([s.metrics['loss' if p.pf2 else 'SSE'] for s in free.snaps])
        rc = np.abs((e[:-1] - e[1:])/e[:-1])
        x2 = sum(np.linalg.norm(x)**2 for x in p.case.X)
        if len(rc) and np.isfinite(rc).all() and (rc > 1e-9).all() and (e > 1e-9*x2).all():
            p.tol = dict(convergence_tol=float(np.sort(rc)[int(rng.integers(len(rc)))]*1.01))
            if not p.pf2 and rng.random() < 0.3:
                p.tol['rel_loss_tol'] = float(1.01*e[int(rng.integers(len(e)))]/np.linalg.norm(p.case.X)**2)
            near = np.abs(rc - p.tol['convergence_tol'])/p.tol['convergence_tol']
            if (near < 1e-4).any():
                p.tol = {}
            else:
                mon.count('with tolerances')
    rec, logs = Recorder(), [LossLogger(), SSELogger()]
    m = p.start(p.model(max_its=T, loggers=[rec, *logs]))
    d = 0.
    for k in (1, 2):
        twin = Recorder()
        p.start(p.model(max_its=T, loggers=[twin]), perturbed=k)
        d = max(d, distance(rec.snaps[-1], twin.snaps[-1]) if n_equal(twin, rec) else np.inf)
        if len(twin.snaps) != len(rec.snaps):
            raise Skip('the stop depends on rounding')
    if 'orth' in p.case.cons and any(vanished(s.F) for s in rec.snaps):   # some orthonormal column is arbitrary
        d = np.inf
    return m, rec, logs, d


def vanished(F):
    n = np.prod([np.linalg.norm(f, axis=0) for f in F], axis=0)
    return n.min() < 1e-9*n.max()


def n_equal(twin, rec):
    return len(twin.snaps) == len(rec.snaps) > 0


def checkpoints(path):
    if not os.path.exists(path):
        return []
    with h5py.File(path, 'r') as h5:
        return [int(i) for i in h5.attrs.get('checkpoint_its', [])]


def in_child(fn):
    """Run fn in a forked process which is expected to kill itself."""
    pid = os.fork()
    if pid == 0:
        try:
            fn()
        finally:
            os._exit(7)
    _, status = os.waitpid(pid, 0)
    return os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL


def compare(mon, rec, its, last, model, d, first, what, **info):
    n = len(rec.its)
    mon.check(its == list(range(first, n)), f'{what}: the iterations performed are not those after the checkpoint', got=its,
              expected=f'{first}..{n - 1}', **info)
    mon.check(model.current_iteration == n, f'{what}: the total iteration count differs', got=model.current_iteration, expected=n, **info)
    s, ref = snap(model), rec.snaps[-1]
    if same(s, ref):
        mon.count('bit-equal')
    elif d < 1e-6:
        mon.leq('difference', distance(s, ref), 1e-8 + 100*d, f'{what}: the final decomposition differs', **info)
    else:
        mon.count('sensitive to rounding, compared by counts')


def judge_logs(mon, p, path, logs, n, d, what, **info):
    with h5py.File(path, 'r') as h5:
        for lg in logs:
            g = h5[type(lg).__name__]
            its, values = g['iterations'][...].tolist(), g['values'][...]
            mon.check(its == list(range(n)), f'{what}: the stored log does not hold every iteration once', got=its, expected=n, **info)
            ref = np.array(lg.log_metrics, dtype=float)
            mon.check(len(values) == n and (np.allclose(values, ref, rtol=1e-5, atol=p.atol(ref)) or not d < 1e-6),
                      f'{what}: the stored log values differ from an uninterrupted fit', **info)
    mon.count('logs over a resumption judged')


def resume(rng, mon, index):
    p = Problem(rng, index)
    T = int(rng.integers(3, 13))
    m0, rec, logs, d = reference(p, T, rng, mon)
    n = len(rec.its)
    mon.describe(pf2=p.pf2, constraints=p.case.cons, ridge=p.case.ridge, rank=p.case.rank, init=p.init, T=T, n=n, tol=p.tol)
    if n == 0:
        raise Skip('the start fits well enough')
    mon.state(*rec.snaps[-1].F)
    path = os.path.join(mon.scratch, 'run.h5')
    freq = int(rng.choice([1, 1, 2, 3, 5]))
    stops = sorted(rng.choice(n, size=min(n, int(rng.choice([1, 1, 2, 3]))), replace=False).tolist())
    hows = [str(rng.choice(['raise', 'raise', 'kill', 'limit'])) for _ in stops]
    if not any(s >= freq for s in stops):
        freq = 1
    same_file = True
    done, attempts = 0, 0
    for stop, how in zip(stops, hows):
        ck = checkpoints(path)
        fresh = not ck
        if fresh and attempts and os.path.exists(path):
            os.remove(path)
        first = 0 if fresh else ck[-1] + 1
        if how == 'limit' and stop + 1 <= first:
            how = 'raise'
        if how != 'limit' and stop < first:
            continue

        def kill(dec, r):
            if dec.current_iteration == stop:
                os.kill(os.getpid(), signal.SIGKILL)
        stopper = Recorder(stop_at=stop) if how == 'raise' else Recorder(hook=kill) if how == 'kill' else Recorder()
        mine = [LossLogger(), SSELogger()]
        order = [stopper, *mine] if rng.random() < 0.5 else [*mine, stopper]
        limit = stop + 1 if how == 'limit' else T
        kw = dict(max_its=limit, loggers=order, checkpoint_path=path, checkpoint_frequency=freq)

        def run():
            if fresh:
                p.start(p.model(**kw))
            else:
                np.random.seed(int(p.seed/2))
                p.model(**dict(kw, init='from_checkpoint')).fit(p.case.X, initial_decomposition=path)
        if how == 'kill':
            mon.check(in_child(run), 'the fit reached the iteration at which its process is killed', stop=stop, first=first, n=n)
        elif how == 'raise':
            try:
                run()
                mon.check(False, 'a resumed fit did not reach an iteration of the uninterrupted fit', stop=stop, first=first, n=n)
            except Interrupt:
                pass
        else:
            run()
        attempts += 1
        mon.count(f'interrupted by {how}')
    if attempts > 1:
        mon.count('interrupted more than once')
    ck = checkpoints(path)
    if not ck:
        mon.count('nothing was checkpointed before the interruption')
        return
    last = ck[-1]
    if last + 1 >= n:
        # the fit was complete: nothing is left to do
        if p.tol:
            return
        m = p.model(max_its=T, init='from_checkpoint', loggers=[r := Recorder()])
        m.fit(p.case.X, initial_decomposition=path)
        compare(mon, rec, r.its, None, m, d, n, 'resumed when complete')
        return
    # any earlier checkpoint, without writing
    for k in rng.choice(ck, size=min(2, len(ck)), replace=False).tolist():
        r = Recorder()
        used = int(rng.choice([0, 0, 1, 2, 5, T]))   # the loading model may have been fitted before
        m = p.start(p.model(max_its=T, loggers=[r]), used)
        used = len(r.its)
        mon.count('loaded into a used model', int(used > 0))
        mon.count('loaded with tolerances', int(bool(p.tol)))
        m.load_checkpoint(path, load_it=k) if k != last or rng.random() < 0.5 else m.load_checkpoint(path)
        mon.check(m.current_iteration == k + 1, 'the iteration count of a loaded checkpoint', got=m.current_iteration, checkpoint=k)
        m.continue_fit(max_its=T)
        compare(mon, rec, r.its[used:], None, m, d, k + 1, 'resumed by load_checkpoint', checkpoint=k, of=ck, used=used, tol=p.tol)
        mon.count('resumed runs compared')
        mon.count('resumed from an earlier checkpoint', int(k != last))
    # the latest checkpoint in a new model
    r, mine = Recorder(), [LossLogger(), SSELogger()]
    init = path if rng.random() < 0.4 else str(rng.choice(['from_checkpoint', 'From_Checkpoint']))
    kw = dict(checkpoint_path=path, checkpoint_frequency=freq) if same_file and rng.random() < 0.8 else {}
    by_call = rng.random() < 0.5
    m = p.model(max_its=T + 7 if by_call else T, init=init, loggers=[*mine, r], **kw)
    np.random.seed(int(rng.integers(2**31)))
    m.fit(p.case.X, max_its=T if by_call else None, initial_decomposition=None if init == path else path)
    compare(mon, rec, r.its, None, m, d, last + 1, 'resumed', freq=freq, stops=stops, hows=hows, checkpoint=last)
    mon.count('resumed runs compared')
    for how in {'raise': ['exception'], 'kill': ['kill'], 'limit': ['limit']}[hows[-1]]:
        mon.count(f'resumed after {how}')
    if kw:
        judge_logs(mon, p, path, logs, n, d, 'resumed into the same file', stops=stops, hows=hows, freq=freq)
        mon.check(checkpoints(path)[-1] == n - 1, 'the resumed fit stored its last iteration')


def split(rng, mon, index):
    """A fit split into a first fit and continued fits, in one file or none."""
    p = Problem(rng, index)
    T = int(rng.integers(3, 13))
    m0, rec, logs, d = reference(p, T, rng, mon)
    n = len(rec.its)
    mon.describe(pf2=p.pf2, constraints=p.case.cons, ridge=p.case.ridge, rank=p.case.rank, init=p.init, T=T, n=n, tol=p.tol)
    if n == 0:
        raise Skip('the start fits well enough')
    cuts = sorted(rng.integers(0, T + 1, size=int(rng.integers(1, 4))).tolist()) + [T]
    path = os.path.join(mon.scratch, 'run.h5')
    kw = dict(checkpoint_path=path, checkpoint_frequency=int(rng.choice([-1, 1, 2, 4]))) if rng.random() < 0.6 else {}
    if kw:   # every part stores its last iteration
        mon.count('split with a file')
    r, mine = Recorder(), [LossLogger(), SSELogger()]
    m = p.start(p.model(max_its=cuts[0], loggers=[r, *mine], **kw))
    for c in cuts[1:]:
        m.continue_fit(max_its=c)
    compare(mon, rec, r.its, None, m, d, 0, 'continued', cuts=cuts)
    for a, b in zip(mine, logs):
        mon.check(list(a.log_iterations) == list(range(n)), 'the log over continued fits', got=list(a.log_iterations))
        ref = np.array(b.log_metrics, dtype=float)
        mon.check(np.allclose(a.log_metrics, ref, rtol=1e-5, atol=p.atol(ref)) or not d < 1e-6, 'the logged values over continued fits')
    if kw and n:
        judge_logs(mon, p, path, logs, n, d, 'continued with a file', cuts=cuts)
    mon.count('split runs compared')


KINDS = {'resume': Kind(resume, 1100, 30000), 'split': Kind(split, 400, 10000)}
