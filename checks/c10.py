"""C10: checkpoint files hold exactly the due checkpoints and each log entry once."""
import os
import pathlib

import h5py
import numpy as np
from tenkit.decomposition import CP_ALS
from tenkit.decomposition.decompositions import KruskalTensor, Parafac2Tensor
from tenkit.decomposition.logging.logger import (BaseLogger, ExplainedVarianceLogger, LossLogger, MSELogger, RMSELogger,
                                                  SSELogger)
from tenkit.utils import iter_checkpoints

from vmon import gen
from vmon.core import Kind
from vmon.record import Recorder, same, snap, snap_decomposition

from .common import CP_STRATA, PF2_STRATA, cp_case, cp_model, pf2_case, pf2_model, pf2_start

PROPERTY = 'C10'
RULE = ('Random checkpointed fits (frequencies None, negative, 1-12; 0-30 iterations in one or several calls; stopped by '
        'limit or tolerance); the file is read between iterations and afterwards and compared with the recorded history. '
        'Also several loggers of one class, long runs, and runs that pass the ten- and hundred-thousandth iteration. Non-trivial: a file (or its absence) was judged.')
ASSUMPTIONS = ['payloads are read back through the library (whose exactness C12 decides) and, independently, searched for '
               'bit-equal datasets']
FLOORS = {'files judged': 900, 'files judged between iterations': 1500, 'payloads judged': 4000, 'log records judged': 2500,
          'loads judged': 2000, 'ten or more iterations': 200, 'nothing written': 60, 'only the last iteration': 100,
          'parts without iterations': 100, 'more than a hundred iterations': 9, 'records of loggers of the same class': 1000, 'late runs': 40}


class FactorLogger(BaseLogger):
    """A user's logger."""

    def _log(self, decomposer):
        self.log_metrics.append(float(np.sum(decomposer.reconstructed_X[0])))


class MixedLogger(BaseLogger):
    """A user's logger whose values are sometimes whole numbers."""

    def _log(self, decomposer):
        value = decomposer.RMSE
        self.log_metrics.append(float(value) if (decomposer.current_iteration*7 + 3) % 4 < 2 else int(min(value, 1e6)))


class EntryLogger(BaseLogger):
    """A user's logger with a parameter, of which there may be several."""

    def __init__(self, entry):
        super().__init__()
        self.entry = entry

    def _log(self, decomposer):
        X = decomposer.reconstructed_X
        X = X if isinstance(X, np.ndarray) else np.concatenate([np.ravel(x) for x in X])
        self.log_metrics.append(float(np.ravel(X)[self.entry % X.size]))


def decomposition_of(h5group, kind):
    return kind.load_from_hdf5_group(h5group)


def datasets(group):
    out = []
    group.visititems(lambda name, o: out.append(o[...]) if isinstance(o, h5py.Dataset) else None)
    return out


def judge_file(mon, path, kind, due, rec, loggers, between=False, **info):
    """The file holds exactly the due checkpoints."""
    if not due:
        if os.path.exists(path):
            with h5py.File(path, 'r') as h5:
                mon.check(not [g for g in h5 if g.startswith('checkpoint_')], 'a checkpoint which is not due was written',
                          groups=list(h5), **info)
        mon.count('files judged between iterations' if between else 'files judged')
        return
    mon.check(os.path.exists(path), 'no checkpoint file', due=due, **info)
    with h5py.File(path, 'r') as h5:
        groups = sorted(g for g in h5 if g.startswith('checkpoint_'))
        mon.check(groups == [f'checkpoint_{k:05d}' for k in due], 'the checkpoints in the file are not the due ones',
                  groups=groups, due=due, **info)
        mon.check([int(i) for i in h5.attrs['checkpoint_its']] == due, "the file's list of checkpoints differs from its groups",
                  got=list(h5.attrs['checkpoint_its']), due=due, **info)
        mon.check(int(h5.attrs['final_iteration']) == due[-1], "the file's latest iteration differs from its groups",
                  got=int(h5.attrs['final_iteration']), due=due, **info)
        mon.check([g.name.strip('/') for g in iter_checkpoints(h5)] == groups, 'iterating over the checkpoints', due=due, **info)
        if between:
            mon.count('files judged between iterations')
            return
        for k in due:
            g = h5[f'checkpoint_{k:05d}']
            want = rec.snaps[k]
            mon.check(same(snap_decomposition(decomposition_of(g, kind)), want),
                      'a checkpoint does not hold the decomposition after its iteration', checkpoint=k, **info)
            raw = datasets(g)
            for a in [*want.F, *(want.P or [])]:
                mon.check(any(r.shape == a.shape and np.array_equal(r, a) for r in raw), 'a factor is not stored bit-exactly',
                          checkpoint=k, **info)
            mon.count('payloads judged')
        names = [type(lg).__name__ for lg in loggers]
        records = []
        h5.visititems(lambda name, o: records.append((name, o['iterations'][...], o['values'][...]))
                      if isinstance(o, h5py.Group) and 'iterations' in o and 'values' in o else None)
        mon.check(len(records) == len(loggers), 'the file does not hold one record per logger', got=[r[0] for r in records], loggers=names, **info)
        for lg in loggers:
            name = type(lg).__name__
            if names.count(name) > 1:   # wherever the records of loggers of the same class are
                match = [r for r in records if r[1].tolist() == list(lg.log_iterations)
                         and np.array_equal(r[2].astype(float), np.asarray(lg.log_metrics, dtype=float))]
                mon.check(len(match) >= 1, 'the record of one of several loggers of the same class is not in the file', logger=name,
                          records=[(r[0], len(r[1])) for r in records], **info)
                mon.count('records of loggers of the same class')
                continue
            mon.check(name in h5, 'the record of a logger is missing', logger=name, **info)
            its, values = h5[name]['iterations'][...], h5[name]['values'][...]
            mon.check(its.tolist() == list(lg.log_iterations), 'the stored log iterations differ from those in memory', logger=name,
                      got=its.tolist(), expected=list(lg.log_iterations), **info)
            mon.check(np.array_equal(values.astype(float), np.asarray(lg.log_metrics, dtype=float)) and values.dtype.itemsize >= 8,
                      'the stored log values differ from those in memory', logger=name, **info)
            mon.count('log records judged')
    mon.count('files judged')


def run(rng, mon, index):
    pf2 = index % 3 == 2
    if pf2:
        case = pf2_case(rng, PF2_STRATA[index//3 % len(PF2_STRATA)], max_rank=3, K=int(rng.integers(10, 14)) if index % 9 == 8 else None)
        kind = Parafac2Tensor
    else:
        case = cp_case(rng, CP_STRATA[index//3 % len(CP_STRATA)], big=0)
        kind = KruskalTensor
    freq = [None, -1, 1, 1, 2, 3, 4, 5, 7, 12][int(rng.integers(10))]
    path = os.path.join(mon.scratch, 'sub dir' if rng.random() < 0.2 else '', 'run.h5')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    given_path = pathlib.Path(path) if rng.random() < 0.4 else path
    T = int(rng.choice([0, 1, 2, 3, 5, 8, 12, 15, 25]))
    calls = [T] if rng.random() < 0.6 else sorted(rng.integers(0, T + 1, size=2).tolist()) + [T]
    tol = {}
    if rng.random() < 0.25:
        tol = dict(convergence_tol=float(10.0**rng.uniform(-4, -0.5)))
    due = []

    def is_due(k):
        return freq is not None and freq > 0 and (k + 1) % freq == 0

    def hook(dec, rec):
        if rng.random() < 0.3:
            k = rec.its[-1]   # logged before its checkpoint is written
            done = due + [i for i in range(first[0], k) if is_due(i)]
            judge_file(mon, path, kind, sorted(set(done)), rec, [], between=True, freq=freq, calls=calls, iteration=k)
    first = [0]
    rec = Recorder(hook=hook)
    classes = [SSELogger, LossLogger, MSELogger, RMSELogger, ExplainedVarianceLogger, FactorLogger, MixedLogger]
    loggers = [c() for c in rng.permutation(np.array(classes, dtype=object))[:int(rng.integers(0, len(classes) + 1))]]
    if rng.random() < 0.3:
        loggers += [EntryLogger(int(rng.integers(0, 3))) for _ in range(int(rng.integers(2, 4)))]
        if rng.random() < 0.3:
            loggers.append(type(loggers[0])() if not isinstance(loggers[0], EntryLogger) else SSELogger())
        rng.shuffle(loggers)
    all_loggers = [*loggers[:1], rec, *loggers[1:]]
    init = str(rng.choice(['random', 'precomputed']))
    kw = dict(loggers=all_loggers, checkpoint_path=given_path, checkpoint_frequency=freq, init=init, max_its=calls[0], **tol)
    m = pf2_model(case, **kw) if pf2 else cp_model(case, **kw)
    start = None
    if init == 'precomputed':
        start = pf2_start(case) if pf2 else KruskalTensor([f.copy() for f in case.start], gen.weights(rng, case.rank, positive=True))
    info = dict(freq=freq, calls=calls, tol=tol)
    for c, n in enumerate(calls):
        first[0] = len(rec.its)
        if c == 0:
            m.fit(case.X, initial_decomposition=start)
        else:
            m.continue_fit(max_its=n)
        done = len(rec.its)
        due = sorted(set(due + [k for k in range(first[0], done) if is_due(k)] + ([done - 1] if done > first[0] else [])))
        mon.count('parts without iterations', int(done == first[0]))
        judge_file(mon, path, kind, due, rec, loggers if due else [], **info)
    for s in rec.snaps:
        mon.state(*s.F)
    mon.count('ten or more iterations', int(len(rec.its) >= 10))
    mon.count('only the last iteration', int(freq in (None, -1) and len(rec.its) > 1))
    mon.describe(pf2=pf2, rank=case.rank, constraints=case.cons, T=T, loggers=[type(x).__name__ for x in loggers], **info)
    # loading
    if due:
        other = pf2_model(case, init='random', max_its=0) if pf2 else cp_model(case, init='random', max_its=0)
        other.fit(case.X)
        for k in [None, *rng.choice(due, size=min(3, len(due)), replace=False).tolist()]:
            if k is None and rng.random() < 0.5:
                other.load_checkpoint(given_path)
            else:
                other.load_checkpoint(given_path, load_it=k)
            want = rec.snaps[due[-1] if k is None else k]
            mon.check(same(snap(other), want), 'loading a checkpoint gives another decomposition', load_it=k, due=due)
            mon.count('loads judged')
        fresh = pf2_model(case, init='from_checkpoint', max_its=0) if pf2 else cp_model(case, init='from_checkpoint', max_its=0)
        fresh.fit(case.X, initial_decomposition=path)
        s, want = snap(fresh), rec.snaps[due[-1]]
        if 'orth' not in case.cons:   # (orthonormal factors may be orthonormalised once more)
            mon.check(same(s, want), 'a fit from the checkpoint starts elsewhere')
        else:
            mon.check(all(np.allclose(a, b, rtol=0, atol=1e-9*max(np.abs(b).max(), 1e-300)) for a, b in zip(s.F, want.F)),
                      'a fit from the checkpoint starts elsewhere')
        mon.count('loads judged')


def no_path(rng, mon, index):
    """Without a path nothing is written, whatever the frequency."""
    os.makedirs(os.path.join(mon.scratch, 'cwd'))
    old = os.getcwd()
    os.chdir(os.path.join(mon.scratch, 'cwd'))
    try:
        kw = dict(checkpoint_frequency=[None, 1, 2, -1][index % 4], max_its=int(rng.integers(0, 6)), loggers=[SSELogger(), LossLogger()],
                  convergence_tol=-1)
        if index % 2:
            case = pf2_case(rng)
            m = pf2_model(case, **kw)
        else:
            case = cp_case(rng)
            m = cp_model(case, rel_loss_tol=-1, **kw)
        m.fit(case.X)
        m.continue_fit(max_its=8)
        mon.check(m.current_iteration == 8, 'every iteration performed', got=m.current_iteration)
        left = [f for _, _, files in os.walk(mon.scratch) for f in files]
        mon.check(not left, 'a file was written without a path', files=left)
        mon.count('nothing written')
        mon.describe(kind='no path', pf2=bool(index % 2), rank=case.rank, constraints=case.cons)
    finally:
        os.chdir(old)


def history(rng, mon, T, freq, seen, what):
    """A long fit of a tiny problem."""
    path = os.path.join(mon.scratch, 'run.h5')
    lg = SSELogger()
    rec = Recorder()
    m = CP_ALS(1, max_its=T, convergence_tol=-1, rel_loss_tol=-1, checkpoint_path=path, checkpoint_frequency=freq, loggers=[lg, rec],
               print_frequency=-1)
    X = rng.standard_normal((2, 2, 2))
    m.fit(X)
    due = [k for k in range(T) if (k + 1) % freq == 0 or k == T - 1]
    with h5py.File(path, 'r') as h5:
        groups = sorted((g for g in h5 if g.startswith('checkpoint_')), key=lambda g: int(g.split('_')[1]))
        mon.check(groups == [f'checkpoint_{k:05d}' for k in due], 'checkpoints are missing', got=groups[-3:], n=len(groups), T=T, freq=freq)
        mon.check(h5.attrs['checkpoint_its'].tolist() == due, "the file's list of checkpoints differs from its groups", T=T, freq=freq)
        mon.check(int(h5.attrs['final_iteration']) == T - 1, "the file's latest iteration", T=T, freq=freq)
        mon.check(np.array_equal(h5['SSELogger']['values'][...], lg.log_metrics), 'the stored log values differ from those in memory')
        mon.check(h5['SSELogger']['iterations'][...].tolist() == list(range(T)), 'the stored log iterations', T=T, freq=freq)
        mon.check([int(g.name.split('_')[1]) for g in iter_checkpoints(h5)] == due, 'iterating over the checkpoints', T=T, freq=freq)
    other = CP_ALS(1, max_its=0)
    other.fit(X)
    for k in rng.choice(due, size=min(20, len(due)), replace=False).tolist() + [None]:
        other.load_checkpoint(path, load_it=k)
        mon.check(same(snap(other), rec.snaps[due[-1] if k is None else k]), 'loading a checkpoint gives another decomposition', load_it=k, T=T)
        mon.count('loads judged')
    mon.count(seen)
    mon.state(T, freq)
    mon.describe(kind=what, T=T, freq=freq)


def many(rng, mon, index):
    """More checkpoints than usual (from the second case on more than fit into one classic HDF5 attribute)."""
    history(rng, mon, 8400 if index else int(rng.integers(2100, 2700)), 1, 'thousands of checkpoints', 'many')


def long(rng, mon, index):
    """More iterations and checkpoints than a small integer holds."""
    T, freq = [(int(rng.integers(257, 420)), 1), (int(rng.integers(1001, 1300)), int(rng.integers(40, 120))),
               (int(rng.integers(140, 256)), 1)][index % 3]
    history(rng, mon, T, freq, 'more than a hundred iterations', 'long')


def late(rng, mon, index):
    """A run of many iterations, of which only the last ones are performed: the file is the one its start would have left."""
    N = int(rng.choice([9998, 99998, 100000, 999999])) - int(rng.integers(0, 4))
    T, freq = N + int(rng.integers(4, 9)), int(rng.integers(1, 3))
    path = os.path.join(mon.scratch, 'run.h5')
    X = rng.standard_normal((2, 3, 2))
    CP_ALS(1, max_its=1, checkpoint_path=path, checkpoint_frequency=1).fit(X)
    with h5py.File(path, 'a') as h5:
        h5.move('checkpoint_00000', f'checkpoint_{N - 1:05d}')
        h5.attrs['checkpoint_its'] = [N - 1]
        h5.attrs['final_iteration'] = N - 1
    lg, rec = SSELogger(), Recorder()
    m = CP_ALS(1, max_its=0, convergence_tol=-1, rel_loss_tol=-1, checkpoint_path=path, checkpoint_frequency=freq, loggers=[lg, rec],
               print_frequency=-1)
    m.fit(X)
    m.load_checkpoint(path)
    m.continue_fit(max_its=T)
    mon.check(m.current_iteration == T, 'iterations after a load', got=m.current_iteration, T=T)
    due = [N - 1] + [k for k in range(N, T) if (k + 1) % freq == 0 or k == T - 1]
    with h5py.File(path, 'r') as h5:
        groups = {g for g in h5 if g.startswith('checkpoint_')}
        mon.check(groups == {f'checkpoint_{k:05d}' for k in due}, 'checkpoints are missing', got=sorted(groups), N=N, T=T, freq=freq)
        mon.check([int(i) for i in h5.attrs['checkpoint_its']] == due, "the file's list of checkpoints differs from its groups", N=N, T=T, freq=freq)
        mon.check(int(h5.attrs['final_iteration']) == T - 1, "the file's latest iteration", N=N, T=T, freq=freq)
        mon.check(h5['SSELogger']['iterations'][...].tolist() == list(range(N, T)), 'the stored log iterations', N=N, T=T, freq=freq)
        got = [int(g.name.split('_')[1]) for g in iter_checkpoints(h5)]
        mon.check(got == due, 'the checkpoints are not iterated in the order of their iterations', got=got, due=due)
    other = CP_ALS(1, max_its=0)
    other.fit(X)
    for k in due[1:] + [None]:
        other.load_checkpoint(path, load_it=k)
        k = T - 1 if k is None else k
        mon.check(same(snap(other), rec.snaps[k - N]), 'loading a checkpoint gives another decomposition', load_it=k, N=N)
        mon.check(other.current_iteration == k + 1, 'the iteration of a loaded checkpoint', got=other.current_iteration, load_it=k)
    mon.count('late runs')
    mon.state(N, T, freq)
    mon.describe(kind='late', N=N, T=T, freq=freq)


KINDS = {'late': Kind(late, 40, 600), 'many': Kind(many, 1, 2), 'long': Kind(long, 9, 90), 'run': Kind(run, 1800, 40000), 'no_path': Kind(no_path, 120, 1000)}
