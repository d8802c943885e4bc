"""C20: experiment logs on disk hold every value once, in order, across restarts."""
import os
import signal

import h5py
import numpy as np
from tenkit.log import Experiment, HDF5Logger, Logger

from vmon import gen
from vmon.core import Kind
from vmon.faults import CALLS, Fault, Storage

PROPERTY = 'C20'
RULE = ('Random histories of log calls, explicit saves, restarts (also after SIGKILL of the logging process), several loggers and '
        'experiments in one file; after each operation the file is compared with a reference list of the logged values. '
        'Store frequencies up to 900. Non-trivial: stored values were compared.')
ASSUMPTIONS = ['a process stops between writes, not within the HDF5 library', 'failing writes are errors of single h5py calls', 'a continued logger has the targets of the first one',
               'parameters and attributes are values which HDF5 attributes can hold']
FLOORS = {'files judged': 8000, 'values judged': 50000, 'restarts': 800, 'restarts which lost values': 300, 'explicit saves': 1200,
          'processes killed': 60, 'experiments run': 250, 'experiments continued': 80, 'files with several experiments': 300,
          'saves without new values': 150, 'faults before the effect': 100,
          'faults after the effect': 100, 'saved after all': 100, 'continued after a failed write': 100}

TARGETS = {
    'total': lambda p, *args: p.sum(),
    'norm': lambda p, *args: np.linalg.norm(p),
    'first': lambda p, *args: p[0],
    'scaled': lambda p, *args: float(args[0]*p[-1]) if args else float(p[-1]),
    'count': lambda p, *args: int(np.abs(p[0])*10),
    'spread': lambda p, *args: np.ptp(p) + sum(args[1:]),
    'flag': lambda p, *args: p[0] > 0,
    'rare': lambda p, *args: np.nan if p[0] > 1 else (np.inf if p[0] < -1 else p[0]),
}


class Log:
    """One experiment's logger next to the reference model of what its file must hold."""

    def __init__(self, rng, path, name):
        n = int(rng.integers(1, 5))
        self.names = [str(t) for t in rng.choice(sorted(TARGETS), n, replace=False)]
        self.args = tuple(rng.standard_normal(int(rng.integers(0, 3))))
        self.path, self.name = path, name
        self.freq = int(rng.choice([1, 1, 2, 3, 5, 7, 10])) if rng.random() < 0.95 else int(rng.integers(60, 400))
        self.values = {t: [] for t in self.names}     # everything logged and not lost
        self.n = self.saved = 0
        self.obj = None

    def open(self, cls=HDF5Logger, continue_old=False):
        kw = dict(continue_old=True) if continue_old else {}
        self.obj = cls(self.path, self.name, self.freq, self.args, **kw, **{t: TARGETS[t] for t in self.names})

    def expect(self, p):
        for t in self.names:
            self.values[t].append(TARGETS[t](p, *self.args))
        self.n += 1
        if self.n % self.freq == 0:
            self.saved = self.n

    def lose(self):
        """The values after the last write are lost; how many."""
        lost = self.n - self.saved
        self.n = self.saved
        for t in self.names:
            del self.values[t][self.saved:]
        return lost

    def judge(self, mon, h5, **info):
        mon.check(self.name in h5, 'the experiment is missing from the file', **info)
        g = h5[self.name]
        for t in self.names:
            mon.check(t in g, 'a target is missing from the file', target=t, **info)
            got = g[t][...]
            want = np.array([float(v) for v in self.values[t][:self.saved]], dtype=float)
            with np.errstate(all='ignore'):
                want = want.astype(np.float32)
            mon.check(got.dtype == np.float32, 'not single precision', got=got.dtype)
            mon.check(got.shape == want.shape, 'the file does not hold the values that must be on disk', target=t, got=got.shape,
                      expected=want.shape, frequency=self.freq, logged=self.n, **info)
            mon.check(np.array_equal(got, want, equal_nan=True), 'the file holds other values than were logged', target=t, **info)
            mon.count('values judged', len(want))


def parameters(rng, p):
    """The next parameters: often the same array, changed in place."""
    if p is None or rng.random() < 0.3:
        return rng.standard_normal(int(rng.integers(1, 6)))*10.0**rng.integers(-3, 4)
    p += rng.standard_normal(p.shape)
    return p


def judge(mon, path, logs, **info):
    with h5py.File(path, 'r') as h5:
        for log in logs:
            if log.obj is not None:
                log.judge(mon, h5, **info)
    mon.count('files judged')


def history(rng, mon, index):
    path = os.path.join(mon.scratch, 'log.h5')
    n_logs = int(rng.choice([1, 1, 2, 3]))
    logs = [Log(rng, path, f'experiment {i}' if rng.random() < 0.5 else f'ex{i}') for i in range(n_logs)]
    same = [log for log in logs if log.name == logs[0].name]
    assert len(same) == 1
    mon.describe(loggers=[(log.names, log.freq) for log in logs])
    mon.count('files with several experiments', int(n_logs > 1))
    ops = []
    p = None
    if rng.random() < 0.3:   # the groups exist already
        Experiment(path, logs[0].name, attributes=dict(a=1))
    for log in logs[:-1] if n_logs > 1 and rng.random() < 0.5 else logs:
        log.open()
    judge(mon, path, logs)
    for _ in range(int(rng.integers(5, 45))):
        log = logs[int(rng.integers(n_logs))]
        if log.obj is None:
            log.open()
            ops.append('open')
        what = str(rng.choice(['log', 'log', 'log', 'log', 'log', 'log', 'save', 'restart', 'burst']))
        ops.append(what)
        if what == 'log':
            p = parameters(rng, p)
            log.expect(p)
            log.obj.log(p)
        elif what == 'burst':
            for _ in range(int(rng.integers(2, 12)) if log.freq < 50 else int(rng.integers(2, 900))):
                p = parameters(rng, p)
                log.expect(p)
                log.obj.log(p)
            mon.count('hundreds of values at once', int(log.freq > 50))
        elif what == 'save':
            mon.count('saves without new values', int(log.saved == log.n))
            log.obj.save_logs()
            log.saved = log.n
            mon.count('explicit saves')
        else:
            lost = log.lose()
            if rng.random() < 0.3 and log.freq < 50:
                log.freq = int(rng.integers(1, 9))
            log.open(continue_old=True)
            mon.count('restarts')
            mon.count('restarts which lost values', int(lost > 0))
        judge(mon, path, logs, history=ops[-8:])
    for log in logs:
        if log.obj is None:
            continue
        log.obj.save_logs()
        log.saved = log.n
    judge(mon, path, logs, history=['final save'])
    mon.state(*[np.array([float(v) for v in log.values[log.names[0]]]) for log in logs])


def faulty(rng, mon, index):
    """Writes fail with an error; the logging goes on, or its process ends and another one continues."""
    path = os.path.join(mon.scratch, 'log.h5')
    log, other = Log(rng, path, 'run'), Log(rng, path, 'bystander')
    mon.describe(targets=log.names, frequency=log.freq)
    for x in (log, other):
        x.open()
    for _ in range(4):
        p = parameters(rng, None)
        other.expect(p)
        other.obj.log(p)
    storage = Storage(targets=CALLS + [(h5py.Dataset, 'resize')])
    with storage.patched():
        for _ in range(int(rng.integers(1, 5))):
            for _ in range(int(rng.integers(0, 6))):
                p = parameters(rng, None)
                log.expect(p)
                log.obj.log(p)
            judge(mon, path, [log, other])
            p = parameters(rng, None)
            saved = log.saved
            log.expect(p)
            log.saved = saved
            storage.n, storage.fired = 0, None
            storage.fail_at, storage.when = int(rng.integers(2*len(log.names))), str(rng.choice(['before', 'after']))
            storage.armed = True
            failed = False
            try:
                log.obj.log(p)
                if log.n % log.freq:
                    log.obj.save_logs()
            except Fault:
                failed = True
                mon.count(f'faults {storage.when} the effect')
            finally:
                storage.armed = False
            if not failed:   # then everything must be there
                log.saved = log.n
                judge(mon, path, [log, other])
                continue
            after = rng.random()
            judge(mon, path, [other])
            if after < 0.5:      # a later save makes up for it
                if after < 0.25:
                    for _ in range(int(rng.integers(1, 4))):
                        p = parameters(rng, None)
                        log.expect(p)
                        log.obj.log(p)
                log.obj.save_logs()
                log.saved = log.n
                mon.count('saved after all')
            else:
                with h5py.File(path, 'r') as h5:
                    stored = [h5['run'][t][...] for t in log.names]
                for t, v in zip(log.names, stored):
                    want = np.array([float(x) for x in log.values[t][:len(v)]]).astype(np.float32)
                    mon.check(saved <= len(v) <= log.n and np.array_equal(v, want, equal_nan=True),
                              'after a failed write the file holds values that were not logged', target=t, got=v[-3:], expected=want[-3:])
                log.saved = min(len(v) for v in stored)
                log.lose()
                log.open(continue_old=True)
                p = parameters(rng, None)
                log.expect(p)
                log.obj.log(p)
                log.obj.save_logs()
                log.saved = log.n
                mon.count('continued after a failed write')
            judge(mon, path, [log, other])


def killed(rng, mon, index):
    """The logging process is killed between two calls; the file is continued by another."""
    path = os.path.join(mon.scratch, 'log.h5')
    log = Log(rng, path, 'run')
    other = Log(rng, path, 'bystander')
    other.open()
    for _ in range(int(rng.integers(1, 10))):
        p = parameters(rng, None)
        other.expect(p)
        other.obj.log(p)
    other.obj.save_logs()
    other.saved = other.n
    first = True
    for _ in range(int(rng.integers(1, 4))):
        n = int(rng.integers(0, 25))
        ps = [parameters(rng, None) for _ in range(n)]
        saves = set(int(i) for i in rng.integers(0, n + 1, int(rng.integers(0, 3))))
        if log.saved == log.n and not first:
            pass
        pid = os.fork()
        if pid == 0:
            try:
                log.open(continue_old=not first)
                for i, p in enumerate(ps):
                    log.obj.log(p)
                    if i in saves:
                        log.obj.save_logs()
            except BaseException:
                os._exit(17)
            os.kill(os.getpid(), signal.SIGKILL)
        status = os.waitpid(pid, 0)[1]
        mon.check(os.WIFSIGNALED(status), 'logging failed', status=status)
        first = False
        log.obj = True
        for i, p in enumerate(ps):
            log.expect(p)
            if i in saves:
                log.saved = log.n
        lost = log.lose()
        mon.count('processes killed')
        mon.count('restarts which lost values', int(lost > 0))
        judge(mon, path, [log, other])
    log.open(continue_old=True)
    for _ in range(int(rng.integers(1, 12))):
        p = parameters(rng, None)
        log.expect(p)
        log.obj.log(p)
    log.obj.save_logs()
    log.saved = log.n
    judge(mon, path, [log, other])
    mon.describe(frequency=log.freq, targets=log.names, values=log.n)


def value(rng):
    k = int(rng.integers(5))
    return [int(rng.integers(100)), float(rng.standard_normal()), 'text', rng.standard_normal(3), bool(rng.integers(2))][k]


def equal(a, b):
    if isinstance(b, str):
        return a == b
    return np.array_equal(np.asarray(a), np.asarray(b)) and np.shape(a) == np.shape(b)


def new_metadata(rng, n):
    """None, or metadata under names not used before."""
    if rng.random() < 0.6:
        return None
    return {f'm{n + i}': 'somebody' if rng.random() < 0.5 else float(rng.standard_normal()) for i in range(int(rng.integers(0, 3)))}


def experiment(rng, mon, index):
    """Whole experiments, several in a file, first runs and continued ones."""
    path = os.path.join(mon.scratch, 'experiments.h5')
    names = ['alpha', 'beta', 'gamma'][:int(rng.integers(1, 4))]
    mon.count('files with several experiments', int(len(names) > 1))
    expected = {}
    order = list(names)
    for i in range(int(rng.integers(0, 3))):
        order.append(names[int(rng.integers(len(names)))])
    shapes = {n: [(), (3,), (2, 4)][int(rng.integers(3))] for n in names}
    metadata = {}
    outnames = {n: ['out%d' % i for i in range(int(rng.integers(1, 4)))] for n in names}
    metrics = {n: ['score%d' % i for i in range(int(rng.integers(0, 3)))] for n in names}
    logs = {}
    mon.describe(order=order)
    for name in order:
        again = name in expected
        attributes = {f'a{i}': value(rng) for i in range(int(rng.integers(0, 3)))} if rng.random() < 0.7 else None
        ex = Experiment(path, name, **({} if attributes is None else dict(attributes=attributes)),
                        **({} if (new := new_metadata(rng, len(metadata))) is None else dict(metadata=new)))
        metadata.update(new or {})
        params = {f'p{i}': value(rng) for i in range(int(rng.integers(0, 4)))}
        if rng.random() < 0.3:
            items = list(params.items())
            items.insert(int(rng.integers(len(items) + 1)), ('init', 'random'))
            params = dict(items)
        X = rng.standard_normal(gen.shape(rng, n=2))
        outputs = {o: rng.standard_normal(shapes[name]) for o in outnames[name]}
        scores = {s: rng.standard_normal() for s in metrics[name]}
        calls = []
        log = None
        if rng.random() < 0.5:
            log = logs.get(name)
            if log is None:
                log = logs[name] = Log(rng, path, name)
                log.open()
            else:
                log.lose()
                log.open(continue_old=True)
        n_logged = int(rng.integers(0, 12))

        def run(X_, h5_group, logger, load_old, **kw):
            calls.append(('run', h5_group.name, load_old))
            mon.check(X_ is X and h5_group.name == '/' + name and bool(load_old) == again and set(kw) == set(params) and
                      all(equal(kw[k], params[k]) for k in kw), 'the experiment was called with other arguments', got=kw)
            mon.check(logger is (None if log is None else log.obj), 'the logger was not passed on')
            if log is not None:
                for _ in range(n_logged):
                    q = parameters(rng, None)
                    log.expect(q)
                    logger.log(q)
            return outputs

        def evaluate(X_, params_, outputs_):
            calls.append('evaluate')
            mon.check(X_ is X and set(params_) == set(params) and outputs_ is outputs, 'the evaluation was called with other arguments')
            return scores
        kw = dict(continue_old=True) if again else {}
        ex.run_experiment(X, run, params, evaluate, logger=None if log is None else log.obj, **kw)
        mon.check(len(calls) == 2, 'the experiment and its evaluation run once each', calls=calls)
        rec = expected.setdefault(name, dict(attrs={}, data={}))
        rec['attrs'].update(attributes or {})
        rec['attrs'].update({k: v for k, v in params.items() if k != 'init'})
        rec['data'].update(outputs)
        rec['data'].update(scores)
        mon.count('experiments continued' if again else 'experiments run')
        with h5py.File(path, 'r') as h5:
            for n, r in expected.items():
                mon.check(n in h5, 'an experiment is missing', name_=n)
                for k, v in r['attrs'].items():
                    mon.check(k in h5[n].attrs and equal(h5[n].attrs[k], v), 'an attribute or parameter was not stored', item=k, of=n, ran=name)
                for k, v in r['data'].items():
                    mon.check(k in h5[n] and equal(h5[n][k][()], v), 'an output or metric was not stored', item=k, of=n, ran=name)
            extra = set(h5) - set(expected) - {'metadata'}
            mon.check(not extra, 'something else was stored', extra=extra)
            for k, v in metadata.items():
                stored = h5['metadata'][k][()] if 'metadata' in h5 and k in h5['metadata'] else None
                mon.check(equal(stored.decode() if isinstance(stored, bytes) else stored, v), 'the metadata were not stored', item=k)
            mon.count('metadata judged', len(metadata))
        judge(mon, path, list(logs.values()))


def memory(rng, mon, index):
    """The logger without a file."""
    log = Log(rng, None, None)
    obj = Logger(log.args, **{t: TARGETS[t] for t in log.names})
    p = None
    for _ in range(int(rng.integers(0, 30))):
        p = parameters(rng, p)
        log.expect(p)
        obj.log(p)
    mon.check(set(obj.target_values) == set(log.names), 'other targets')
    for t in log.names:
        mon.check(np.array_equal(np.array(obj.target_values[t], dtype=float), np.array(log.values[t], dtype=float), equal_nan=True),
                  'the logger holds other values', target=t)
    mon.count('loggers in memory')


KINDS = {'history': Kind(history, 700, 15000), 'killed': Kind(killed, 120, 2500), 'faulty': Kind(faulty, 250, 5000), 'experiment': Kind(experiment, 300, 6000),
         'memory': Kind(memory, 200, 2000)}
