"""C11: a failed checkpoint write never costs earlier checkpoints."""
import os
import signal

import h5py
import numpy as np
from tenkit.decomposition.decompositions import KruskalTensor, Parafac2Tensor
from tenkit.decomposition.logging.logger import LossLogger, SSELogger
from tenkit.utils import iter_checkpoints

from vmon.core import Kind, Skip
from vmon.faults import Fault, Storage
from vmon.record import Recorder, same, snap, snap_decomposition

from .c09 import in_child
from .common import cp_case, cp_model, pf2_case, pf2_model, pf2_start

PROPERTY = 'C11'
RULE = ('Checkpointed fits in which one storage call of writing one checkpoint (creating its group, or any dataset, group or '
        'attribute of the decomposition) fails, before or after taking effect: every call of small problems in turn, random '
        'calls of larger ones; also colliding checkpoints and processes killed between writes. The file is then inspected '
        'and the fit resumed. Non-trivial: a fault fired and the file was judged.')
ASSUMPTIONS = ['faults are errors raised by h5py calls, which leave the HDF5 library itself consistent',
               'a failure of the bookkeeping after the decomposition is written (attributes of the file, logs) must leave the '
               'earlier checkpoints intact; nothing is demanded of the list in that case']
FLOORS = {'faults fired': 900, 'faults before the effect': 400, 'faults after the effect': 300, 'first checkpoints failed': 300,
          'earlier payloads judged': 2000, 'resumed by a new model': 400, 'continued by the same model': 200,
          'collisions': 120, 'killed between writes': 100, 'bookkeeping faults': 100}
ERRORS = [Fault, RuntimeError, ValueError, MemoryError]


class Problem:
    def __init__(self, rng, pf2, small=False):
        self.pf2 = pf2
        cons = ['free', 'nn_all' if not pf2 else 'nn_c', 'ridge'][int(rng.integers(3))]
        if pf2:
            K = int(rng.integers(1, 4)) if small else int(rng.integers(2, 8))
            r = int(rng.integers(1, 3))
            J = [int(rng.integers(r, r + 4)) for _ in range(K)]
            self.case = pf2_case(rng, cons, dims=(int(rng.integers(r, 6)), J, K, r))
        else:
            self.case = cp_case(rng, cons, max_rank=3, big=0, n=int(rng.choice([2, 3])) if small else None, large=0)
        self.T = int(rng.integers(1, 5 if small else 9))
        self.freq = [None, 1, 1, 2, 3][int(rng.integers(5))]
        self.seed = int(rng.integers(2**31))
        self.kind = Parafac2Tensor if pf2 else KruskalTensor
        rec = Recorder()
        self.start(self.model(max_its=self.T, loggers=[rec]))
        self.rec = rec

    def model(self, **kw):
        kw.setdefault('init', 'precomputed')
        return pf2_model(self.case, **kw) if self.pf2 else cp_model(self.case, **kw)

    def start(self, m):
        np.random.seed(self.seed)
        d = pf2_start(self.case) if self.pf2 else KruskalTensor([f.copy() for f in self.case.start])
        m.fit(self.case.X, initial_decomposition=d)
        return m

    def due(self, first=0, last=None):
        """Due checkpoints of a fit performing the iterations first..last."""
        last = self.T - 1 if last is None else last
        if last < first:
            return []
        return [k for k in range(first, last) if self.freq and (k + 1) % self.freq == 0] + [last]


class Armed:
    """A logger which arms the storage from one iteration on, and the window of the calls that may fail."""

    def __init__(self, storage, at, kind, payload_only=True):
        self.storage, self.at, self.kind, self.depth = storage, at, kind, 0
        storage.window = self.window
        self.payload_only = payload_only

    def log(self, dec):
        self.storage.armed = dec.current_iteration == self.at   # until the next iteration is logged

    def write_to_hdf5_group(self, h5):
        pass

    def window(self, name, obj, args):
        if self.storage.when == 'after' and not self.depth and name == 'create_group':
            return False   # whether a creation that failed took place cannot be known
        payload = self.depth or name in ('create_group', 'require_group') and args and 'checkpoint' in str(args[0])
        return bool(payload) == self.payload_only

    def __enter__(self):
        real = self.real = self.kind.store_in_hdf5_group
        armed = self

        def store(obj, group):
            armed.depth += 1
            try:
                return real(obj, group)
            finally:
                armed.depth -= 1
        self.kind.store_in_hdf5_group = store
        self.patch = self.storage.patched()
        self.patch.__enter__()
        return self

    def __exit__(self, *a):
        self.patch.__exit__(*a)
        self.kind.store_in_hdf5_group = self.real
        self.storage.armed = False


def dump(path):
    """Everything in a file, comparable."""
    out = {}
    if not os.path.exists(path):
        return out
    with h5py.File(path, 'r') as h5:
        def visit(name, o):
            out[name] = ('attrs', sorted((k, np.asarray(v).tobytes() if not isinstance(v, str) else v) for k, v in o.attrs.items()))
            if isinstance(o, h5py.Dataset):
                v = o[...]
                out[name] += (v.shape, v.dtype.str, v.tobytes())
        visit('/', h5)
        h5.visititems(visit)
    return out


def judge_state(mon, p, path, due, info, listing=True):
    """The file holds exactly the checkpoints `due`, complete and loadable."""
    if not os.path.exists(path):
        mon.check(not due, 'the checkpoint file vanished', **info)
        return
    with h5py.File(path, 'r') as h5:
        its = [int(i) for i in h5.attrs.get('checkpoint_its', [])]
        groups = sorted(int(g.split('_')[1]) for g in h5 if g.startswith('checkpoint_'))
        iterated = [int(g.name.strip('/').split('_')[1]) for g in iter_checkpoints(h5)]
        if listing:
            mon.check(its == due, 'the listed checkpoints are not the complete ones', listed=its, complete=due, **info)
            mon.check(groups == sorted(due) == iterated, 'a partial checkpoint is left in the file or a complete one is missing',
                      groups=groups, complete=due, **info)
            if due:
                mon.check(int(h5.attrs['final_iteration']) == due[-1], "the file's latest checkpoint is not the last complete one",
                          got=int(h5.attrs['final_iteration']), complete=due, **info)
            else:
                mon.check('final_iteration' not in h5.attrs, 'the file claims a latest checkpoint', **info)
        for k in due:
            g = f'checkpoint_{k:05d}'
            mon.check(g in h5, 'an earlier checkpoint is missing', checkpoint=k, **info)
            s = snap_decomposition(p.kind.load_from_hdf5_group(h5[g]))
            mon.check(same(s, p.rec.snaps[k]), 'an earlier checkpoint was changed', checkpoint=k, **info)
            mon.count('earlier payloads judged')
    # through a model
    m = p.model(init='random', max_its=0)
    m.fit(p.case.X)
    if due:
        for k in ([None] if listing else []) + due[-2:]:
            m.load_checkpoint(path, load_it=k)
            mon.check(same(snap(m), p.rec.snaps[due[-1] if k is None else k]), 'loading gives another decomposition', load_it=k, **info)
    elif listing:
        try:
            m.load_checkpoint(path)
        except Exception:
            pass
        else:
            mon.check(False, 'a checkpoint was loaded from a file without complete checkpoints', **info)


def logs_of(path, loggers):
    with h5py.File(path, 'r') as h5:
        return {type(lg).__name__: h5[type(lg).__name__]['iterations'][...].tolist() for lg in loggers}


def inject(rng, mon, p, k, fail_at, when, error, payload_only=True, what=''):
    """One run whose write of checkpoint k fails; afterwards the file is judged and the fit taken up again."""
    path = os.path.join(mon.scratch, f'f{mon.events["faults fired"]}-{rng.integers(1 << 40)}.h5')
    storage = Storage(fail_at, when, error)
    armed = Armed(storage, k, p.kind, payload_only)
    loggers = [SSELogger(), LossLogger()]
    m = p.model(max_its=p.T, loggers=[*loggers, armed], checkpoint_path=path, checkpoint_frequency=p.freq)
    raised = None
    with armed:
        try:
            p.start(m)
        except error as e:
            raised = e
            if str(e) != 'injected':
                raise
    info = dict(failed=storage.fired, when=when, error=error.__name__, failed_checkpoint=k, freq=p.freq, T=p.T)
    if storage.fired is None:
        mon.count('fault did not fire')
        return storage.calls
    mon.count('faults fired')
    mon.count(f'faults {when} the effect')
    mon.state(storage.fired, when)
    before = [d for d in p.due() if d < k]
    if not before:
        mon.count('first checkpoints failed')
    if not payload_only:
        mon.count('bookkeeping faults')
        judge_state(mon, p, path, before, info, listing=False)
        return storage.calls
    if raised is None:   # the library chose to go on; what is judged then is the file it ends up with
        mon.count('error not passed on')
        before = [d for d in p.due() if d != k]
    judge_state(mon, p, path, before, info)
    if raised is None:
        return storage.calls
    if rng.random() < 0.35:
        done = m.current_iteration
        m.continue_fit(max_its=p.T)
        want = before + p.due(done)
        judge_state(mon, p, path, want, dict(info, then='continued by the same model'))
        if want != before:
            for name, its in logs_of(path, loggers).items():
                mon.check(its == list(range(p.T)), 'the log after a failed write', logger=name, got=its, **info)
        mon.count('continued by the same model')
    else:
        loggers = [SSELogger(), LossLogger()]
        kw = dict(max_its=p.T, loggers=loggers, checkpoint_path=path, checkpoint_frequency=p.freq)
        if before:
            m = p.model(init='from_checkpoint', **kw)
            m.fit(p.case.X, initial_decomposition=path)
        else:
            m = p.start(p.model(**kw))
        resumed_at = before[-1] + 1 if before else 0
        # a resumed fit repeats the iterations bit for bit only if nothing was recomputed on the way
        s = snap(m)
        if same(s, p.rec.snaps[-1]):
            judge_state(mon, p, path, before + p.due(resumed_at), dict(info, then='resumed by a new model'))
        else:
            with h5py.File(path, 'r') as h5:
                mon.check([int(i) for i in h5.attrs['checkpoint_its']] == before + p.due(resumed_at),
                          'the checkpoints after resuming', **info)
            mon.count('resumed with rounding differences')
        for name, its in logs_of(path, loggers).items():
            mon.check(its == list(range(p.T)), 'the log after a failed write and resuming', logger=name, got=its, **info)
        mon.count('resumed by a new model')
    return storage.calls


def each(rng, mon, index):
    """Every storage call of one checkpoint of a small problem, in turn."""
    p = Problem(rng, index % 2 == 1, small=True)
    k = int(rng.choice(p.due()))
    i, calls = 0, None
    while True:
        for when in ('after', 'before'):
            n = mon.events['faults fired']
            calls = inject(rng, mon, p, k, i, when, ERRORS[(i + index) % len(ERRORS)])
            if mon.events['faults fired'] == n and when == 'before':
                mon.check(i > 0, 'writing a checkpoint uses storage calls')
                mon.describe(pf2=p.pf2, T=p.T, freq=p.freq, failed=k, calls=len(calls), shape=getattr(p.case, 'shape', p.case.__dict__.get('J')))
                return
        i += 1


def some(rng, mon, index):
    p = Problem(rng, index % 2 == 1)
    due = p.due()
    for _ in range(2):
        k = int(rng.choice(due))
        n = (4 + p.case.K*2 + 8) if p.pf2 else len(p.case.shape) + 6
        inject(rng, mon, p, k, int(rng.integers(0, n)), str(rng.choice(['before', 'after'])), ERRORS[int(rng.integers(len(ERRORS)))])
    mon.describe(pf2=p.pf2, T=p.T, freq=p.freq, kind='some')


def bookkeeping(rng, mon, index):
    p = Problem(rng, index % 2 == 1)
    if len(p.due()) < 2:
        raise Skip('only one checkpoint')
    k = p.due()[int(rng.integers(1, len(p.due())))]
    inject(rng, mon, p, k, int(rng.integers(0, 10)), str(rng.choice(['before', 'after'])), Fault, payload_only=False)
    mon.describe(pf2=p.pf2, T=p.T, freq=p.freq, kind='bookkeeping')


def collide(rng, mon, index):
    """A checkpoint of that iteration already exists."""
    p = Problem(rng, index % 2 == 1)
    path = os.path.join(mon.scratch, 'c.h5')
    p.start(p.model(max_its=p.T, loggers=[SSELogger()], checkpoint_path=path, checkpoint_frequency=p.freq))
    before = dump(path)
    due = p.due()
    info = dict(freq=p.freq, T=p.T, due=due)
    mon.describe(pf2=p.pf2, T=p.T, freq=p.freq, kind='collide')
    kw = dict(max_its=p.T, loggers=[SSELogger()], checkpoint_path=path, checkpoint_frequency=p.freq)
    try:
        if len(due) > 1 and rng.random() < 0.5:   # from an earlier checkpoint into the same file
            m = p.model(**dict(kw, max_its=0, init='random'))
            m.fit(p.case.X)
            m.load_checkpoint(path, load_it=due[int(rng.integers(len(due) - 1))])
            m.continue_fit(max_its=p.T)
        else:
            p.model(init='random', **kw).fit(p.case.X)
    except Exception as e:
        mon.count(f'refused with {type(e).__name__}')
    else:
        mon.check(False, 'an existing checkpoint was written again without an error', **info)
    mon.check(dump(path) == before, 'a refused checkpoint changed the file', **info)
    judge_state(mon, p, path, due, info)
    mon.count('collisions')


def killed(rng, mon, index):
    p = Problem(rng, index % 2 == 1)
    path = os.path.join(mon.scratch, 'k.h5')
    stop = int(rng.integers(p.T))

    def die(dec, rec):
        if dec.current_iteration == stop:
            os.kill(os.getpid(), signal.SIGKILL)
    kw = dict(max_its=p.T, checkpoint_path=path, checkpoint_frequency=p.freq)
    mon.check(in_child(lambda: p.start(p.model(loggers=[SSELogger(), Recorder(hook=die)], **kw))), 'the process was killed')
    before = [k for k in p.due(0, p.T - 1) if k < stop]
    info = dict(freq=p.freq, T=p.T, killed_at=stop)
    judge_state(mon, p, path, before, info)
    mon.count('killed between writes')
    if before:
        m = p.model(init='from_checkpoint', loggers=[SSELogger()], **kw)
        m.fit(p.case.X, initial_decomposition=path)
        if same(snap(m), p.rec.snaps[-1]):
            judge_state(mon, p, path, before + p.due(before[-1] + 1), info)
    mon.describe(pf2=p.pf2, kind='killed', **info)


KINDS = {'each': Kind(each, 100, 1500), 'some': Kind(some, 500, 12000), 'bookkeeping': Kind(bookkeeping, 500, 3000),
         'collide': Kind(collide, 240, 2000), 'killed': Kind(killed, 200, 2000)}
