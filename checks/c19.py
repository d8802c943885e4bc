"""C19: fits leave their inputs alone and do not depend on earlier use of the model."""
import copy
import os

import numpy as np
from tenkit.decomposition.decompositions import KruskalTensor, Parafac2Tensor

from vmon import gen
from vmon.core import Kind
from vmon.record import Interrupt, Recorder, Sanitised, distance, snap

from .common import (CP_STRATA, PF2_STRATA, cmtf_case, cmtf_model, cp_case, cp_model, pf2_case, pf2_model, pf2_start)

PROPERTY = 'C19'
RULE = ('Random CP, PARAFAC2 and coupled fits on read-only or checksummed data (all layouts and dtypes), each repeated with a fresh '
        'model after other models were used, and with a model that has fitted, continued, failed or been interrupted on other data '
        'before, or whose iterations are interleaved with those of another model. Non-trivial: two results were compared.')
ASSUMPTIONS = ['results are compared up to the rounding sensitivity of the fit, measured with a twin on data perturbed by 1e-13; '
               'fits whose twin differs by more than 1e-7 are compared by their inputs and iteration counts only',
               'the starting decomposition handed to a fit becomes its working memory and is not an input in this sense']
FLOORS = {'inputs verified': 1500, 'fresh repetitions compared': 600, 'used models compared': 1500, 'interleaved fits compared': 300,
          'seeds compared': 250, 'starts repeated': 150, 'results kept': 300, 'settings objects shared': 10, 'settings verified': 1500, 'histories: other order': 60,
          'histories: interrupted': 120, 'histories: refused': 120, 'histories: checkpoint': 120, 'stops compared': 250}

def convert(rng, arrays):
    if rng.random() < 0.1:   # some entries are negligible
        arrays = [x*np.where(rng.random(x.shape) < 0.1, 1e-14, 1.0) for x in arrays]
    out, dt = gen.typed(rng, arrays, 0.55)
    return [gen.layout(rng, x)[0] for x in out], dt


class Problem:
    def __init__(self, rng, which, index, dtypes=True):
        self.which = which
        if which == 'cp':
            self.case = c = cp_case(rng, CP_STRATA[index % len(CP_STRATA)], max_rank=4, big=0)
            self.inits = ['random', 'precomputed'] + (['svd'] if c.rank <= min(c.shape) and 'nn' not in c.cons else [])
            data = [c.X]
        elif which == 'pf2':
            self.case = c = pf2_case(rng, PF2_STRATA[index % len(PF2_STRATA)])
            self.inits = ['random', 'precomputed']
            if 'nn' not in c.cons and c.rank <= c.I:
                self.inits += ['svd'] + (['cp'] if len(set(c.J)) == 1 and c.rank <= c.J[0] else [])
            data = c.X
        else:
            self.case = c = cmtf_case(rng)
            self.inits = ['random', 'precomputed']
            data = [c.X, *c.Y]
        self.data, self.dtype = convert(rng, data) if dtypes else (data, 'float64')
        if which == 'pf2' and len(set(c.J)) == 1 and rng.random() < 0.4:
            self.data = [gen.layout(rng, np.stack(self.data, axis=-1))[0]]
            self.tensor = True
        else:
            self.tensor = False
        self.init = str(rng.choice(self.inits))
        self.seed = int(rng.integers(2**31))
        self.its = int(rng.choice([1, 2, 3, 5, 8]))
        self.tol = {}

    def model(self, **kw):
        args = dict(init=self.init, **self.tol)
        args.update(kw)
        return dict(cp=cp_model, pf2=pf2_model, cmtf=cmtf_model)[self.which](self.case, **args)

    def start(self):
        if self.init != 'precomputed':
            return None
        if self.which == 'pf2':
            return pf2_start(self.case)
        return KruskalTensor([f.copy() for f in self.case.start])

    def perturbed(self):
        out = []
        for x in self.data:
            y = np.array(x, dtype=float)
            out.append(y*(1 + 1e-13*np.cos(np.arange(y.size)).reshape(y.shape)) + 1e-14*np.abs(y).max()*np.sin(np.arange(y.size)).reshape(y.shape))
        return out

    def fit(self, m, data=None, seed=None, its=None):
        """Fit this problem; the snapshot of the result and the number of iterations."""
        data = self.data if data is None else data
        np.random.seed(self.seed if seed is None else seed)
        its = self.its if its is None else its
        fit_args(self.which, m, data, self.tensor, self.case, its, self.start())
        s = snap(m)
        s.it = m.current_iteration
        return s


def fit_args(which, m, data, tensor, case, its, start):
    if which == 'cp':
        m.fit(data[0], max_its=its, initial_decomposition=start)
    elif which == 'pf2':
        m.fit(data[0] if tensor else list(data), max_its=its, initial_decomposition=start)
    else:
        m.fit(data[0], list(data[1:]), list(case.modes), max_its=its, initial_decomposition=start)


def tolerances(p, rng, mon, m_its=12):
    """Sometimes give the fits tolerances which stop them clearly."""
    if rng.random() > 0.4:
        return
    r = Recorder(metrics=('SSE', 'loss'))
    m = p.model(loggers=[r])
    p.fit(m, its=m_its)
    e = np.array([s.metrics['loss' if p.which == 'pf2' else 'SSE'] for s in r.snaps], dtype=float)
    rc = np.abs((e[:-1] - e[1:])/e[:-1])
    x2 = sum(np.linalg.norm(np.asarray(x, float))**2 for x in p.data)
    if len(rc) < 3 or not (np.isfinite(rc).all() and (rc > 1e-9).all() and (e > 1e-6*x2).all()):
        return
    tol = float(np.sort(rc)[int(rng.integers(len(rc)))]*1.01)
    if (np.abs(rc - tol) < 1e-4*tol).any() or p.dtype == 'float32':
        return
    p.tol, p.its = dict(convergence_tol=tol), m_its
    mon.count('stops compared')


def sensitivity(p, ref):
    t = p.fit(p.model(), data=p.perturbed())
    if t.it != ref.it:
        return np.inf
    d = distance(t, ref)
    if 'orth' in getattr(p.case, 'cons', []):
        n = np.prod([np.linalg.norm(f, axis=0) for f in ref.F], axis=0)
        if n.min() < 1e-9*n.max():
            return np.inf
    return d


def compare(mon, got, ref, d, what, **info):
    mon.check(got.it == ref.it, f'{what}: another number of iterations', got=got.it, expected=ref.it, **info)
    if d > 1e-7:
        mon.count('sensitive, not compared')
        return False
    mon.leq('difference', distance(got, ref), 1e-9 + 1e4*d, f'{what}: another result', **info)
    return True


def settings(m):
    """A copy of the settings, as given by the user."""
    keys = ('rank', 'convergence_tol', 'rel_loss_tol', 'init', 'checkpoint_frequency', 'checkpoint_path', 'print_frequency',
            'ridge_penalties', 'cp_updates_per_it')
    return {k: copy.deepcopy(getattr(m, k)) for k in keys if hasattr(m, k)}


HISTORIES = ['other', 'continue', 'zero', 'interrupted', 'refused', 'checkpoint', 'other', 'metrics', 'same data']


def other_problem(rng, p, index):
    """Data of other sizes which the settings of p admit."""
    c = p.case
    if p.which == 'pf2':
        for _ in range(100):
            o = pf2_case(rng, 'free', dims=None)
            o.I, o.J, o.K = gen.pf2_dims(rng, c.rank)
            if 'orth' not in c.cons or min(o.I, o.K) >= c.rank:
                break
        X = [rng.standard_normal((o.I, j)) for j in o.J]
        return X, o, None, 'other sizes'
    bound = bool(c.kw.get('non_negativity_constraints') is not None or c.kw.get('orthonormality_constraints') is not None
                 or c.kw.get('ridge_penalties') is not None)
    n = len(c.shape) if bound else None
    for _ in range(200):
        shp = gen.shape(rng, n=n, lo=c.rank if rng.random() < 0.5 or 'orth' in c.cons else 1, hi=max(6, c.rank + 1), big=0)
        if all(s >= c.rank and np.prod(shp)//s >= c.rank for s, k in zip(shp, c.cons) if k == 'orth'):
            break
    X = rng.standard_normal(shp)
    Ys, modes = [], []
    if p.which == 'cmtf':
        modes = [int(rng.integers(len(shp))) for _ in range(int(rng.integers(1, 4)))]
        Ys = [rng.standard_normal((shp[k], int(rng.integers(1, 6)))) for k in modes]
    o = type(c)(shape=shp, modes=modes, rank=c.rank)
    return [X, *Ys], o, shp, 'other order' if len(shp) != len(c.shape) else 'other sizes'


def start_for(rng, p, o, rank=None):
    R = p.case.rank if rank is None else rank
    if p.which == 'pf2':
        A, B, C = gen.factors(rng, (o.I, R, o.K), R)
        C = np.abs(C) + 0.1
        return Parafac2Tensor(np.abs(A), np.abs(B), C, [np.linalg.qr(rng.standard_normal((max(j, R), R)))[0][:j] for j in o.J])
    return KruskalTensor([np.abs(f) for f in gen.factors(rng, o.shape, R)])


def pollute(rng, mon, p, m, steps=None):
    """Use the model m for something else."""
    done = []
    for _ in range(int(rng.integers(1, 4)) if steps is None else steps):
        what = str(rng.choice(HISTORIES))
        data, o, shp, kind = other_problem(rng, p, 0)
        init = m.init
        m.init = 'precomputed' if rng.random() < 0.5 else 'random'
        st = start_for(rng, p, o) if m.init == 'precomputed' else None
        its = int(rng.integers(1, 5))
        np.random.seed(int(rng.integers(2**31)))
        if what == 'same data':
            m.init = 'random'
            fit_args(p.which, m, p.data, p.tensor, p.case, its, None)
        elif what == 'zero':
            fit_args(p.which, m, data, False, o, 0, st)
        elif what == 'interrupted':
            logs, m.loggers = m.loggers, [Recorder(stop_at=max(its - 2, 0), keep=False)]
            tol, m.convergence_tol = m.convergence_tol, -1
            try:
                fit_args(p.which, m, data, False, o, its, st)
            except Interrupt:
                mon.count('histories: interrupted')
            m.loggers, m.convergence_tol = logs, tol
        elif what == 'refused':
            m.init = 'precomputed'
            try:
                fit_args(p.which, m, data, False, o, its, start_for(rng, p, o, rank=p.case.rank + 1))
            except ValueError:
                mon.count('histories: refused')
        elif what == 'checkpoint':
            path = os.path.join(mon.scratch, f'{int(rng.integers(2**40))}.h5')
            old = m.checkpoint_path, m.checkpoint_frequency
            m.checkpoint_path, m.checkpoint_frequency = path, 1
            fit_args(p.which, m, data, False, o, its, st)
            m.checkpoint_path, m.checkpoint_frequency = old
            m.load_checkpoint(path)
            mon.count('histories: checkpoint')
        else:
            fit_args(p.which, m, data, False, o, its, st)
            mon.count(f'histories: {kind}')
            if what == 'continue':
                m.continue_fit(max_its=its + 2)
            elif what == 'metrics':
                m.SSE, m.MSE, m.RMSE, m.loss
        m.init = init
        done.append(what if what != 'other' else kind)
    return done


def begin(rng, mon, which, index, **kw):
    p = Problem(rng, which, index, **kw)
    locks = Sanitised(*p.data, lock=bool(rng.random() < 0.6))
    tolerances(p, rng, mon)
    kw0 = copy.deepcopy(p.case.kw)
    info = dict(model=which, shape=getattr(p.case, 'shape', None) or [p.case.I, p.case.J], rank=p.case.rank, constraints=p.case.cons,
                init=p.init, dtype=p.dtype, its=p.its, tol=p.tol)
    mon.describe(**info)
    return p, locks, kw0


def end(mon, p, locks, kw0):
    mon.check(locks.verify(), 'the fit changed its data')
    mon.count('inputs verified')
    mon.check(kw0 == p.case.kw, 'the fit changed the lists of settings it was given', before=kw0, after=p.case.kw)
    mon.count('settings verified')


def repeated(rng, mon, index, which):
    p, locks, kw0 = begin(rng, mon, which, index)
    m = p.model()
    before = settings(m)
    ref = p.fit(m)
    mon.check(settings(m) == before, 'the fit changed the settings of its model', before=before, after=settings(m))
    mon.state(*ref.F)
    for a in (*m.decomposition.factor_matrices[:1], m.decomposition.factor_matrices[2] if which == 'pf2' else m.decomposition.factor_matrices[-1]):
        mon.check(not any(np.shares_memory(a, x) for x in p.data), 'the decomposition shares memory with the data')
    d = sensitivity(p, ref)
    # fresh models, after other models with other settings were used
    q = Problem(rng, which, int(rng.integers(100)), dtypes=False)
    q.fit(q.model())
    if compare(mon, p.fit(p.model()), ref, d, 'a second fresh model'):
        mon.count('fresh repetitions compared')
    # used models
    used = q = None
    for _ in range(2):
        used = p.model()
        done = pollute(rng, mon, p, used)
        mon.describe(history=done)
        kept = None
        if p.which != 'cmtf' and hasattr(used, 'decomposition') and rng.random() < 0.5:
            kept = used.decomposition
            was = snap(used)
        if compare(mon, p.fit(used), ref, d, 'a model used before', history=done):
            mon.count('used models compared')
        if kept is not None:
            class Holder:
                decomposition = kept
            mon.check(distance(snap(Holder), was) == 0, 'a later fit changed the decomposition of an earlier one', history=done)
            mon.count('results kept')
    # the model of the reference fit itself, once more
    if compare(mon, p.fit(m), ref, d, 'the same model again'):
        mon.count('used models compared')
    end(mon, p, locks, kw0)


def interleaved(rng, mon, index, which):
    """Another model fits, continues or fails between the iterations of this one; both have the results they have alone."""
    p, locks, kw0 = begin(rng, mon, which, index)
    rec0 = Recorder()
    ref = p.fit(p.model(loggers=[rec0]))
    d = sensitivity(p, ref)
    q = Problem(rng, which, int(rng.integers(100)), dtypes=False)
    if rng.random() < 0.4 and which == 'cp':   # the same settings objects in both
        if len(q.case.shape) == len(p.case.shape) and 'orth' not in p.case.cons:
            q.case.kw, q.case.cons, q.init = p.case.kw, p.case.cons, 'random'
            mon.count('settings objects shared')
    refq = q.fit(q.model())
    dq = sensitivity(q, refq)
    other = q.model()
    results = []

    def hook(dec, r):
        state = np.random.get_state()
        results.append(q.fit(other))
        if rng.random() < 0.3:
            pollute(rng, mon, q, other, steps=1)
        np.random.set_state(state)
    rec = Recorder(hook=hook)
    m = p.model(loggers=[rec])
    got = p.fit(m)
    if compare(mon, got, ref, d, 'interleaved with another model'):
        mon.count('interleaved fits compared')
    for r in results:
        compare(mon, r, refq, dq, 'the inner model of two interleaved ones')
    mon.check(rec.its == rec0.its, 'interleaving changed the iterations', got=rec.its, expected=rec0.its)
    end(mon, p, locks, kw0)


def seeds(rng, mon, index):
    """The random state is the only source of variation, and random starts do vary with it."""
    which = ['cp', 'pf2', 'cmtf'][index % 3]
    p, locks, kw0 = begin(rng, mon, which, index)
    ref = p.fit(p.model())
    d = sensitivity(p, ref)
    np.random.seed(p.seed)   # another way to the same state
    np.random.standard_normal(int(rng.integers(1, 50)))
    compare(mon, p.fit(p.model()), ref, d, 'the same seed')
    other = p.fit(p.model(), seed=p.seed + 1)
    if which != 'cmtf' and p.init in ('precomputed', 'svd'):
        if compare(mon, other, ref, d, 'a fit without random start under another seed'):
            mon.count('seeds compared')
    elif p.init == 'random':
        a, b = p.fit(p.model(), its=0), p.fit(p.model(), seed=p.seed + 1, its=0)
        again = p.fit(p.model(), its=0)
        arrays = [(*x.F, *(x.P if which == 'pf2' else ()), *(x.V if which == 'cmtf' else ())) for x in (a, again)]
        mon.check(all(np.array_equal(x, y) for x, y in zip(*arrays)), 'a random start is not governed by the random state', model=which)
        mon.count('starts repeated')
        # random vectors of one entry are normalised to a sign
        if sum(f.size for f in a.F if len(f) > 1) > 0 and (which != 'cmtf'):
            mon.check(distance(a, b) > 1e-6, 'a random start does not depend on the random state')
        mon.count('seeds compared')
    # loggers and limits of one model are not those of the next
    r = Recorder(keep=False)
    one = p.model(max_its=2)
    one.loggers.append(r)
    p.fit(one)
    n = len(r.its)
    two = p.model(max_its=7)
    mon.check(two.max_its == 7, 'the limit of one model is that of another')
    p.fit(two)
    mon.check(len(r.its) == n, 'the loggers of one model are called by another')
    end(mon, p, locks, kw0)


def kind(which, fn):
    def run(rng, mon, index):
        fn(rng, mon, index, which)
    return run


KINDS = {'repeated_cp': Kind(kind('cp', repeated), 500, 6000), 'repeated_pf2': Kind(kind('pf2', repeated), 400, 4500),
         'repeated_cmtf': Kind(kind('cmtf', repeated), 350, 4000), 'interleaved_cp': Kind(kind('cp', interleaved), 300, 3000),
         'interleaved_pf2': Kind(kind('pf2', interleaved), 240, 2500), 'interleaved_cmtf': Kind(kind('cmtf', interleaved), 200, 2000),
         'seeds': Kind(seeds, 600, 8000)}
