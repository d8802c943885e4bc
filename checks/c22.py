"""C22: inconsistent models and starting points are refused before fitting."""
import os
from pathlib import Path

import h5py
import numpy as np
from tenkit import metrics
from tenkit.decomposition.cmtf import CMTF_ALS
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.decompositions import KruskalTensor, Parafac2Tensor
from tenkit.decomposition.parafac2 import Parafac2_ALS

from vmon import gen
from vmon.core import Kind, Violation
from vmon.record import Recorder, same, snap

from . import containers

PROPERTY = 'C22'
RULE = ('Consistent problems with one aspect changed (rank, number of modes or slices, one length or width, scheme, method, '
        'reduction, checkpoint, contradictory constraints) must raise an error before any iteration is seen by a logger; their '
        'unchanged counterparts must be accepted. A model that refused a checkpoint stays as it was. Non-trivial: a refusal or an acceptance was judged.')
ASSUMPTIONS = ['an error of any type counts as a refusal']
FLOORS = {'accepted': 4500, 'refused: rank': 450, 'refused: number of modes': 300, 'refused: a length': 600, 'refused: SVD rank': 180,
          'refused: scheme': 360, 'refused: missing checkpoint': 300, 'models unchanged by a refused load': 500, 'refused: missing iteration': 240, 'refused: other checkpoint': 240,
          'refused: not a checkpoint': 240, 'refused: contradictory constraints': 300, 'refused: columns': 900, 'refused: weights': 900,
          'refused: random method': 600, 'refused: reduction': 1200, 'refused: number of slices': 150, 'refused: a width': 150}
SCHEMES = ['nvecs', 'randn', 'randomly', 'svd ', 'hosvd', '', 'pre-computed', 'none', 'cp_als', 'checkpoint', 'no such file.h5', '/nonexistent/file']


def refused(mon, rec, what, fn, **info):
    """fn must raise an error and no iteration may have been seen."""
    try:
        out = fn()
    except Violation:
        raise
    except Exception as e:
        mon.check(rec is None or not rec.its, f'iterations were performed before the refusal ({what})', seen=rec and rec.its, error=e, **info)
        mon.count(f'refused: {what}')
        mon.state(what, repr(sorted(info.items(), key=str)))
        mon.count(f'error {type(e).__name__}')
        return
    mon.check(False, f'not refused: {what}', returned=type(out).__name__, iterations=rec and rec.its, **info)


class World:
    """A consistent problem for one of the models."""

    def __init__(self, rng, which):
        self.rng, self.which = rng, which
        self.R = int(rng.integers(1, 5))
        self.its = int(rng.integers(1, 4))
        if which == 'pf2':
            self.I, self.J, self.K = gen.pf2_dims(rng, self.R, hi=7, K=int(rng.integers(9, 35)) if rng.random() < 0.15 else None)
            self.X = [rng.standard_normal((self.I, j)) for j in self.J]
        else:
            self.shape = gen.shape(rng, big=0, hi=6)
            self.X = rng.standard_normal(self.shape)
            self.Y, self.modes = [], []
            if which == 'cmtf':
                self.modes = [int(rng.integers(len(self.shape))) for _ in range(int(rng.integers(1, 4)))]
                self.Y = [rng.standard_normal((self.shape[m], int(rng.integers(1, 6)))) for m in self.modes]

    @property
    def cls(self):
        return dict(cp=CP_ALS, cmtf=CMTF_ALS, pf2=Parafac2_ALS)[self.which]

    def start(self, R=None, shape=None, I=None, J=None, K=None, n_proj=None):
        R = R or self.R
        rng = self.rng
        if self.which != 'pf2':
            w = gen.weights(rng, R) if rng.random() < 0.3 else None
            return KruskalTensor(gen.factors(rng, shape or self.shape, R), w)
        J = self.J if J is None else J
        A, B, C = gen.factors(rng, (I or self.I, R, K or self.K), R)
        P = [np.linalg.qr(rng.standard_normal((max(j, R), R)))[0][:j] for j in J]
        return Parafac2Tensor(A, B, C, P)

    def model(self, init='precomputed', rank=None, rec=None, **kw):
        args = dict(max_its=self.its, init=init, loggers=[rec] if rec is not None else [])
        if self.which == 'pf2':
            args['print_frequency'] = -1
        args.update(kw)
        return self.cls(rank or self.R, **args)

    def fit(self, m, start=None, transform=False):
        f = m.fit_transform if transform else m.fit
        if self.which == 'pf2':
            regular = len(set(self.J)) == 1
            X = np.stack(self.X, axis=-1) if regular and self.rng.random() < 0.4 else list(self.X)
            return f(X, initial_decomposition=start)
        if self.which == 'cmtf':
            return f(self.X, list(self.Y), list(self.modes), initial_decomposition=start)
        return f(self.X, initial_decomposition=start)

    def info(self):
        if self.which == 'pf2':
            return dict(model='pf2', rank=self.R, I=self.I, J=self.J)
        return dict(model=self.which, rank=self.R, shape_=self.shape)


def try_start(mon, w, what, start, **info):
    rec = Recorder(keep=False)
    tr = bool(w.rng.random() < 0.5)
    m = w.model(rec=rec)
    if w.rng.random() < 0.2:
        m.max_its = 0   # the refusal does not depend on an iteration being performed
    refused(mon, rec, what, lambda: w.fit(m, start, tr), **w.info(), **info)
    if w.rng.random() < 0.2:   # the model is as good as before
        m.max_its = w.its
        w.fit(m, w.start())
        mon.check(len(rec.its) >= 1, 'a consistent fit performed no iteration', **w.info())
        mon.count('accepted')


def accept(mon, w, start=None, init='precomputed', **kw):
    rec = Recorder(keep=False)
    m = w.model(init=init, rec=rec, **kw)
    w.fit(m, start)
    mon.check(len(rec.its) >= 1, 'a consistent fit performed no iteration', init=init, **w.info())
    mon.count('accepted')
    return m


def starts(rng, mon, index):
    w = World(rng, ['cp', 'pf2', 'cp', 'cmtf'][index % 4])
    mon.describe(**w.info())
    accept(mon, w, w.start())
    for R in {w.R + 1, w.R + int(rng.integers(2, 5)), *([w.R - 1] if w.R > 1 else [])}:
        try_start(mon, w, 'rank', w.start(R=R), given=R)
    if w.which != 'pf2':
        n = len(w.shape)
        try_start(mon, w, 'number of modes', w.start(shape=(*w.shape, int(rng.integers(1, 4)))))
        try_start(mon, w, 'number of modes', w.start(shape=(*w.shape, 1)))
        if n > 2:
            try_start(mon, w, 'number of modes', w.start(shape=w.shape[:-1]))
        for m in range(n):
            s = list(w.shape)
            for u in {1, s[m] + 1, s[m] - 1, s[m] + int(rng.integers(2, 6))} - {0, s[m]}:
                try_start(mon, w, 'a length', w.start(shape=(*s[:m], u, *s[m+1:])), mode=m, length=u)
        return
    for what in ('I', 'K'):
        v = getattr(w, what)
        for u in {1, v + 1, v - 1} - {0, v}:
            if what == 'K':
                try_start(mon, w, 'a length', w.start(K=u), mode='C', length=u)
            else:
                try_start(mon, w, 'a length', w.start(I=u), mode='A', length=u)
    extra = int(rng.integers(w.R, w.R + 5))
    try_start(mon, w, 'number of slices', w.start(J=[*w.J, extra]))
    if w.K > 1:
        try_start(mon, w, 'number of slices', w.start(J=w.J[:-1]))
        try_start(mon, w, 'number of slices', w.start(J=w.J[:-1], K=w.K - 1))
    try_start(mon, w, 'number of slices', w.start(J=[*w.J, extra], K=w.K + 1))
    for k in {0, int(rng.integers(w.K)), w.K - 1}:
        J = list(w.J)
        J[k] += 1 if J[k] <= w.R or rng.random() < 0.6 else -1
        try_start(mon, w, 'a width', w.start(J=J), slice=k)
    # one matrix with another number of columns
    A, B, C = gen.factors(rng, (w.I, w.R, w.K), w.R)
    P = [np.linalg.qr(rng.standard_normal((j, w.R)))[0] for j in w.J]
    bad = int(rng.integers(3))
    F = [np.concatenate([f, f[:, :1]], axis=1) if i == bad else f for i, f in enumerate((A, B, C))]
    rec = Recorder(keep=False)
    refused(mon, rec, 'rank', lambda: w.fit(w.model(rec=rec), Parafac2Tensor(*F, P)), matrix='ABC'[bad], **w.info())


def schemes(rng, mon, index):
    w = World(rng, ['cp', 'pf2', 'cmtf'][index % 3])
    mon.describe(**w.info())
    case = [str.lower, str.upper, str.title, str.swapcase][int(rng.integers(4))]
    accept(mon, w, None, case('random'))
    accept(mon, w, w.start(), case('precomputed'))
    for s in rng.choice(SCHEMES, 2, replace=False):
        rec = Recorder(keep=False)
        refused(mon, rec, 'scheme', lambda: w.fit(w.model(init=str(s), rec=rec), None, bool(rng.random() < 0.5)), init=str(s), **w.info())
    low = min(w.shape) if w.which != 'pf2' else w.I
    if w.which == 'pf2':
        low = w.I
    if w.R <= low and (w.which != 'pf2' or min(w.J) >= w.R):
        accept(mon, w, None, case('svd'))
        if w.which == 'pf2' and len(set(w.J)) == 1:
            accept(mon, w, None, case('cp'))
    rec = Recorder(keep=False)
    above = low + int(rng.integers(1, 3))
    refused(mon, rec, 'SVD rank', lambda: w.fit(w.model(init=case('svd'), rank=above, rec=rec)), smallest=low, asked=above, **w.info())
    # contradictory constraints
    n = 3 if w.which == 'pf2' else len(w.shape)
    m = int(rng.integers(n))
    while w.which == 'pf2' and m == 1:
        m = int(rng.integers(n))
    size = (w.I, 0, w.K)[m] if w.which == 'pf2' else w.shape[m]
    if size >= w.R:
        nn = [bool(rng.random() < 0.3) for _ in range(n)]
        nn[m] = True
        orth = [i == m for i in range(n)]
        init = str(rng.choice(['random', 'precomputed']))
        rec = Recorder(keep=False)
        model = w.model(init=init, rec=rec, non_negativity_constraints=nn, orthonormality_constraints=orth,
                        **(dict(max_its=0) if rng.random() < 0.3 else {}))
        refused(mon, rec, 'contradictory constraints', lambda: w.fit(model, w.start() if init == 'precomputed' else None),
                mode=m, init=init, **w.info())
        if rng.random() < 0.5:   # the same model without the contradiction
            model.orthonormality_constraints = None
            model.max_its = w.its
            w.fit(model, w.start() if init == 'precomputed' else None)
            mon.check(len(rec.its) >= 1, 'a consistent fit performed no iteration', init=init, **w.info())
            mon.count('accepted')
        accept(mon, w, None, 'random', non_negativity_constraints=nn)


def refused_load(mon, m, what, load, **info):
    """A fitted model refuses to load something and stays as it was."""
    before, it = snap(m), m.current_iteration
    refused(mon, None, what, load, **info)
    after = snap(m)
    mon.check(m.current_iteration == it and same(before, after), f'a model that refused to load ({what}) has changed', counts=(it, m.current_iteration), **info)
    mon.count('models unchanged by a refused load')


def checkpoints(rng, mon, index):
    w = World(rng, ['cp', 'pf2'][index % 2])
    mon.describe(**w.info())
    path = os.path.join(mon.scratch, 'checkpoint.h5')
    freq = int(rng.integers(1, 4))
    n = int(rng.integers(3, 9))
    w.its = n
    m = w.model(init='random', checkpoint_path=path, checkpoint_frequency=freq, convergence_tol=-1, **({} if w.which == 'pf2' else dict(rel_loss_tol=-1)))
    w.fit(m)
    stored = {i for i in range(n) if (i + 1) % freq == 0} | {n - 1}
    w.its = n + 3
    tol = dict(convergence_tol=-1, **({} if w.which == 'pf2' else dict(rel_loss_tol=-1)))
    accept(mon, w, path, 'from_checkpoint', **tol)
    accept(mon, w, Path(path), 'From_Checkpoint', **tol)
    accept(mon, w, None, path, **tol)
    # iterations
    m = w.model(init='random', **tol)
    m.max_its = 0
    w.fit(m)
    for it in range(n + 2):
        if it in stored:
            m.load_checkpoint(path, load_it=it)
            mon.count('accepted')
        else:
            refused_load(mon, m, 'missing iteration', lambda: m.load_checkpoint(path, load_it=it), iteration=it, stored=stored)
    # missing files
    for p, init in ((path + 'x', 'from_checkpoint'), (path + 'x', None), (os.path.join(mon.scratch, 'no', 'such'), 'from_checkpoint')):
        rec = Recorder(keep=False)
        if init is None:
            refused(mon, rec, 'missing checkpoint', lambda: w.fit(w.model(init=p, rec=rec)), **w.info())
        else:
            refused(mon, rec, 'missing checkpoint', lambda: w.fit(w.model(init=init, rec=rec), p), **w.info())
    # files which are no checkpoints
    empty, text, single = (os.path.join(mon.scratch, f) for f in ('empty.h5', 'text.h5', 'single.h5'))
    h5py.File(empty, 'w').close()
    open(text, 'w').write('no checkpoint\n')
    w.start().store(single)
    for p in (empty, text, single):
        rec = Recorder(keep=False)
        if rng.random() < 0.3:
            refused_load(mon, m, 'not a checkpoint', lambda: m.load_checkpoint(p), file=os.path.basename(p), **w.info())
        elif rng.random() < 0.5:
            refused(mon, rec, 'not a checkpoint', lambda: w.fit(w.model(init=p, rec=rec)), file=os.path.basename(p), **w.info())
        else:
            refused(mon, rec, 'not a checkpoint', lambda: w.fit(w.model(init='from_checkpoint', rec=rec), p), file=os.path.basename(p), **w.info())
    # checkpoints of other problems
    for _ in range(3):
        v = World(rng, str(rng.choice(['cp', 'pf2'])))
        other = os.path.join(mon.scratch, f'other{int(rng.integers(2**40))}.h5')
        v.fit(v.model(init='random', checkpoint_path=other))
        if v.which == w.which and v.R == w.R and (v.which == 'cp' and v.shape == w.shape or v.which == 'pf2' and (v.I, v.J, v.K) == (w.I, w.J, w.K)):
            continue
        if rng.random() < 0.4:
            refused_load(mon, m, 'other checkpoint', lambda: m.load_checkpoint(other), other=v.info(), **w.info())
            continue
        rec = Recorder(keep=False)
        refused(mon, rec, 'other checkpoint', lambda: w.fit(w.model(init='from_checkpoint', rec=rec, **tol), other), other=v.info(), **w.info())


def containers_(rng, mon, index):
    n, R = gen.order(rng), int(rng.integers(1, 6))
    F = gen.factors(rng, gen.shape(rng, n=n), R)
    mon.describe(kind='containers', modes=n, rank=R)
    ok = KruskalTensor(F, gen.weights(rng, R).tolist())
    mon.check(ok.rank == R, 'the rank of a Kruskal tensor')
    mon.count('accepted')
    for m in range(n):
        G = list(F)
        G[m] = rng.standard_normal((len(F[m]), R + 1 if R == 1 or rng.random() < 0.5 else R - 1))
        refused(mon, None, 'columns', lambda: KruskalTensor(G), mode=m, rank=R)
        if rng.random() < 0.5:
            refused(mon, None, 'columns', lambda: KruskalTensor(G, np.ones(G[0].shape[1])), mode=m, rank=R)
    for k in {R + 1, R - 1, 0, 2*R}:
        W = rng.standard_normal(k)
        refused(mon, None, 'weights', lambda: KruskalTensor(F, W if rng.random() < 0.5 else W.tolist()), weights=k, rank=R)
    sizes = [int(s) for s in gen.shape(rng)]
    for method in ('normal', 'uniform', 'Normal', 'UNIFORM'):
        KruskalTensor.random_init(sizes, R, random_method=method)
        mon.count('accepted')
    for method in rng.choice(['gaussian', 'randn', '', 'norm', 'uniform ', 'poisson', 'orthogonal'], 2, replace=False):
        refused(mon, None, 'random method', lambda: KruskalTensor.random_init(sizes, R, random_method=str(method)), method=method)
    red = str(rng.choice(['max', 'median', 'sum', '', 'prod', 'minimum', 'average', 'none']))
    d, _, _ = containers.kruskal(rng, rank=min(R, 3), kind='normal', weights='none')
    e, _ = containers.evolving(rng, rank=min(R, 3), kind='normal')
    p, _ = containers.parafac2(rng, rank=min(R, 3), kind='normal')
    for f in (lambda r: metrics.factor_match_score(F, F, fms_reduction=r), lambda r: metrics.factor_match_score(F, F, weight_penalty=False, fms_reduction=r),
              lambda r: metrics.separate_mode_factor_match_score(F, F, fms_reduction=r), lambda r: d.factor_match_score(d, fms_reduction=r),
              lambda r: d.seperate_mode_factor_match_score(d, fms_reduction=r), lambda r: e.factor_match_score(e, fms_reduction=r),
              lambda r: p.factor_match_score(p, fms_reduction=r)):
        refused(mon, None, 'reduction', lambda: f(red), reduction=red)
        if rng.random() < 0.2:
            f(str(rng.choice(['min', 'mean'])))
            mon.count('accepted')


KINDS = {'starts': Kind(starts, 1200, 25000), 'schemes': Kind(schemes, 1200, 25000), 'checkpoints': Kind(checkpoints, 300, 6000),
         'containers': Kind(containers_, 800, 20000)}
