"""C27: fits treat entries, slices, components and matrices alike, whatever their order, orientation and unit."""
import copy

import numpy as np
from tenkit.decomposition.decompositions import KruskalTensor, Parafac2Tensor

from vmon import gen
from vmon.core import Kind, Skip
from vmon.record import Recorder, Snapshot, distance

from .common import (CP_STRATA, PF2_STRATA, cmtf_case, cmtf_model, cp_case, cp_model, pf2_case, pf2_model)

PROPERTY = 'C27'
RULE = ('A fit from a given start is recorded; the data and the start are then relabelled (entries of a mode, slices, entries of one slice, '
        'components or coupled matrices permuted), rotated (unconstrained modes, slices), padded with zeros or scaled, and fitted again: '
        'the relabelled model must be found after every iteration, with the same number of iterations and the same relative errors. '
        'Non-trivial: a relabelling that changes the data or the start was compared.')
ASSUMPTIONS = ['the fit is judged only where a relative perturbation of the data by 1e-13 does not carry its result away',
               'rotations and padding need full column rank to have a unique result', 'scaling is judged without ridge penalties']
FLOORS = {'compared: rows': 500, 'compared: components': 350, 'compared: rotation': 250, 'compared: zeros': 250, 'compared: unit': 250,
          'compared: slices': 150, 'compared: slice rotation': 100, 'compared: slice rows': 100, 'compared: matrices': 60, 'stops compared': 60,
          'errors compared': 4000}


class Problem:
    """Data as float arrays with a start: F, P (PARAFAC2), V (coupled)."""

    def __init__(self, rng, which, index):
        self.which = which
        if which == 'cp':
            c = cp_case(rng, CP_STRATA[index % len(CP_STRATA)], max_rank=4, big=0, typed=False)
            self.X, self.P, self.V, self.Y, self.modes = c.X, None, None, [], []
            self.F = [f.copy() for f in c.start]
        elif which == 'pf2':
            c = pf2_case(rng, PF2_STRATA[index % len(PF2_STRATA)], typed=False)
            self.X = [x.copy() for x in c.X]
            self.F, self.P = [f.copy() for f in c.start[0]], [p.copy() for p in c.start[1]]
            self.V, self.Y, self.modes = None, [], []
        else:
            c = cmtf_case(rng)
            self.X, self.Y, self.modes, self.P = c.X, list(c.Y), list(c.modes), None
            self.F = [f.copy() for f in c.start]
            self.V = [rng.standard_normal((y.shape[1], c.rank)) for y in self.Y]
            self.V = [np.abs(v) if c.cons[m] == 'nn' else v for v, m in zip(self.V, self.modes)]
        self.case = c
        self.cons, self.ridge, self.rank = c.cons, getattr(c, 'ridge', None), c.rank
        self.its = int(rng.integers(1, 6))
        self.tol = {}

    def copy(self):
        p = copy.copy(self)
        p.X = [x.copy() for x in self.X] if self.which == 'pf2' else self.X.copy()
        p.F = [f.copy() for f in self.F]
        p.P = None if self.P is None else [x.copy() for x in self.P]
        p.V = None if self.V is None else [v.copy() for v in self.V]
        p.Y, p.modes = [y.copy() for y in self.Y], list(self.modes)
        return p

    def perturbed(self):
        p = self.copy()

        def shake(x):
            i = np.arange(x.size).reshape(x.shape)
            return x*(1 + 1e-13*np.cos(i)) + 1e-14*np.abs(x).max()*np.sin(i)
        p.X = [shake(x) for x in p.X] if self.which == 'pf2' else shake(p.X)
        p.Y = [shake(y) for y in p.Y]
        return p

    def run(self, rng):
        """Fit; the recorder and the number of iterations."""
        rec = Recorder(metrics=('SSE', 'loss', 'RMSE'))
        args = dict(init='precomputed', loggers=[rec], **self.tol)
        m = dict(cp=cp_model, pf2=pf2_model, cmtf=cmtf_model)[self.which](self.case, **args)
        F = [f.copy() for f in self.F]
        if self.which == 'pf2':
            X = [gen.layout(rng, x)[0] for x in self.X]
            if len({x.shape for x in X}) == 1 and rng.random() < 0.3:
                X = gen.layout(rng, np.stack(X, axis=-1))[0]
            m.fit(X, max_its=self.its, initial_decomposition=Parafac2Tensor(*F, [p.copy() for p in self.P]))
        elif self.which == 'cp':
            m.fit(gen.layout(rng, self.X)[0], max_its=self.its, initial_decomposition=KruskalTensor(F))
        else:
            m.fit(gen.layout(rng, self.X)[0], [gen.layout(rng, y)[0] for y in self.Y], list(self.modes), max_its=0,
                  initial_decomposition=KruskalTensor(F))
            for have, want in zip(m.uncoupled_factor_matrices, self.V):   # instead of the random ones
                have[...] = want
            m.continue_fit(max_its=self.its)
        return rec

    def x2(self):
        return sum(np.linalg.norm(x)**2 for x in [*(self.X if self.which == 'pf2' else [self.X]), *self.Y])


def clone(s):
    t = Snapshot()
    t.it, t.metrics, t.w = s.it, dict(s.metrics), None if s.w is None else s.w.copy()
    t.F = [f.copy() for f in s.F]
    t.P = None if s.P is None else [p.copy() for p in s.P]
    t.V = None if s.V is None else [v.copy() for v in s.V]
    return t


def orthogonal(rng, n):
    q, r = np.linalg.qr(rng.standard_normal((n, n)))
    return q*np.sign(np.diag(r))


# Each relabelling returns (problem, function from snapshot to expected snapshot, size) or None if it does not apply

def rows(rng, p):
    """The entries of a mode in another order."""
    q = p.copy()
    n = 3 if p.which == 'pf2' else p.X.ndim
    m = int(rng.choice([0, 2])) if p.which == 'pf2' else int(rng.integers(n))
    if p.which == 'pf2' and m == 2:
        return slices(rng, p)
    perm = rng.permutation(len(p.F[m]))
    q.F[m] = p.F[m][perm]
    if p.which == 'pf2':
        q.X = [x[perm] for x in p.X]
    else:
        q.X = p.X.take(perm, axis=m)
        q.Y = [y[perm] if k == m else y for y, k in zip(p.Y, p.modes)]

    def f(s):
        s.F[m] = s.F[m][perm]
        return s
    return q, f, 'rows'


def slices(rng, p):
    if p.which != 'pf2':
        return None
    q = p.copy()
    perm = rng.permutation(len(p.X))
    q.X, q.P, q.F[2] = [p.X[i] for i in perm], [q.P[i] for i in perm], p.F[2][perm]

    def f(s):
        s.P, s.F[2] = [s.P[i] for i in perm], s.F[2][perm]
        return s
    return q, f, 'slices'


def slice_rows(rng, p):
    if p.which != 'pf2':
        return None
    q = p.copy()
    perms = [rng.permutation(x.shape[1]) if rng.random() < 0.5 else np.arange(x.shape[1]) for x in p.X]
    q.X, q.P = [x[:, i] for x, i in zip(p.X, perms)], [x[i] for x, i in zip(p.P, perms)]

    def f(s):
        s.P = [x[i] for x, i in zip(s.P, perms)]
        return s
    return q, f, 'slice rows'


def slice_rotation(rng, p):
    if p.which != 'pf2':
        return None
    q = p.copy()
    Q = [orthogonal(rng, x.shape[1]) if rng.random() < 0.5 else np.eye(x.shape[1]) for x in p.X]
    q.X, q.P = [x @ o.T for x, o in zip(p.X, Q)], [o @ x for x, o in zip(p.P, Q)]

    def f(s):
        s.P = [o @ x for x, o in zip(s.P, Q)]
        return s
    return q, f, 'slice rotation'


def components(rng, p):
    if p.rank == 1:
        return None
    q = p.copy()
    perm = rng.permutation(p.rank)
    q.F = [f[:, perm] for f in p.F]
    if p.V is not None:
        q.V = [v[:, perm] for v in p.V]
    if p.which == 'pf2':   # the columns of the projections are those of a common basis, not of components
        B = p.F[1]
        q.F[1] = B[:, perm]

    def f(s):
        s.F = [x[:, perm] for x in s.F]
        if s.w is not None:
            s.w = s.w[perm]
        if s.V is not None:
            s.V = [v[:, perm] for v in s.V]
        return s
    return q, f, 'components'


def signs(rng, p):
    """Components with other signs in two unconstrained modes (an orthonormal one is unconstrained in its signs)."""
    modes = [m for m in range(len(p.F)) if p.cons[m] != 'nn']
    if len(modes) < 2:
        return None
    a, b = [int(i) for i in rng.choice(modes, 2, replace=False)]
    q = p.copy()
    t = rng.choice([-1.0, 1.0], p.rank)
    q.F[a], q.F[b] = p.F[a]*t, p.F[b]*t
    if p.V is not None:
        if any(p.cons[m] == 'nn' for m in p.modes if m in (a, b)):
            return None
        q.V = [v*t if m in (a, b) else v for v, m in zip(p.V, p.modes)]

    def f(s):
        s.F[a], s.F[b] = s.F[a]*t, s.F[b]*t
        if s.V is not None:
            s.V = [v*t if m in (a, b) else v for v, m in zip(s.V, p.modes)]
        return s
    return q, f, 'components'


def rotation(rng, p):
    """The coordinates of an unconstrained or orthonormal mode rotated."""
    modes = [m for m in range(len(p.F)) if p.cons[m] != 'nn' and not (p.which == 'pf2' and m != 0)]
    if not modes:
        return None
    m = int(rng.choice(modes))
    q = p.copy()
    Q = orthogonal(rng, len(p.F[m]))
    q.F[m] = Q @ p.F[m]
    if p.which == 'pf2':
        q.X = [Q @ x for x in p.X]
    else:
        q.X = np.moveaxis(np.tensordot(Q, p.X, axes=(1, m)), 0, m)
        q.Y = [Q @ y if k == m else y for y, k in zip(p.Y, p.modes)]

    def f(s):
        s.F[m] = Q @ s.F[m]
        return s
    return q, f, 'rotation'


def zeros(rng, p):
    """More entries in some mode, all of them zero."""
    q = p.copy()
    extra = int(rng.integers(1, 4))
    if p.which == 'pf2':
        if rng.random() < 0.5:   # in one slice
            k = int(rng.integers(len(p.X)))
            at = int(rng.integers(p.X[k].shape[1] + 1))
            q.X[k] = np.insert(p.X[k], [at]*extra, 0, axis=1)
            q.P[k] = np.insert(p.P[k], [at]*extra, 0, axis=0)

            def f(s):
                s.P[k] = np.insert(s.P[k], [at]*extra, 0, axis=0)
                return s
        else:
            at = int(rng.integers(len(p.F[0]) + 1))
            q.X = [np.insert(x, [at]*extra, 0, axis=0) for x in p.X]
            q.F[0] = np.insert(p.F[0], [at]*extra, 0, axis=0)

            def f(s):
                s.F[0] = np.insert(s.F[0], [at]*extra, 0, axis=0)
                return s
        return q, f, 'zeros'
    m = int(rng.integers(p.X.ndim))
    at = int(rng.integers(p.X.shape[m] + 1))
    q.X = np.insert(p.X, [at]*extra, 0, axis=m)
    q.F[m] = np.insert(p.F[m], [at]*extra, 0, axis=0)
    q.Y = [np.insert(y, [at]*extra, 0, axis=0) if k == m else y for y, k in zip(p.Y, p.modes)]

    def f(s):
        s.F[m] = np.insert(s.F[m], [at]*extra, 0, axis=0)
        return s
    return q, f, 'zeros'


def unit(rng, p):
    """The data in another unit. The first mode that can be scaled takes it up."""
    if p.ridge is not None and any(p.ridge):
        return None
    if p.which == 'cmtf':
        if p.cons and 'orth' in p.cons:
            return None
    free = [m for m in range(len(p.F)) if p.cons[m] != 'orth']
    lo, hi = (-12, 13) if 'nn' in p.cons else (-60, 61)
    if p.which == 'cmtf':   # normalising adds 1e-15 to the norms of the start
        lo = -6
    c = float(2.0**rng.integers(lo, hi))
    m = free[0]
    q = p.copy()
    q.F[m] = p.F[m]*c
    if p.which == 'pf2':
        q.X = [x*c for x in p.X]
    else:
        q.X = p.X*c
    q.Y = [y*c for y in p.Y]
    q.V = None if p.V is None else [v*c for v in p.V]   # (the weights are divided out of those of the first mode)

    def f(s):
        s.F[m] = s.F[m]*c
        if s.V is not None:
            s.V = [v if k == m else v*c for v, k in zip(s.V, p.modes)]
        s.metrics = dict(SSE=s.metrics['SSE']*c*c, loss=s.metrics['loss']*c*c, RMSE=s.metrics['RMSE']*c)
        return s
    return q, f, 'unit'


def matrices(rng, p):
    """The coupled matrices in another order, or their columns."""
    if p.which != 'cmtf':
        return None
    q = p.copy()
    perm = rng.permutation(len(p.Y))
    cols = [rng.permutation(y.shape[1]) for y in p.Y]
    q.Y = [p.Y[i][:, cols[i]] for i in perm]
    q.V = [p.V[i][cols[i]] for i in perm]
    q.modes = [p.modes[i] for i in perm]

    def f(s):
        s.V = [s.V[i][cols[i]] for i in perm]
        return s
    return q, f, 'matrices'


OPS = dict(cp=[rows, components, signs, rotation, zeros, unit], pf2=[rows, slices, slice_rows, slice_rotation, components, signs, rotation, zeros, unit],
           cmtf=[rows, components, signs, rotation, zeros, unit, matrices, matrices])


def tolerances(rng, p, rec):
    """Sometimes a tolerance which stops the fit clearly."""
    e = np.array([s.metrics['loss' if p.which == 'pf2' else 'SSE'] for s in rec.snaps], dtype=float)
    rc = np.abs((e[:-1] - e[1:])/e[:-1])
    if len(rc) < 3 or not (np.isfinite(rc).all() and (rc > 1e-9).all() and (e > 1e-6*p.x2()).all()):
        return False
    tol = float(np.sort(rc)[int(rng.integers(len(rc)))]*1.01)
    if (np.abs(rc - tol) < 1e-4*tol).any():
        return False
    p.tol = dict(convergence_tol=tol)
    return True


def sound(p, snaps):
    """How many of the snapshots come before a component vanishes (its directions are arbitrary from then on)."""
    if p.which == 'pf2' and not projections_determined(p, p.F):
        return 0
    for i, s in enumerate(snaps):
        if p.which == 'pf2' and not projections_determined(p, s.F):
            return i + 1
        n = np.prod([np.linalg.norm(f, axis=0) for f in s.F], axis=0)
        if s.w is not None:
            n = n*np.abs(s.w)
        if not n.min() > 1e-7*n.max() or any(not np.linalg.norm(v, axis=0).min() > 1e-7*np.linalg.norm(v, axis=0).max() for v in s.V or []):
            return i
    return len(snaps)


def projections_determined(p, F):
    """Whether all projections of the next iteration are unique."""
    for x, c in zip(p.X, F[2]):
        s = np.linalg.svd(((F[0]*c) @ F[1].T).T @ x, compute_uv=False)
        if not s[-1] > 1e-7*s[0]:
            return False
    return True


def far(a, b):
    """The largest difference over the iterations."""
    return max([distance(x, y) for x, y in zip(a, b)], default=0)


def relabel(rng, mon, index, which):
    p = Problem(rng, which, index)
    mon.describe(model=which, rank=p.rank, constraints=p.cons, shape=[x.shape for x in p.X] if which == 'pf2' else p.X.shape, its=p.its)
    stops = False   # whether the fit is stopped by its tolerance
    if which != 'cmtf' and rng.random() < 0.3:   # (the first change of the error depends on the random uncoupled factors)
        p.its = 8
        stops = tolerances(rng, p, p.run(rng))
    ref = p.run(rng)
    t = p.perturbed().run(rng)
    d = far(t.snaps, ref.snaps)
    n = sound(p, ref.snaps)
    if d > 1e-9 or t.its != ref.its or n == 0:
        mon.count('sensitive, not compared')
        raise Skip('sensitive')
    whole = n == len(ref.snaps)
    for op in OPS[which]:
        if rng.random() < 0.35:
            continue
        made = op(rng, p)
        if made is None:
            continue
        q, f, name = made
        if rng.random() < 0.25:   # two at once
            more = OPS[which][int(rng.integers(len(OPS[which])))](rng, q)
            if more is not None:
                q, g, other = more
                f = (lambda f, g: lambda s: g(f(s)))(f, g)
                mon.count(f'compared: {other}')
        got = q.run(rng)
        info = dict(relabelling=op.__name__, model=which, constraints=p.cons, rank=p.rank)
        mon.check(got.its == ref.its or not whole, 'the relabelled fit has another number of iterations', got=got.its, expected=ref.its, **info)
        want = [f(clone(s)) for s in ref.snaps[:n]]
        mon.leq('difference', far(got.snaps[:n], want), 1e-9 + 1e4*d, 'the relabelled fit has another result', **info)
        for a, b in zip(got.snaps, want):
            for k in ('SSE', 'loss'):
                mon.leq('error', abs(a.metrics[k] - b.metrics[k]), (1e-8 + 1e4*d)*(abs(b.metrics[k]) + q.x2()),
                        'the relabelled fit reports another error', metric=k, got=a.metrics[k], expected=b.metrics[k], **info)
            mon.count('errors compared')
        mon.count(f'compared: {name}')
        mon.state(*got.snaps[-1].F)
        if stops and whole:
            mon.count('stops compared')


def kind(which, fn):
    def run(rng, mon, index):
        fn(rng, mon, index, which)
    return run


KINDS = {'cp': Kind(kind('cp', relabel), 700, 9000), 'pf2': Kind(kind('pf2', relabel), 500, 6000), 'cmtf': Kind(kind('cmtf', relabel), 400, 5000)}
