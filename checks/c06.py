"""C06: a PARAFAC2 fit never makes the loss worse and solves its steps exactly."""
import numpy as np

from vmon import gen, oracle
from vmon.core import Kind
from vmon.record import snap

from .common import PF2_STRATA, columns_differ, feasible, pf2_case, pf2_fit

PROPERTY = 'C06'
RULE = ('Random PARAFAC2 fits as in C05; consecutive losses, recomputed from snapshots, are compared, and every iteration '
        'with an independent reference iteration (Procrustes per slice, then CP sweeps on the projected tensor) from the '
        'previous snapshot. Up to 110 slices and nine components. Non-trivial: at least one comparison was made.')
ASSUMPTIONS = ['iterations with nearly dependent subproblems (stable condition above 1e6) are counted, not judged for descent',
               'factor matrices are compared if all subproblems of the reference iteration are unique (condition below 300)']
FLOORS = {'descents judged': 3000, 'iterations compared': 800, 'first iterations judged': 200, 'iterations compared nn': 100,
          'iterations compared orth': 80, 'iterations compared ridge': 100}


def scale_of(X, F, P):
    norms = np.prod([np.linalg.norm(F[0], axis=0), np.linalg.norm(F[1], axis=0), np.linalg.norm(F[2], axis=0)], axis=0)
    return sum(np.linalg.norm(x)**2 for x in X) + float(norms.sum()**2)


def judge(mon, case, snaps, s0):
    prev, prevP, prev_loss = None, None, None
    if s0 is not None and feasible(s0[0], case.cons) and all(
            np.abs(p.T @ p - np.eye(case.rank)).max() < 1e-9 for p in s0[1]):
        prev, prevP = s0
        prev_loss = oracle.pf2_loss(case.X, *prev, prevP, case.ridge)
    nx = sum(np.linalg.norm(x)**2 for x in case.X)
    for s in snaps:
        mon.state(*s.F)
        loss = oracle.pf2_loss(case.X, *s.F, s.P, case.ridge)
        if prev is not None:
            F, P, unique, stable = oracle.pf2_iteration(case.X, *prev, case.cons, case.ridge, case.sweeps)
            scale = max(scale_of(case.X, s.F, s.P), scale_of(case.X, prev, prevP))
            if stable < 1e6 and scale < 1e8*nx:
                mon.leq('increase', loss - prev_loss, 1e-9*prev_loss + 1e-11*scale, 'the loss increased', iteration=s.it,
                        loss=loss, previous=prev_loss)
                mon.count('descents judged')
                mon.count('strict descents', int(loss < prev_loss*(1 - 1e-9)))
                mon.count('first iterations judged', int(s.it == 0))
            else:
                mon.count('ill-conditioned, not judged')
            worst = max(oracle.disparity(f) for f in [*prev, *F])
            if unique < 300 and worst < 1e3:
                tol = min(1e-6, 1e-8 + 1e-15*(unique*worst)**2)   # single precision is not exact
                for f, g, name in zip(s.F, F, ['first mode', 'blueprint', 'third mode']):
                    mon.leq('factor difference', columns_differ(f, g), tol, f'the {name} differs from the exact update',
                            iteration=s.it)
                for k in range(len(P)):
                    mon.leq('projection difference', columns_differ(s.P[k], P[k]), tol,
                            'a projection differs from the exact update', iteration=s.it, k=k)
                mon.count('iterations compared')
                for c in ('nn', 'orth'):
                    mon.count(f'iterations compared {c}', int(c in case.cons))
                mon.count('iterations compared ridge', int(case.ridge is not None and any(case.ridge)))
        prev, prevP, prev_loss = s.F, s.P, loss


def fit(rng, mon, index):
    many = index % 15 == 14
    case = pf2_case(rng, PF2_STRATA[index % len(PF2_STRATA)], K=int(rng.integers(12, 40) if index % 2 else rng.integers(40, 110)) if many else None)
    its = int(rng.choice([2, 4, 8]))
    m, rec, s0, start = pf2_fit(case, rng, its)
    mon.describe(I=case.I, J=case.J, K=case.K, rank=case.rank, constraints=case.cons, ridge=case.ridge, data=case.data_kind,
                 start=start, its=its, sweeps=case.sweeps)
    mon.check(len(rec.snaps) == its, 'every iteration observed')
    judge(mon, case, rec.snaps, s0)


def resumed(rng, mon, index):
    """Fits in several parts descend across the parts."""
    case = pf2_case(rng, PF2_STRATA[index % len(PF2_STRATA)])
    m, rec, s0, start = pf2_fit(case, rng, 2)
    for n in (4, 5, 9):
        m.continue_fit(max_its=n)
    mon.describe(I=case.I, J=case.J, K=case.K, rank=case.rank, constraints=case.cons, ridge=case.ridge, data=case.data_kind,
                 start=start, sweeps=case.sweeps, kind='in parts')
    mon.check(rec.its == list(range(9)), 'iterations are consecutive', its=rec.its)
    judge(mon, case, rec.snaps, s0)


def long_run(rng, mon, index):
    case = pf2_case(rng, PF2_STRATA[index % len(PF2_STRATA)], max_rank=3)
    m, rec, s0, start = pf2_fit(case, rng, 60)
    mon.describe(I=case.I, J=case.J, K=case.K, rank=case.rank, constraints=case.cons, ridge=case.ridge, data=case.data_kind,
                 start=start, sweeps=case.sweeps, kind='long')
    judge(mon, case, rec.snaps, s0)


def large(rng, mon, index):
    """More components, slices or entries than elsewhere."""
    case = pf2_case(rng, PF2_STRATA[index % len(PF2_STRATA)], large=1, data_kind=['noise', 'lowrank', 'nonneg'][index % 3])
    its = int(rng.choice([1, 2, 4]))
    m, rec, s0, start = pf2_fit(case, rng, its)
    mon.describe(I=case.I, J=case.J, K=case.K, rank=case.rank, constraints=case.cons, ridge=case.ridge, data=case.data_kind,
                 start=start, its=its, sweeps=case.sweeps, kind='large')
    mon.count('iterations of large problems', len(rec.snaps))
    judge(mon, case, rec.snaps, s0)


KINDS = {'large': Kind(large, 240, 3000), 'fit': Kind(fit, 1400, 20000), 'resumed': Kind(resumed, 300, 5000), 'long': Kind(long_run, 80, 1200)}
