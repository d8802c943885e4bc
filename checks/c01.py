"""C01: a CP fit never makes the regularised loss worse."""
import numpy as np

from vmon import gen, oracle
from vmon.core import Kind

from .common import CP_STRATA, cp_case, cp_fit, design_cond, feasible, sweep_scale

PROPERTY = 'C01'
RULE = ('Random CP problems (order 2-5, dimensions 1-75, rank 1-5, nine data families, every mix of free, non-negative, '
        'orthonormal and ridge modes, random/SVD/given starts, several memory layouts). A case is non-trivial if at least '
        'one pair of consecutive losses, recomputed densely from snapshots, was compared; distinct by its description.')
ASSUMPTIONS = ['iterations whose least-squares designs are nearly rank deficient (scaled condition number above 1e6 but '
               'not exactly dependent) or whose components cancel (magnitudes above 1e4 times the data) are counted, not judged', 'the loss is compared up to 1e-9 relative plus 1e-11 (nearly dependent components: 1e-8) of '
               'the squared magnitudes of data and components']
FLOORS = {'descents judged': 3000, 'first iterations judged': 150, 'strict descents': 1500}


def judge(mon, case, rec, s0, its):
    """Offline checker of the recorded loss sequence."""
    prev = s0
    prev_loss = oracle.cp_loss(case.X, s0, None, case.ridge) if s0 is not None and feasible(s0, case.cons) else None
    mon.check(len(rec.snaps) == its, 'every iteration must be observed', seen=len(rec.snaps), expected=its)
    for s in rec.snaps:
        loss = oracle.cp_loss(case.X, s.F, s.w, case.ridge)
        mon.state(*s.F)
        if prev_loss is not None:
            cond = design_cond(prev, s.F, case.ridge)
            scale = sweep_scale(case.X, prev, s.F)
            if cond > 1e6 or scale > 1e8*np.linalg.norm(case.X)**2:
                mon.count('ill-conditioned, not judged')
            else:
                # nearly dependent components leave more to the rounding of the solver
                singular = loss - prev_loss > 1e-11*scale and design_cond(prev, s.F, case.ridge, oracle.scaled_cond) > 1e5
                mon.leq('increase', loss - prev_loss, 1e-9*prev_loss + (1e-8 if singular else 1e-11)*scale,
                        'the loss increased', iteration=s.it, loss=loss, previous=prev_loss)
                mon.count('descents judged')
                mon.count('strict descents', int(loss < prev_loss*(1 - 1e-9)))
                mon.count('first iterations judged', int(s.it == 0))
        prev, prev_loss = s.F, loss


def fit(rng, mon, index):
    case = cp_case(rng, CP_STRATA[index % len(CP_STRATA)])
    its = int(rng.choice([4, 8, 15, 25]))
    X, lay = gen.layout(rng, case.raw)
    m, rec, s0, start = cp_fit(case, rng, its, X=X)
    mon.describe(shape=case.shape, rank=case.rank, constraints=case.cons, ridge=case.ridge, data=case.data_kind,
                 start=start, layout=lay, dtype=case.dtype, its=its)
    judge(mon, case, rec, s0, its)


def long_run(rng, mon, index):
    case = cp_case(rng, CP_STRATA[index % len(CP_STRATA)], max_rank=3, hi=5, big=0, n=int(rng.choice([2, 3, 3, 4])))
    its = 160
    m, rec, s0, start = cp_fit(case, rng, its)
    mon.describe(shape=case.shape, rank=case.rank, constraints=case.cons, ridge=case.ridge, data=case.data_kind,
                 start=start, its=its, kind='long')
    judge(mon, case, rec, s0, its)


def large(rng, mon, index):
    case = cp_case(rng, CP_STRATA[index % len(CP_STRATA)], full=True, max_rank=8, hi=40, big=0, n=3, max_elements=60000)
    its = 6
    m, rec, s0, start = cp_fit(case, rng, its, start='given' if index % 2 else 'random')
    mon.describe(shape=case.shape, rank=case.rank, constraints=case.cons, ridge=case.ridge, data=case.data_kind,
                 start=start, its=its, kind='large')
    judge(mon, case, rec, s0, its)


def collapse(rng, mon, index):
    """Components that a constraint drives to zero: data whose best non-negative fit needs fewer components."""
    case = cp_case(rng, ['nn_all', 'nn_some', 'mixed', 'ridge_nn'][index % 4], data_kind=['noise', 'collinear'][index % 2],
                   max_rank=5)
    if index % 3 == 0:
        case.raw = case.X = -np.abs(case.X) if index % 2 else case.X - np.abs(case.X).mean()
    its = 40
    m, rec, s0, start = cp_fit(case, rng, its, start='given')
    mon.describe(shape=case.shape, rank=case.rank, constraints=case.cons, ridge=case.ridge, data=case.data_kind,
                 start=start, its=its, kind='collapse')
    judge(mon, case, rec, s0, its)
    mon.count('runs with vanished components', int(any((np.linalg.norm(f, axis=0) == 0).any() for f in rec.snaps[-1].F)))


KINDS = {'fit': Kind(fit, 2400, 60000), 'long': Kind(long_run, 160, 3000), 'large': Kind(large, 80, 1500),
         'collapse': Kind(collapse, 400, 15000)}
