"""C05: PARAFAC2 models keep their structure."""
import numpy as np

from vmon import gen, oracle
from vmon.core import Kind
from vmon.record import snap

from .common import PF2_STRATA, Case, columns_differ, pf2_case, pf2_fit, pf2_model

PROPERTY = 'C05'
RULE = ('Random PARAFAC2 fits (regular and irregular slices, given as list or tensor, 1-60 slices, all constraint mixes, every '
        'initialisation scheme, also read before the first iteration). Non-trivial: at least one snapshot was judged.')
ASSUMPTIONS = ['projections are compared with an independent Procrustes solution where its condition number is below 1e5']
FLOORS = {'projections judged': 8000, 'projections compared with Procrustes': 5000, 'starts judged': 300,
          'evolving factors judged': 8000}


def judge(mon, case, X, dec, s, prev, alias=True):
    d = dec.decomposition
    A, B, C = s.F
    R = case.rank
    mon.state(*s.F)
    mon.check(len(s.P) == len(X), 'one projection per slice', got=len(s.P))
    Bs = d.B
    mon.check(len(Bs) == len(X), 'one evolving factor per slice')
    Phi = B.T @ B
    for k, (P, x) in enumerate(zip(s.P, X)):
        mon.check(P.shape == (x.shape[1], R), 'projection shape', k=k, shape=P.shape)
        mon.leq('evolving factor', np.abs(np.asarray(Bs[k]) - P @ B).max(), 1e-12*max(np.abs(B).max(), 1e-300)*R + 1e-300,
                "an evolving factor is not its projection times the blueprint", k=k, it=s.it)
        mon.count('evolving factors judged')
        cond = 1.0
        if prev is not None:
            Q, cond = oracle.pf2_projection(x, prev.F[0], prev.F[1], prev.F[2][k])
        if x.shape[1] >= R:
            mon.leq('orthonormality', np.abs(P.T @ P - np.eye(R)).max(), 1e-8, 'a projection is not orthonormal', k=k, it=s.it)
            G = np.asarray(Bs[k]).T @ np.asarray(Bs[k])
            mon.leq('constant Phi', np.abs(G - Phi).max(), 1e-7*max(np.abs(Phi).max(), 1e-300) + 1e-300,
                    'the cross-product of the evolving factor differs between slices', k=k, it=s.it)
            mon.count('projections judged')
        if prev is not None and cond < 1e5:
            mon.leq('projection', columns_differ(P, Q), 1e-7, 'a projection does not follow its own slice', k=k, it=s.it)
            mon.count('projections compared with Procrustes')
    if alias:
        live = d.projection_matrices
        for k in range(len(live)):
            for j in range(k):
                mon.check(not np.shares_memory(live[k], live[j]), 'projections of two slices share memory', k=k, j=j)


def fit(rng, mon, index):
    many = index % 12 == 11
    case = pf2_case(rng, PF2_STRATA[index % len(PF2_STRATA)], K=int(rng.integers(12, 60)) if many else None,
                    max_rank=2 if many else 4)
    its = int(rng.choice([1, 2, 5]))
    state = {}

    def hook(dec, rec):
        s = rec.snaps[-1]
        judge(mon, case, case.X, dec, s, state.get('prev'), alias=s.it == 0)
        state['prev'] = s
    m, rec, s0, start = pf2_fit(case, rng, 0)
    # again, this time with the judge inside the loop
    rec.hook = hook
    s = snap(m, 'start')
    judge(mon, case, case.X, m, s, None)
    mon.count('starts judged')
    state['prev'] = s
    m.continue_fit(max_its=its)
    mon.check(len(rec.snaps) == its, 'every iteration observed', seen=len(rec.snaps))
    mon.describe(I=case.I, J=case.J, K=case.K, rank=case.rank, constraints=case.cons, ridge=case.ridge, data=case.data_kind,
                 start=start, its=its, sweeps=case.sweeps)
    final = snap(m, 'returned')
    for k, p in enumerate(final.P):
        mon.check(np.array_equal(p, rec.snaps[-1].P[k]), 'the returned projections are those of the last iteration')


def thin(rng, mon, index):
    """Ranks above the number of rows or slices, slices exactly as wide as the rank, single slices."""
    rank = int(rng.integers(1, 5))
    K = int(rng.integers(1, 6))
    I = int(rng.integers(rank, 7))
    J = [rank + int(rng.integers(0, 2))*int(rng.integers(0, 5)) for _ in range(K)]
    case = pf2_case(rng, ['free', 'nn_c', 'ridge'][index % 3], data_kind='noise', dims=(I, J, K, rank))
    state = {}

    def hook(dec, rec):
        judge(mon, case, case.X, dec, rec.snaps[-1], state.get('prev'))
        state['prev'] = rec.snaps[-1]
    m, rec, s0, start = pf2_fit(case, rng, 0, start=['random', 'given'][index % 2])
    rec.hook = hook
    state['prev'] = snap(m, 'start')
    m.continue_fit(max_its=4)
    mon.describe(I=I, J=J, K=K, rank=rank, constraints=case.cons, start=start, kind='thin')


def deficient(rng, mon, index):
    """Slices without information on some components: zero, of low rank, with zero rows or columns, or repeated."""
    rank = int(rng.integers(1, 5))
    K = int(rng.integers(2, 7))
    I = int(rng.integers(1, 8))
    J = [rank + int(rng.integers(0, 6)) for _ in range(K)]
    if index % 3 == 0:
        J = [J[0]]*K
    case = pf2_case(rng, ['free', 'nn_c', 'ridge', 'free'][index % 4], data_kind='noise', dims=(I, J, K, rank), typed=False)
    case.raw = case.X
    hurt = rng.permutation(K)[:int(rng.integers(1, K))]
    for k in hurt:
        x = case.X[k]
        what = str(rng.choice(['zero', 'rank one', 'zero rows', 'zero columns', 'constant', 'tiny']))
        if what == 'zero':
            x[...] = 0
        elif what == 'rank one':
            x[...] = np.outer(x[:, 0], x[0])
        elif what == 'zero rows':
            x[1:] = 0
        elif what == 'zero columns':
            x[:, 1:] = 0
        elif what == 'constant':
            x[...] = 1
        else:
            x *= 1e-9
        mon.count(f'slices made {what}')
    state = {}

    def hook(dec, rec):
        judge(mon, case, case.X, dec, rec.snaps[-1], state.get('prev'))
        state['prev'] = rec.snaps[-1]
    m, rec, s0, start = pf2_fit(case, rng, 0, start=['random', 'given'][index % 2])
    rec.hook = hook
    state['prev'] = snap(m, 'start')
    m.continue_fit(max_its=5)
    mon.describe(I=I, J=J, K=K, rank=rank, constraints=case.cons, start=start, kind='deficient', slices=[int(k) for k in hurt])


KINDS = {'deficient': Kind(deficient, 300, 6000), 'fit': Kind(fit, 700, 12000), 'thin': Kind(thin, 200, 4000)}
