"""C02: each CP iteration solves every mode's subproblem exactly, in mode order."""
import numpy as np

from vmon import gen, oracle
from vmon.core import Kind

from .common import CP_STRATA, columns_differ, cp_case, cp_fit, design_cond, feasible, sweep_scale

PROPERTY = 'C02'
RULE = ('Random CP problems as in C01; every observed iteration is compared with an independent sweep (full least squares, '
        'NNLS on the unreduced problem, Procrustes, augmented ridge) from the previous snapshot, and the last mode with '
        'the reference minimiser. Non-trivial: at least one comparison was made; distinct by description.')
ASSUMPTIONS = ['factor matrices are compared if every subproblem of the sweep has a unique, well-conditioned solution '
               '(scaled condition number below 1e3, component sizes within 1e4); otherwise only the optimality of the '
               'last mode is judged, up to 1e-9 of the loss and 1e-11 of the magnitudes involved']
FLOORS = {'sweeps compared': 2500, 'last modes judged': 4000, 'sweeps compared nn': 500, 'sweeps compared orth': 500,
          'sweeps compared ridge': 500}


def judge(mon, case, rec, s0):
    prev = s0 if s0 is not None and feasible(s0, case.cons) else None
    n = len(case.shape)
    for s in rec.snaps:
        mon.state(*s.F)
        mon.check((s.w == 1).all(), 'weights are absorbed in the factors during a fit', weights=s.w)
        if prev is not None:
            ref, unique, _ = oracle.cp_sweep(case.X, prev, case.cons, case.ridge)
            worst = max(oracle.disparity(f) for f in [*prev, *ref])
            if unique < 1e3 and worst < 1e4:
                tol = min(1e-6, 1e-8 + 1e-15*(unique*worst)**2)   # single precision is not exact
                for m in range(n):
                    mon.leq('factor difference', columns_differ(s.F[m], ref[m]), tol,
                            f'a factor matrix differs from the exact update ({case.cons[m]})', iteration=s.it, mode=m)
                mon.count('sweeps compared')
                for c in ('nn', 'orth'):
                    mon.count(f'sweeps compared {c}', int(c in case.cons))
                mon.count('sweeps compared ridge', int(case.ridge is not None and any(case.ridge)))
            else:
                mon.count('not unique, not compared')
        # optimality of the last mode given the others
        scale = sweep_scale(case.X, prev, s.F) if prev is not None else np.inf
        if scale < 1e8*np.linalg.norm(case.X)**2 and design_cond(prev, s.F, case.ridge) < 1e6:
            Z, Y = oracle.design(s.F, n - 1), oracle.unfold(case.X, n - 1)
            lam = 0.0 if case.ridge is None else case.ridge[n - 1]
            best = oracle.objective(oracle.solve_ls(Z, Y, case.cons[n - 1], lam), Z, Y, lam)
            got = oracle.objective(s.F[n - 1], Z, Y, lam)
            mon.leq('excess of the last mode', got - best, 1e-9*best + 1e-11*scale,
                    f'the last mode is not optimal ({case.cons[n-1]})', iteration=s.it, got=got, best=best)
            mon.count('last modes judged')
        prev = s.F


def fit(rng, mon, index):
    case = cp_case(rng, CP_STRATA[index % len(CP_STRATA)])
    its = int(rng.choice([1, 3, 6, 10]))
    X, lay = gen.layout(rng, case.raw)
    m, rec, s0, start = cp_fit(case, rng, its, X=X)
    mon.describe(shape=case.shape, rank=case.rank, constraints=case.cons, ridge=case.ridge, data=case.data_kind,
                 start=start, layout=lay, dtype=case.dtype, its=its)
    judge(mon, case, rec, s0)


def wide(rng, mon, index):
    case = cp_case(rng, CP_STRATA[index % len(CP_STRATA)], full=True, max_rank=6, hi=12, big=0.3,
                   data_kind=['noise', 'lowrank', 'nonneg'][index % 3])
    its = int(rng.choice([2, 5]))
    m, rec, s0, start = cp_fit(case, rng, its, start='given' if index % 2 else 'random')
    mon.describe(shape=case.shape, rank=case.rank, constraints=case.cons, ridge=case.ridge, data=case.data_kind,
                 start=start, its=its, kind='wide')
    judge(mon, case, rec, s0)


KINDS = {'fit': Kind(fit, 1500, 40000), 'wide': Kind(wide, 600, 15000)}
