"""C03: constrained factor matrices satisfy their constraints after every iteration."""
import numpy as np
from tenkit.decomposition.decompositions import KruskalTensor

from vmon import gen
from vmon.core import Kind
from vmon.record import Recorder, snap, snap_decomposition

from .common import (CP_STRATA, PF2_STRATA, cmtf_case, cmtf_model, cmtf_target, cp_case, cp_fit, cp_model, pf2_case, pf2_fit, pf2_model,
                     pf2_start, target)

PROPERTY = 'C03'
RULE = ('Random constrained CP, PARAFAC2 and coupled fits (all starts, also infeasible ones; fresh, continued and '
        'fit_transform); every snapshot is judged. Non-trivial: at least one constrained factor was judged.')
ASSUMPTIONS = ['orthonormality is demanded to 1e-7, of modes at least as long as the rank']
FLOORS = {'infeasible orthonormal starts': 40, 'non-negative factors judged': 4000, 'orthonormal factors judged': 2000, 'uncoupled factors judged': 200,
          'entries at the bound': 500}


def judge_nn(mon, F, what, it):
    mon.check(np.isfinite(F).all(), f'{what} is not finite', iteration=it)
    mon.check(F.size == 0 or F.min() >= 0, f'a non-negative mode has a negative entry ({what})', iteration=it,
              min=F.min() if F.size else 0)
    mon.count('non-negative factors judged')
    mon.count('entries at the bound', int((F == 0).sum()))


def judge_orth(mon, F, what, it):
    G = F.T @ F
    mon.leq('orthonormality error', np.abs(G - np.eye(len(G))).max(), 1e-7,
            f'an orthonormal mode does not have orthonormal columns ({what})', iteration=it)
    mon.count('orthonormal factors judged')


def judge_cp(mon, case, snaps):
    for s in snaps:
        mon.state(*s.F)
        for m, c in enumerate(case.cons):
            if c == 'nn':
                judge_nn(mon, s.F[m], f'CP mode {m}', s.it)
            elif c == 'orth':
                judge_orth(mon, s.F[m], f'CP mode {m}', s.it)


def cp(rng, mon, index):
    strata = ['nn_all', 'nn_some', 'orth_one', 'mixed', 'mixed_ridge', 'orth_many', 'ridge_nn', 'ridge_orth']
    case = cp_case(rng, strata[index % len(strata)])
    its = int(rng.choice([1, 3, 8, 20]))
    how = ['default', 'infeasible', 'continue', 'transform'][index % 4]
    mon.describe(model='CP', shape=case.shape, rank=case.rank, constraints=case.cons, ridge=case.ridge, data=case.data_kind,
                 its=its, how=how)
    if how == 'infeasible':
        start = gen.factors(rng, case.shape, case.rank)
        if index % 8 == 5:   # nearly orthonormal only
            its = int(rng.choice([0, 0, 1]))
            start = [np.linalg.qr(f)[0] + 10.0**rng.uniform(-6, -2)*rng.standard_normal(f.shape) if f.shape[0] >= f.shape[1] else f for f in start]
        rec = Recorder()
        m = cp_model(case, init='precomputed', max_its=its, loggers=[rec])
        m.fit(target(rng, case), initial_decomposition=KruskalTensor(start, gen.weights(rng, case.rank)))
        for k, c in enumerate(case.cons):   # also without iterations
            if c == 'orth':
                judge_orth(mon, m.factor_matrices[k], f'CP mode {k}', 'returned')
                mon.count('infeasible orthonormal starts')
    elif how == 'transform':
        rec = Recorder()
        m = cp_model(case, max_its=its, loggers=[rec])
        d = m.fit_transform(target(rng, case))
        s = snap_decomposition(d)
        mon.check(all(np.array_equal(a, b) for a, b in zip(s.F, rec.snaps[-1].F)),
                  'the returned decomposition is the one after the last iteration')
    else:
        m, rec, s0, start = cp_fit(case, rng, its)
        if how == 'continue':
            m.continue_fit(max_its=its + 5)
    judge_cp(mon, case, rec.snaps)


def pf2(rng, mon, index):
    strata = ['nn_a', 'nn_c', 'nn_all', 'nn_b', 'orth_a', 'orth_c', 'mixed', 'mixed_ridge']
    case = pf2_case(rng, strata[index % len(strata)])
    its = int(rng.choice([1, 3, 8]))
    m, rec, s0, start = pf2_fit(case, rng, its)
    if index % 3 == 0:
        m.continue_fit(max_its=its + 3)
    mon.describe(model='PARAFAC2', I=case.I, J=case.J, K=case.K, rank=case.rank, constraints=case.cons, ridge=case.ridge,
                 data=case.data_kind, its=its, start=start, sweeps=case.sweeps)
    names = ['A', 'blueprint B', 'C']
    final = snap_decomposition(m.decomposition)
    final.it = 'returned'
    for s in [*rec.snaps, final]:
        mon.state(*s.F)
        for i, c in enumerate(case.cons):
            if c == 'nn':
                judge_nn(mon, s.F[i], f'PARAFAC2 {names[i]}', s.it)
            elif c == 'orth':
                judge_orth(mon, s.F[i], f'PARAFAC2 {names[i]}', s.it)


def coupled(rng, mon, index):
    case = cmtf_case(rng)
    if 'nn' not in case.cons:
        case.cons[int(rng.integers(len(case.cons)))] = 'nn'
        case.kw = gen.constraint_kwargs(rng, case.cons)
    if rng.random() < 0.5:   # make sure a matrix is coupled to a non-negative mode
        m = case.cons.index('nn')
        case.modes[0] = m
        case.Yraw[0] = case.Y[0] = rng.standard_normal((case.shape[m], case.Y[0].shape[1]))*np.linalg.norm(case.X)/np.sqrt(case.X.size)
    orth = [i for i, c in enumerate(case.cons) if c == 'free' and case.shape[i] >= case.rank and i not in case.modes]
    if orth and rng.random() < 0.4 and np.prod(case.shape)//case.shape[orth[0]] >= case.rank:
        case.cons[orth[0]] = 'orth'
        case.kw = gen.constraint_kwargs(rng, case.cons)
    its = int(rng.choice([0, 1, 4, 10]))
    rec = Recorder()
    m = cmtf_model(case, max_its=its, loggers=[rec])
    d, pairs = m.fit_transform(*cmtf_target(rng, case), case.modes)
    if index % 3 == 0:
        m.continue_fit(max_its=its + 3)
        d, pairs = m.decomposition, list(zip(m.coupled_factor_matrices, m.uncoupled_factor_matrices))
    mon.describe(model='CMTF', shape=case.shape, rank=case.rank, constraints=case.cons, data=case.data_kind, its=its,
                 modes=case.modes, widths=[y.shape[1] for y in case.Y])
    final = snap(m)
    final.it = 'returned'
    for s in [*rec.snaps, final]:
        mon.state(*s.F)
        for i, c in enumerate(case.cons):
            if c == 'nn':
                judge_nn(mon, s.F[i], f'CMTF mode {i}', s.it)
            elif c == 'orth':
                judge_orth(mon, s.F[i], f'CMTF mode {i}', s.it)
        for v, mode in zip(s.V, case.modes):
            if case.cons[mode] == 'nn':
                judge_nn(mon, v, 'uncoupled factor of a non-negative mode', s.it)
                mon.count('uncoupled factors judged')
    for (a, v), mode in zip(pairs, case.modes):
        if case.cons[mode] == 'nn':
            judge_nn(mon, np.asarray(a), 'returned coupled factor', 'returned')
            judge_nn(mon, np.asarray(v), 'returned uncoupled factor', 'returned')


KINDS = {'cp': Kind(cp, 1000, 20000), 'pf2': Kind(pf2, 500, 8000), 'coupled': Kind(coupled, 400, 6000)}
