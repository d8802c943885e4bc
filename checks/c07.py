"""C07: coupled fits descend jointly and keep the coupled factor shared."""
import copy

import numpy as np
from tenkit.decomposition.decompositions import KruskalTensor

from vmon import gen, oracle
from vmon.core import Kind
from vmon.record import Recorder, Sanitised, snap

from .common import cmtf_case, cmtf_model, cmtf_sse, cmtf_target, columns_differ

PROPERTY = 'C07'
RULE = ('Random coupled problems (order 2-4, one to four matrices, also several to one mode, non-negative modes), fresh, '
        'started from a weighted decomposition, and continued; joint errors recomputed from snapshots. Non-trivial: a '
        'descent or a returned pair was judged.')
ASSUMPTIONS = ['iterations with nearly dependent or cancelling components (stable condition above 1e6) are not judged',
               'the joint error is compared up to 1e-9 relative plus 1e-11 of the magnitudes involved']
FLOORS = {'descents judged': 10000, 'descents over a continuation': 150, 'pairs judged': 1200, 'uncoupled optima judged': 2500,
          'with several matrices on one mode': 150, 'rescalings judged': 250, 'given starts': 100,
          'sweeps compared': 3000, 'sweeps compared nn': 800, 'first iterations judged': 3000, 'graded starts': 150}


def magnitude(case, s):
    comps = np.abs(s.w)*np.prod([np.linalg.norm(f, axis=0) for f in s.F], axis=0)
    m = np.linalg.norm(case.X)**2 + comps.sum()**2
    for y, md, v in zip(case.Y, case.modes, s.V):
        m += np.linalg.norm(y)**2 + np.sum(np.linalg.norm(s.F[md], axis=0)*np.linalg.norm(v, axis=0))**2
    return m


def sweep(case, prev, s):
    """Worst condition and largest magnitudes met in the sweep from prev to s."""
    pF = [prev.F[0]*prev.w, *prev.F[1:]]
    worst, mag = 1.0, max(magnitude(case, s), magnitude(case, prev))
    for m in range(len(s.F)):
        Z = oracle.design([*s.F[:m], *pF[m:]], m)
        V = [v if md else v/np.where(prev.w == 0, 1, prev.w) for md, v in zip(case.modes, prev.V)]
        between = np.sum(np.prod([np.linalg.norm(f, axis=0) for f in [*s.F[:m + 1], *pF[m + 1:]]], axis=0))**2
        for md, v in zip(case.modes, V):
            F = s.F if md <= m else pF
            between += np.sum(np.linalg.norm(F[md], axis=0)*np.linalg.norm(v, axis=0))**2
            if md == m:
                Z = np.concatenate([Z, v])
        worst, mag = max(worst, oracle.stable_cond(Z)), max(mag, between)
    for md in case.modes:
        worst = max(worst, oracle.stable_cond(s.F[md]))
    return worst, mag


def reference(case, prev):
    """A sweep from prev by the definition: (factors, uncoupled factors, worst condition)."""
    F = [prev.F[0]*prev.w, *[f.copy() for f in prev.F[1:]]]
    V = [v/np.where(prev.w == 0, 1, prev.w) if md == 0 else v for v, md in zip(prev.V, case.modes)]
    worst = 1.0
    for m in range(len(F)):
        Z, Y = oracle.design(F, m), oracle.unfold(case.X, m)
        Z = np.concatenate([Z] + [v for v, md in zip(V, case.modes) if md == m])
        Y = np.concatenate([Y] + [y for y, md in zip(case.Y, case.modes) if md == m], axis=1)
        worst = max(worst, oracle.scaled_cond(Z))
        F[m] = oracle.solve_ls(Z, Y, case.cons[m])
        if np.linalg.norm(F[m] @ Z.T) < 1e-4*np.linalg.norm(Y):
            worst = np.inf
    out = []
    for y, md in zip(case.Y, case.modes):
        worst = max(worst, oracle.scaled_cond(F[md]))
        out.append(oracle.solve_ls(F[md], y.T, 'nn' if case.cons[md] == 'nn' else 'free'))
        if np.linalg.norm(F[md] @ out[-1].T) < 1e-4*np.linalg.norm(y):
            worst = np.inf
    return F, out, worst


def judge_sweep(mon, case, s, prev):
    """The iteration against the reference, up to the scaling of components."""
    if not all(np.isfinite(f).all() for f in [*prev.F, *prev.V, prev.w]):
        return
    F, V, worst = reference(case, prev)
    disparity = max(oracle.disparity(f) for f in [*prev.F, *prev.V, *F])
    if not (worst < 1e3 and disparity < 1e4):
        mon.count('not unique, not compared')
        return
    tol = min(1e-6, 1e-8 + 1e-15*(worst*disparity)**2)   # single precision is not exact
    for k, (f, g) in enumerate(zip(s.F, F)):
        mon.leq('factor difference', columns_differ(f/np.linalg.norm(f, axis=0), g/np.linalg.norm(g, axis=0)), tol,
                f'a factor matrix differs from the exact update ({case.cons[k]})', iteration=s.it, mode=k)
    T, U = gen.dense(s.F, s.w), gen.dense(F)
    mon.leq('tensor difference', np.abs(T - U).max(), tol*np.abs(U).max(), 'the tensor differs from the exact update', iteration=s.it)
    for k, (v, u, md) in enumerate(zip(s.V, V, case.modes)):
        a, b = s.F[md] @ v.T, F[md] @ u.T
        mon.leq('matrix difference', np.abs(a - b).max(), tol*np.abs(b).max(), 'a coupled matrix differs from the exact update',
                iteration=s.it, matrix=k)
    mon.count('sweeps compared')
    mon.count('sweeps compared nn', int('nn' in case.cons))


def judge_iteration(mon, case, s, prev, cont):
    sse = cmtf_sse(case, s)
    if prev is not None:
        judge_sweep(mon, case, s, prev)
    if prev is not None:
        worst, mag = sweep(case, prev, s)
        x2 = np.linalg.norm(case.X)**2 + sum(np.linalg.norm(y)**2 for y in case.Y)
        if mag < 1e8*x2 and worst < 1e6:
            old = cmtf_sse(case, prev)
            mon.leq('increase', sse - old, 1e-9*old + 1e-11*mag, 'the joint error increased', iteration=s.it, error=sse, previous=old,
                    continued=cont)
            mon.count('descents judged')
            mon.count('strict descents', int(sse < old*(1 - 1e-9)))
            mon.count('descents over a continuation', int(cont))
        else:
            mon.count('ill-conditioned, not judged')
    for i, (y, md, v) in enumerate(zip(case.Y, case.modes, s.V)):
        if oracle.stable_cond(s.F[md]) < 1e6:
            X = oracle.solve_ls(s.F[md], y.T, 'nn') if case.cons[md] == 'nn' else oracle.solve_truncated(s.F[md], y.T)
            best = oracle.objective(X, s.F[md], y.T)
            got = oracle.objective(v, s.F[md], y.T)
            mon.leq('excess of an uncoupled factor', got - best, 1e-9*best + 1e-11*(np.linalg.norm(y)**2 + magnitude(case, s)),
                    'an uncoupled factor is not optimal for its matrix', iteration=s.it, matrix=i, got=got, best=best)
            mon.count('uncoupled optima judged')


def judge_pairs(mon, case, m, d, pairs, last):
    """The returned pairs, and the final rescaling against the last iteration seen by the loggers."""
    mon.check(len(pairs) == len(case.Y), 'one pair per matrix')
    s = snap(m, 'returned')
    for i, ((a, v), md) in enumerate(zip(pairs, case.modes)):
        mon.check(np.array_equal(np.asarray(a), d.factor_matrices[md]),
                  "the coupled factor of a pair is not the tensor's own", matrix=i, mode=md)
        mon.check(np.asarray(v).shape == (case.Y[i].shape[1], case.rank), 'shape of the uncoupled factor', matrix=i)
        mon.check(np.array_equal(np.asarray(v), s.V[i]), 'the returned uncoupled factor is the fitted one', matrix=i)
        mon.check(np.allclose(np.asarray(m.reconstructed_coupled_matrices[i]), np.asarray(a) @ np.asarray(v).T,
                              rtol=1e-9, atol=1e-12*np.linalg.norm(case.Y[i])), 'reconstructed matrix', matrix=i)
        mon.count('pairs judged')
    if last is not None:
        mag = magnitude(case, last)
        small = min(np.linalg.norm(f, axis=0).min() for f in [last.F[0]*last.w, *last.F])
        if mag > 1e12*np.linalg.norm(case.X)**2 or small < 1e-6:
            mon.count('rescalings of vanishing components, not judged')
            return
        tol = (1e-9 + 1e-14/small)*np.sqrt(mag)   # the rescaling may guard its divisions by the machine precision
        for f in s.F:
            n = np.linalg.norm(f, axis=0)
            mon.check((np.abs(n - 1) < 1e-8).all(), 'the returned components have unit norm', norms=n)
        mon.leq('rescaled tensor', np.abs(gen.dense(s.F, s.w) - gen.dense(last.F, last.w)).max(), tol,
                'the final rescaling changed the tensor')
        for i, md in enumerate(case.modes):
            mon.leq('rescaled matrix', np.abs(s.F[md] @ s.V[i].T - last.F[md] @ last.V[i].T).max(), tol,
                    'the final rescaling changed a reconstructed matrix', matrix=i)
        mon.count('rescalings judged')


def run(rng, mon, index):
    case = cmtf_case(rng)
    rec = Recorder()
    its = int(rng.choice([1, 3, 8]))
    how = ['fresh', 'given', 'transform', 'svd'][index % 4]
    if how == 'svd' and (case.rank > min(case.shape) or 'nn' in case.cons or case.dtype == 'float32'):
        how = 'fresh'
    kw = {}
    init = 'random'
    if how == 'given':
        init = 'precomputed'
        w = gen.weights(rng, case.rank, positive='nn' in case.cons)
        if rng.random() < 0.4:   # components of very different sizes
            for f in case.start:
                f *= 10.0**rng.uniform(-8, 1, case.rank)
            mon.count('graded starts')
        kw['initial_decomposition'] = KruskalTensor([f.copy() for f in case.start], w)
        mon.count('given starts')
    elif how == 'svd':
        init = 'svd'
    m = cmtf_model(case, max_its=its, loggers=[rec], init=init)
    X, Y = cmtf_target(rng, case)
    inputs = Sanitised(X, *Y)
    seed = int(rng.integers(2**31))
    np.random.seed(seed)
    m0 = cmtf_model(case, max_its=0, init=init)
    m0.fit(X, Y, case.modes, **copy.deepcopy(kw))
    start = snap(m0, 'start')
    np.random.seed(seed)
    if how == 'transform':
        d, pairs = m.fit_transform(X, Y, case.modes, **kw)
    else:
        m.fit(X, Y, case.modes, **kw)
        d, pairs = m.decomposition, list(zip(m.coupled_factor_matrices, m.uncoupled_factor_matrices))
    mon.check(len(rec.snaps) == its, 'every iteration observed')
    judge_pairs(mon, case, m, d, pairs, rec.snaps[-1])
    prev = start
    for s in rec.snaps:
        judge_iteration(mon, case, s, prev, False)
        mon.count('first iterations judged', int(prev is start))
        mon.state(*s.F)
        prev = s
    total = its
    for c in range(int(rng.integers(0, 3))):
        before = snap(m, 'returned')
        n = int(rng.integers(0, 4))
        total += n
        done = len(rec.snaps)
        m.continue_fit(max_its=total)
        mon.check(len(rec.snaps) == done + n, 'every continued iteration observed')
        prev = before
        for s in rec.snaps[done:]:
            judge_iteration(mon, case, s, prev, prev is before)
            prev = s
        d, pairs = m.decomposition, list(zip(m.coupled_factor_matrices, m.uncoupled_factor_matrices))
        judge_pairs(mon, case, m, d, pairs, rec.snaps[-1] if n else before)
    mon.check(rec.its == list(range(total)), 'iterations are numbered consecutively', its=rec.its)
    mon.check(inputs.verify(), 'the data were changed')
    mon.count('with several matrices on one mode', int(len(set(case.modes)) < len(case.modes)))
    mon.describe(shape=case.shape, rank=case.rank, constraints=case.cons, modes=case.modes, data=case.data_kind,
                 widths=[y.shape[1] for y in case.Y], dtype=case.dtype, how=how, its=total)


KINDS = {'run': Kind(run, 4000, 150000)}
