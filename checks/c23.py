"""C23: every documented initialisation yields a valid start for the data at hand."""
import os
from pathlib import Path

import numpy as np
from tenkit.decomposition.cmtf import CMTF_ALS
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.decompositions import KruskalTensor, Parafac2Tensor
from tenkit.decomposition.parafac2 import Parafac2_ALS

from vmon import gen, oracle
from vmon.core import Kind
from vmon.record import Recorder

PROPERTY = 'C23'
RULE = ('Fits with a limit of zero iterations (by constructor or call, fit or fit_transform) under every scheme, shape, rank and '
        'constraint setting; the decomposition is compared with the definition of its scheme. Non-trivial: a start was judged.')
ASSUMPTIONS = ['single singular vectors are judged where the neighbouring singular values differ by 1e-7 (single precision data: 1e-2) of the largest']
FLOORS = {'random CP': 700, 'SVD CP': 200, 'precomputed CP': 450, 'checkpoint CP': 250, 'random PARAFAC2': 250, 'SVD PARAFAC2': 200,
          'CP PARAFAC2': 100, 'precomputed PARAFAC2': 250, 'checkpoint PARAFAC2': 120, 'weighted starts': 250, 'irregular': 300,
          'singular vectors judged': 1500, 'non-negative modes': 400, 'orthonormal modes': 250, 'coupled': 150}


def spelled(rng, s):
    return [str.lower, str.upper, str.title, str.swapcase, lambda x: x, lambda x: x][int(rng.integers(6))](s)


def zero_fit(rng, mon, m, args, **kw):
    """A fit of zero iterations; the decomposition and what a logger saw."""
    rec = Recorder(keep=False)
    m.loggers = [rec]
    if rng.random() < 0.5:
        m.max_its = 0
    else:
        kw['max_its'] = 0
    if rng.random() < 0.5:
        d = m.fit_transform(*args, **kw)
        d = d[0] if isinstance(d, tuple) else d
        mon.check(d is m.decomposition, 'fit_transform returns another decomposition')
    else:
        m.fit(*args, **kw)
        d = m.decomposition
    mon.check(not rec.its, 'iterations were performed', seen=rec.its)
    return d


def valid_cp(mon, d, shape, R, **info):
    mon.check(type(d) is KruskalTensor, 'a start of another type', got=type(d).__name__, **info)
    mon.check(d.rank == R and tuple(d.shape) == tuple(shape) and all(f.shape == (n, R) for f, n in zip(d.factor_matrices, shape))
              and len(d.factor_matrices) == len(shape) and np.shape(d.weights) == (R,), 'a start of another size', got=[f.shape for f in d.factor_matrices], **info)
    mon.check(all(np.isfinite(f).all() for f in d.factor_matrices), 'a start is not finite', **info)
    mon.state(*d.factor_matrices)


def cp(rng, mon, index):
    R = int(rng.integers(1, 7))
    coupled = index % 8 == 7
    what = ['random', 'svd', 'precomputed', 'checkpoint', 'random', 'precomputed'][index % 6] if not coupled else 'random'
    shape = gen.shape(rng, n=3 if coupled else None, lo=R if what == 'svd' else 1, hi=max(7, R + 2))
    if what == 'svd' and len(shape) == 5:
        shape = shape[:4]
    n = len(shape)
    X, dk = gen.data(rng, shape, rank=R)
    if what == 'svd' and rng.random() < 0.3:   # singular values over many magnitudes
        dk = 'graded'
        X = gen.dense(gen.factors(rng, shape, max(shape) + 2), 10.0**-np.arange(max(shape) + 2.))
    (X,), dt = gen.typed(rng, [X], 0.4)
    X, lay = gen.layout(rng, X)
    data, X = X, X.astype(float)
    single = dt == 'float32' and what == 'svd'   # single precision singular vectors
    norm = np.linalg.norm(X)
    N = int(np.prod(shape))
    cons = ['free']*n if rng.random() < 0.4 else gen.constraints(rng, n, [s >= R for s in shape])
    if coupled:
        cons = ['free' if c == 'orth' else c for c in cons]
    if what == 'svd':
        cons = ['free' if c == 'nn' else c for c in cons]
    kw = gen.constraint_kwargs(rng, cons)
    info = dict(scheme=what, shape_=shape, rank=R, constraints=cons)
    mon.describe(model='CMTF' if coupled else 'CP', data=dk, layout=lay, dtype=dt, **info)
    mon.count('non-negative modes', cons.count('nn'))
    mon.count('orthonormal modes', cons.count('orth'))
    if what == 'random':
        if coupled:
            modes = [int(rng.integers(n)) for _ in range(int(rng.integers(1, 4)))]
            Y = [rng.standard_normal((shape[m], int(rng.integers(1, 9)))) for m in modes]
            m = CMTF_ALS(R, init=spelled(rng, 'random'), **kw)
            d = zero_fit(rng, mon, m, (data, Y, modes))
            mon.check([v.shape for v in m.uncoupled_factor_matrices] == [(y.shape[1], R) for y in Y], 'uncoupled factors of another size', **info)
            for v, k in zip(m.uncoupled_factor_matrices, modes):
                mon.check(np.isfinite(v).all() and (cons[k] != 'nn' or v.min() >= 0), 'an uncoupled factor is negative', **info)
            mon.count('coupled')
        else:
            d = zero_fit(rng, mon, CP_ALS(R, **(dict(init=spelled(rng, 'random')) if rng.random() < 0.8 else {}), **kw), (data,))
        valid_cp(mon, d, shape, R, **info)
        for f, c in zip(d.factor_matrices, cons):
            mon.leq('norms', np.abs(np.linalg.norm(f, axis=0) - 1).max(), 1e-5, 'random factors without unit norm', **info)
            if c == 'nn':
                mon.check(f.min() >= 0, 'a random non-negative factor has negative entries', **info)
            elif c == 'orth':
                mon.leq('orthonormal', np.abs(f.T @ f - np.eye(R)).max(), 1e-9, 'a random orthonormal factor is not', **info)
        mon.check(np.allclose(d.weights, 1), 'a random start with weights', **info)
        flat = np.concatenate([f.ravel() for f in d.factor_matrices if len(f) > 1] or [np.arange(1.0)])
        mon.check(len(np.unique(np.abs(flat))) > len(flat)//2, 'the random start is not random', **info)
        mon.count('random CP')
    elif what == 'svd':
        d = zero_fit(rng, mon, CP_ALS(R, init=spelled(rng, 'svd'), **kw), (data,))
        valid_cp(mon, d, shape, R, **info)
        for k, f in enumerate(d.factor_matrices):
            Xk = oracle.unfold(X, k)
            U, s, _ = np.linalg.svd(Xk, full_matrices=False)
            mon.leq('orthonormal', np.abs(f.T @ f - np.eye(R)).max(), 1e-5 if single else 1e-9, 'SVD factors are not orthonormal', mode=k, **info)
            captured = np.linalg.norm(f.T @ Xk)**2
            best = (s[:R]**2).sum()
            mon.leq('captured', best - captured, (1e-5 if single else 1e-10)*best, 'SVD factors do not span the leading singular vectors', mode=k, **info)
            for r in range(min(R, len(s))):
                gap = min(s[r-1] - s[r] if r else np.inf, s[r] - s[r+1] if r + 1 < len(s) else s[r])
                if gap > (1e-2 if single else 1e-7)*s[0]:
                    mon.leq('singular vector', 1 - abs(f[:, r] @ U[:, r]), 1e-5 if single else 1e-9, 'a column is not the singular vector of its place', mode=k, column=r, **info)
                    mon.count('singular vectors judged')
        mon.count('SVD CP')
    else:
        F = gen.factors(rng, shape, R)
        for k, c in enumerate(cons):
            F[k] = np.abs(F[k]) if c == 'nn' else np.linalg.qr(F[k])[0] if c == 'orth' else F[k]
        weighted = rng.random() < 0.6
        w = gen.weights(rng, R, positive='free' not in cons) if weighted else None
        start = KruskalTensor([f.copy() for f in F], None if w is None else w.copy() if rng.random() < 0.7 else w.tolist())
        want = gen.dense(F, w)
        if what == 'precomputed':
            d = zero_fit(rng, mon, CP_ALS(R, init=spelled(rng, 'precomputed'), **kw), (data,), initial_decomposition=start)
            mon.count('weighted starts', int(weighted))
        else:
            path = os.path.join(mon.scratch, 'Check Point.h5')
            its = int(rng.integers(1, 5))
            m0 = CP_ALS(R, init='precomputed', max_its=its, checkpoint_path=path, convergence_tol=-1, rel_loss_tol=-1,
                        checkpoint_frequency=int(rng.choice([-1, 1, 2])), **kw)
            m0.fit(data, initial_decomposition=start)
            want = gen.dense([f.copy() for f in m0.factor_matrices], m0.weights)
            if rng.random() < 0.5:
                d = zero_fit(rng, mon, CP_ALS(R, init=path, **kw), (data,))
            else:
                d = zero_fit(rng, mon, CP_ALS(R, init=spelled(rng, 'from_checkpoint'), **kw), (data,),
                             initial_decomposition=path if rng.random() < 0.5 else Path(path))
        valid_cp(mon, d, shape, R, **info)
        scale = np.abs(want).max() + np.prod([np.linalg.norm(f, axis=0) for f in d.factor_matrices], axis=0).sum()*1e-3
        mon.leq('reproduced', np.abs(gen.dense(d.factor_matrices, d.weights) - want).max(), 1e-10*scale,
                f'a {what} start does not reproduce its tensor', weighted=weighted, **info)
        mon.leq('reproduced', np.abs(d.construct_tensor() - want).max(), 1e-10*scale, f'a {what} start does not reproduce its tensor', weighted=weighted, **info)
        mon.count(f'{what} CP')


def valid_pf2(mon, d, I, J, K, R, **info):
    mon.check(type(d) is Parafac2Tensor, 'a start of another type', got=type(d).__name__, **info)
    mon.check(d.A.shape == (I, R) and d.blueprint_B.shape == (R, R) and d.C.shape == (K, R) and d.rank == R
              and [p.shape for p in d.projection_matrices] == [(j, R) for j in J], 'a start of another size',
              got=(d.A.shape, d.blueprint_B.shape, d.C.shape, [p.shape for p in d.projection_matrices]), **info)
    mon.check(all(np.isfinite(f).all() for f in (d.A, d.blueprint_B, d.C, *d.projection_matrices)), 'a start is not finite', **info)
    for k, p in enumerate(d.projection_matrices):
        mon.leq('projections', np.abs(p.T @ p - np.eye(R)).max(), 1e-9, 'a start whose projections are not orthonormal', slice=k, **info)
    for a in range(K):
        for b in range(a):
            mon.check(not np.shares_memory(d.projection_matrices[a], d.projection_matrices[b]), 'projections share memory', slices=(a, b), **info)
    mon.state(d.A, d.C, *d.projection_matrices)


def pf2(rng, mon, index):
    what = ['random', 'svd', 'cp', 'precomputed', 'checkpoint', 'svd', 'random', 'precomputed'][index % 8]
    R = int(rng.integers(1, 6))
    I, J, K = gen.pf2_dims(rng, R, irregular=False if what == 'cp' else None, full=what == 'svd')
    if what != 'svd':
        I, K = int(rng.integers(1, 8)), len(J)
    X, dk = gen.pf2_data(rng, I, J, K, R, str(rng.choice(['noise', 'scaled', 'int'])))
    if rng.random() < 0.15:
        X = [np.round(x/np.abs(x).max()*100).astype([np.int8, np.int16, np.float32][int(rng.integers(3))]) + 0 for x in X]
        for x in X:
            x[0, 0] = 1
    cons = ['free']*3 if rng.random() < 0.5 else gen.constraints(rng, 3, (I >= R, False, K >= R))
    if what == 'svd':
        cons = ['free' if c == 'nn' else c for c in cons]
    kw = gen.constraint_kwargs(rng, cons)
    kw['print_frequency'] = -1
    info = dict(scheme=what, rows=I, widths=J, rank=R, constraints=cons)
    mon.describe(model='PARAFAC2', data=dk, dtype=str(X[0].dtype), **info)
    mon.count('irregular', int(len(set(J)) > 1))
    norm2 = sum(np.linalg.norm(x.astype(float))**2 for x in X)
    data = np.stack(X, axis=-1) if len(set(J)) == 1 and rng.random() < 0.5 else [gen.layout(rng, x)[0] for x in X]
    if what == 'random':
        d = zero_fit(rng, mon, Parafac2_ALS(R, init=spelled(rng, 'random'), **kw), (data,))
        valid_pf2(mon, d, I, J, K, R, **info)
        mon.check(not any(np.allclose(d.projection_matrices[0], p) for p in d.projection_matrices[1:] if p.shape == d.projection_matrices[0].shape)
                  or J[0] == 1, 'random projections are equal', **info)
        mon.count('random PARAFAC2')
    elif what == 'svd':
        m = Parafac2_ALS(R, init=spelled(rng, 'svd'), **dict(print_frequency=-1) if rng.random() < 0.5 else kw)
        d = zero_fit(rng, mon, m, (data,))
        valid_pf2(mon, d, I, J, K, R, **info)
        if m.orthonormality_constraints is None or not any(m.orthonormality_constraints):
            Z = np.concatenate([x.astype(float) for x in X], axis=1)
            U, s, _ = np.linalg.svd(Z, full_matrices=False)
            for r in range(min(R, len(s))):
                gap = min(s[r-1] - s[r] if r else np.inf, s[r] - s[r+1] if r + 1 < len(s) else s[r])
                if gap > 1e-3*s[0] and s[r] > 1e-3*s[0]:
                    a = d.A[:, r]
                    mon.leq('PARAFAC2 singular vector', 1 - abs(a @ U[:, r])/np.linalg.norm(a), 1e-7,
                            'a column of A is not the singular vector of its place', column=r, **info)
                    mon.count('singular vectors judged')
        mon.count('SVD PARAFAC2')
    elif what == 'cp':
        d = zero_fit(rng, mon, Parafac2_ALS(R, init=spelled(rng, 'cp'), **kw), (data,))
        valid_pf2(mon, d, I, J, K, R, **info)
        B = [p @ d.blueprint_B for p in d.projection_matrices]
        mon.leq('CP structure', max(np.abs(b - B[0]).max() for b in B), 1e-10*np.abs(B[0]).max(), 'the CP start is not a CP model', **info)
        if 'orth' not in cons:
            sse = sum(np.linalg.norm(x - y)**2 for x, y in zip(X, gen.pf2_slices(d.A, d.blueprint_B, d.C, d.projection_matrices)))
            mon.leq('CP fit', sse, norm2*(1 + 1e-8), 'the CP start fits the data worse than zero', **info)
        mon.count('CP PARAFAC2')
    else:
        A, B, C = gen.factors(rng, (I, R, K), R)
        F = [A, B, C]
        for k, c in enumerate(cons):
            F[k] = np.abs(F[k]) if c == 'nn' else np.linalg.qr(F[k])[0] if c == 'orth' else F[k]
        P = [np.linalg.qr(rng.standard_normal((j, R)))[0] for j in J]
        start = Parafac2Tensor(*[f.copy() for f in F], [p.copy() for p in P])
        want = gen.pf2_slices(*F, P)
        if what == 'precomputed':
            d = zero_fit(rng, mon, Parafac2_ALS(R, init=spelled(rng, 'precomputed'), **kw), (data,), initial_decomposition=start)
        else:
            path = os.path.join(mon.scratch, 'Check Point.h5')
            m0 = Parafac2_ALS(R, init='precomputed', max_its=int(rng.integers(1, 4)), checkpoint_path=path, convergence_tol=-1,
                              checkpoint_frequency=int(rng.choice([-1, 1, 2])), **kw)
            m0.fit(data, initial_decomposition=start)
            q = m0.decomposition
            want = gen.pf2_slices(q.A.copy(), q.blueprint_B.copy(), q.C.copy(), [p.copy() for p in q.projection_matrices])
            if rng.random() < 0.5:
                d = zero_fit(rng, mon, Parafac2_ALS(R, init=path, **kw), (data,))
            else:
                d = zero_fit(rng, mon, Parafac2_ALS(R, init=spelled(rng, 'from_checkpoint'), **kw), (data,),
                             initial_decomposition=path if rng.random() < 0.5 else Path(path))
        valid_pf2(mon, d, I, J, K, R, **info)
        got = gen.pf2_slices(d.A, d.blueprint_B, d.C, d.projection_matrices)
        scale = max(np.abs(x).max() for x in want)
        mon.leq('reproduced', max(np.abs(x - y).max() for x, y in zip(got, want)), 1e-10*scale, f'a {what} start does not reproduce its tensor', **info)
        mon.count(f'{what} PARAFAC2')


KINDS = {'cp': Kind(cp, 3200, 80000), 'pf2': Kind(pf2, 1800, 40000)}
