"""C17: least-squares solvers return optimal points of their constraint sets."""
import numpy as np
from tenkit import base

from vmon import gen, oracle
from vmon.core import Kind
from vmon.record import Sanitised

PROPERTY = 'C17'
RULE = ('Random systems X A = B: tall, wide and square A, full and deficient ranks (exactly, by repeated or zero rows, by '
        'factorisation), zero, badly scaled, several layouts and magnitudes, with and without ridge. Each answer is judged by '
        'optimality conditions (normal equations, KKT, nuclear norm) and against an independent solution. '
        'Also systems of up to 130 columns and 90 right-hand sides. Non-trivial: an answer was judged.')
ASSUMPTIONS = ['the singular values of A are either negligible (1e-14 of the largest) or at least 1e-7 of the largest, except where only the error is judged']
FLOORS = {'nearly dependent': 4000, 'free': 6000, 'deficient': 1500, 'zero matrix': 1000, 'wide': 10000, 'tall': 3000, 'nonneg': 4000,
          'active constraints': 25000, 'inactive constraints': 25000, 'single vector': 2000, 'orthogonal': 4500,
          'orthogonal deficient': 3000, 'ridge free': 1500, 'larger systems': 1500, 'ridge nonneg': 1500, 'ridge orthogonal': 1500}
EPS = np.finfo(float).eps


def coefficients(rng, mon, R=None, n=None, orth=False):
    """A coefficient matrix; returns (A, numerical rank)."""
    big = rng.random() < 0.05
    R = int(rng.integers(1, 16 if big else 7)) if R is None else R
    n = int(rng.integers(1, 150 if big else 16)) if n is None else n
    mon.count('larger systems', int(R > 6 or n > 15))
    kind = str(rng.choice(['normal', 'normal', 'normal', 'scaled rows', 'conditioned', 'repeated', 'zero rows', 'low rank', 'zero', 'nonneg', 'int']))
    A = rng.standard_normal((R, n))
    if kind == 'scaled rows':
        A = A*10.0**rng.uniform(-2, 2, (R, 1))
    elif kind == 'conditioned':
        k = min(R, n)
        U, V = np.linalg.qr(rng.standard_normal((R, k)))[0], np.linalg.qr(rng.standard_normal((n, k)))[0]
        A = (U*10.0**-np.linspace(0, rng.uniform(0, 5), k)) @ V.T
    elif kind == 'repeated' and R > 1:
        A[rng.integers(1, R)] = A[0]*float(rng.choice([1, -1, 2, 0.5]))
    elif kind == 'zero rows':
        A[rng.integers(R)] = 0
    elif kind == 'low rank':
        k = int(rng.integers(1, min(R, n) + 1))
        A = rng.standard_normal((R, k)) @ rng.standard_normal((k, n))
    elif kind == 'zero':
        if rng.random() < 0.6:
            A = np.zeros((R, n))
            mon.count('zero matrix')
    elif kind == 'nonneg':
        A = np.abs(A)
    elif kind == 'int':
        A = rng.integers(-2, 3, (R, n)).astype(float)
    if rng.random() < 0.15:
        A = A*10.0**rng.uniform(-60, 60)
    return A, kind


def spectrum(A):
    """Numerical rank, condition number of the significant part; None if the rank is not clear."""
    s = np.linalg.svd(A, compute_uv=False)
    if s[0] == 0:
        return 0, 1.0
    if ((s > 1e-14*s[0]) & (s < 1e-7*s[0])).any():
        return None
    k = int((s >= 1e-7*s[0]).sum())
    return k, s[0]/s[k - 1]


def right_hand_side(rng, A, nonneg=False):
    p = int(rng.integers(1, 8 if rng.random() < 0.95 else 90))
    X = rng.standard_normal((p, A.shape[0]))
    if nonneg:
        X = np.abs(X)*(rng.random(X.shape) < 0.7)
    r = rng.random()
    B = X @ A
    if r < 0.6:
        B = B + 10.0**rng.uniform(-4, 1)*max(np.abs(B).max(initial=0), np.abs(A).max())*rng.standard_normal(B.shape)
    elif r < 0.7:
        B = rng.standard_normal(B.shape)*max(np.abs(A).max(), 1e-3)
    elif r < 0.74:
        B = np.zeros_like(B)
    return B


def common(rng, mon, what, A, kind, B):
    A, B = gen.layout(rng, A)[0], gen.layout(rng, B)[0]
    sp = spectrum(A)
    mon.describe(what=what, A=A.shape, kind=kind, rows=B.shape[0], rank=None if sp is None else sp[0])
    mon.count('wide', int(A.shape[1] > A.shape[0]))
    mon.count('tall', int(A.shape[1] < A.shape[0]))
    if sp is None:
        mon.count('rank not clear')
    return A, B, sp


def judge_free(mon, X, A, B, sp, lam, what):
    k, cond = sp
    mon.check(X.shape == (B.shape[0], A.shape[0]) and np.isfinite(X).all(), f'{what}: the shape', got=X.shape)
    a, b = np.linalg.norm(A), np.linalg.norm(B)
    if a == 0 or b == 0:
        mon.check(not X.any(), f'{what}: the least norm solution is zero', got=X)
        return
    Aa = np.concatenate([A, np.sqrt(lam)*np.eye(A.shape[0])], axis=1)
    Ba = np.concatenate([B, np.zeros((B.shape[0], A.shape[0]))], axis=1)
    s = np.linalg.svd(Aa, compute_uv=False)
    ref = Ba @ np.linalg.pinv(Aa, rcond=1e-10)
    best = np.linalg.norm(ref @ Aa - Ba)**2
    mon.leq(f'{what} excess', np.linalg.norm(X @ Aa - Ba)**2 - best, 1e-10*b**2, f'{what}: not a minimiser of the squared error')
    G = (X @ Aa - Ba) @ Aa.T
    cond = s[0]/s[s > 1e-10*s[0]][-1]
    mon.leq(f'{what} gradient', np.linalg.norm(G), 500*EPS*cond*b*s[0], f'{what}: the normal equations do not hold')
    mon.leq(f'{what} norm', np.linalg.norm(X - ref), 500*EPS*cond**2*b/s[0], f'{what}: not the minimiser of least norm', got=np.linalg.norm(X), expected=np.linalg.norm(ref))


def free(rng, mon, index):
    A, kind = coefficients(rng, mon)
    B = right_hand_side(rng, A)
    A, B, sp = common(rng, mon, 'free', A, kind, B)
    if sp is None:
        return
    locks = Sanitised(A, B)
    X = base.rightsolve(A, B)
    judge_free(mon, X, A, B, sp, 0.0, 'least squares')
    mon.check(locks.verify(), 'the solver changed its arguments')
    mon.count('free')
    mon.count('deficient', int(sp[0] < min(A.shape)))
    mon.state(A)


def near(rng, mon, index):
    """Nearly dependent rows of A: the equations still hold as well as they can."""
    R = int(rng.integers(2, 7 if rng.random() < 0.8 else 20))
    n = int(rng.integers(R, R + 10 if rng.random() < 0.7 else 16*R))
    U, V = np.linalg.qr(rng.standard_normal((R, R)))[0], np.linalg.qr(rng.standard_normal((n, R)))[0]
    s = np.concatenate([[1.0], 10.0**-rng.uniform(0, 3, R - 1)])
    small = 10.0**-rng.uniform(6, 16)
    s[-1] = small
    if R > 2 and rng.random() < 0.3:
        s[-2] = 10.0**-rng.uniform(6, 16)
    A = (U*s) @ V.T*10.0**rng.uniform(-3, 3)
    X0 = rng.standard_normal((int(rng.integers(1, 8)), R))
    B = X0 @ A
    scale = np.linalg.norm(X0)*np.linalg.norm(A)
    if n > R and s.min() > 1e-10 and rng.random() < 0.7:   # a part that no X can reach
        E = rng.standard_normal(B.shape)
        B = B + 0.1*np.linalg.norm(B)/np.linalg.norm(E)*(E - (E @ V) @ V.T)
    residual = np.linalg.norm(B - (B @ V) @ V.T)
    A, B = gen.layout(rng, A)[0], gen.layout(rng, B)[0]
    mon.describe(what='near', A=A.shape, spectrum=s)
    X = base.rightsolve(A, B)
    mon.check(X.shape == X0.shape and np.isfinite(X).all(), 'nearly dependent: the shape', got=X.shape)
    mon.leq('near residual', np.linalg.norm(X @ A - B) - residual, 3e-12*scale, 'nearly dependent rows: not a minimiser of the squared error')
    mon.count('nearly dependent')
    mon.state(A)


def kkt(mon, X, A, B, lam, what):
    mon.check(X.shape == (B.shape[0], A.shape[0]) and np.isfinite(X).all(), f'{what}: the shape', got=X.shape)
    mon.check(bool((X >= 0).all()), f'{what}: negative entries', smallest=X.min())
    n = np.sqrt((A**2).sum(1) + lam)
    G = (X @ A - B) @ A.T + lam*X
    for i in range(len(B)):
        scale = n*(np.linalg.norm(B[i]) + np.linalg.norm(X[i]*n))
        mon.check(bool((G[i] >= -1e-6*scale - 1e-300).all()), f'{what}: an entry should be larger', row=i)
        on = X[i] > 0
        mon.check(bool((np.abs(G[i][on]) <= 1e-6*scale[on] + 1e-300).all()), f'{what}: a positive entry is not stationary', row=i)
        mon.count('active constraints', int((~on).any()))
        mon.count('inactive constraints', int(on.any()))
    # against an independent solution
    best = 0.0
    for i, b in enumerate(B):
        x = oracle.solve_ls(A.T, b[None], 'nn', lam)[0]
        best += np.linalg.norm(x @ A - b)**2 + lam*np.linalg.norm(x)**2
    got = np.linalg.norm(X @ A - B)**2 + lam*np.linalg.norm(X)**2
    mon.leq(f'{what} excess', got - best, 1e-9*np.linalg.norm(B)**2 + 1e-300, f'{what}: not a minimiser')


def nonneg(rng, mon, index):
    A, kind = coefficients(rng, mon)
    B = right_hand_side(rng, A, nonneg=rng.random() < 0.5)
    A, B, sp = common(rng, mon, 'nonneg', A, kind, B)
    locks = Sanitised(A, B)
    kkt(mon, base.non_negative_rightsolve(A, B), A, B, 0.0, 'non-negative least squares')
    if rng.random() < 0.5:
        i = int(rng.integers(len(B)))
        X = np.atleast_2d(base.non_negative_rightsolve(A, B[i]))
        mon.check(X.shape == (1, A.shape[0]), 'the shape for a single vector', got=X.shape)
        kkt(mon, X, A, B[i:i+1], 0.0, 'non-negative least squares of a vector')
        mon.count('single vector')
    mon.check(locks.verify(), 'the solver changed its arguments')
    mon.count('nonneg')
    mon.state(A)


def judge_orth(mon, X, A, B, what, deficient):
    """X A = B with orthonormal columns of X."""
    mon.check(X.shape == (B.shape[0], A.shape[0]) and np.isfinite(X).all(), f'{what}: the shape', got=X.shape)
    mon.leq(f'{what} orthonormal', np.abs(X.T @ X - np.eye(X.shape[1])).max(), 1e-12, f'{what}: the columns are not orthonormal')
    M = B @ A.T
    s = np.linalg.svd(M, compute_uv=False)
    mon.leq(f'{what} fit', s.sum() - (X*M).sum(), 1e-12*s.sum(), f'{what}: another orthonormal matrix fits better')
    mon.count('orthogonal deficient', int(deficient))


def orthogonal(rng, mon, index):
    big = rng.random() < 0.05
    p = int(rng.integers(1, 90 if big else 9))
    R = int(rng.integers(1, min(p, 14) + 1))
    n = int(rng.integers(1, 150 if big else 12))
    A, kind = coefficients(rng, mon, R, n)
    r = rng.random()
    Q = np.linalg.qr(rng.standard_normal((p, R)))[0]
    B = Q @ A
    if r < 0.6:
        B = B + 10.0**rng.uniform(-3, 1)*np.abs(A).max()*rng.standard_normal(B.shape)
    elif r < 0.8:
        B = rng.standard_normal(B.shape)
    elif r < 0.83:
        B = np.zeros(B.shape)
    A, B, sp = common(rng, mon, 'orthogonal', A, kind, B)
    s = np.linalg.svd(B @ A.T, compute_uv=False)
    deficient = s[-1] <= 1e-12*s[0]
    locks = Sanitised(A, B)
    judge_orth(mon, base.orthogonal_rightsolve(A, B), A, B, 'orthogonal right solve', deficient)
    X = base.orthogonal_solve(A.T, B.T)
    mon.check(X.shape == (R, p), 'the shape of the orthogonal solution', got=X.shape)
    judge_orth(mon, X.T, A, B, 'orthogonal solve', deficient)
    # A X = B with more unknowns than right-hand sides: orthonormal columns of X
    C, D = rng.standard_normal((n, p)), rng.standard_normal((n, R))
    X = base.orthogonal_solve(C, D)
    mon.check(X.shape == (p, R), 'the shape of the orthogonal solution', got=X.shape)
    mon.leq('orthogonal solve', np.abs(X.T @ X - np.eye(R)).max(), 1e-12, 'orthogonal solve: the columns are not orthonormal')
    s = np.linalg.svd(C.T @ D, compute_uv=False)
    mon.leq('orthogonal solve fit', s.sum() - (X*(C.T @ D)).sum(), 1e-12*s.sum(), 'orthogonal solve: another orthonormal matrix fits better')
    # the exact rotation is found
    if r >= 0.83 and sp is not None and sp[0] == R and sp[1] < 1e3:
        mon.leq('rotation', np.abs(base.orthogonal_rightsolve(A, Q @ A) - Q).max(), 1e-8, 'the exact orthonormal solution is not found')
    mon.check(locks.verify(), 'the solver changed its arguments')
    mon.count('orthogonal')


def ridge(rng, mon, index):
    which = ['free', 'nonneg', 'orthogonal'][index % 3]
    p = None
    if which == 'orthogonal':
        p = int(rng.integers(1, 8))
        A, kind = coefficients(rng, mon, int(rng.integers(1, p + 1)))
        B = rng.standard_normal((p, A.shape[1]))
    else:
        A, kind = coefficients(rng, mon)
        B = right_hand_side(rng, A)
    A, B, sp = common(rng, mon, 'ridge ' + which, A, kind, B)
    a = np.linalg.norm(A, 2)
    lam = 0.0 if rng.random() < 0.1 else float(10.0**rng.uniform(-5, 2)*(a**2 if a else 1))
    locks = Sanitised(A, B)
    solver = {'free': base.rightsolve, 'nonneg': base.non_negative_rightsolve, 'orthogonal': base.orthogonal_rightsolve}[which]
    solve = base.add_rightsolve_ridge(solver, lam)
    X = solve(A, B)
    if which == 'free':
        if sp is not None or lam:
            judge_free(mon, X, A, B, (None, None), lam, 'ridge regression')
        mon.count('ridge free')
    elif which == 'nonneg':
        kkt(mon, X, A, B, lam, 'non-negative ridge regression')
        mon.count('ridge nonneg')
    else:
        judge_orth(mon, X, A, B, 'orthogonal ridge', False)
        mon.count('ridge orthogonal')
    # the solver can be used again, for other sizes
    A2 = rng.standard_normal((A.shape[0] + 1, A.shape[1] + 2))
    B2 = rng.standard_normal((A.shape[0] + 2, A.shape[1] + 2))
    X2 = solve(A2, B2)
    if which == 'free':
        judge_free(mon, X2, A2, B2, (None, None), lam, 'ridge regression again')
    elif which == 'nonneg':
        kkt(mon, X2, A2, B2, lam, 'non-negative ridge regression again')
    mon.check(locks.verify(), 'the solver changed its arguments')


KINDS = {'near': Kind(near, 6000, 100000), 'free': Kind(free, 14000, 300000), 'nonneg': Kind(nonneg, 8000, 200000), 'orthogonal': Kind(orthogonal, 9000, 200000),
         'ridge': Kind(ridge, 9000, 200000)}
