"""Reference semantics, written from the definitions (no call into the code under test)."""
import itertools

import numpy as np

from .gen import LETTERS, dense, pf2_slices  # noqa: F401
from .solver import nnls

EPS = np.finfo(float).eps


def unfold(X, mode):
    return np.moveaxis(X, mode, 0).reshape(X.shape[mode], -1)


def design(factors, mode):
    """Columns: vectorised rank-one terms of the other modes, in the order of `unfold`."""
    others = [f for i, f in enumerate(factors) if i != mode]
    R = others[0].shape[1]
    acc = np.ones((1, R))
    for f in others:
        acc = (acc[:, np.newaxis, :]*f[np.newaxis, :, :]).reshape(-1, R)
    return acc


def scaled_cond(Z):
    """Condition number after scaling the columns to unit norm; inf if a column vanishes."""
    n = np.linalg.norm(Z, axis=0)
    if not (n > 0).all() or not np.isfinite(n).all():
        return np.inf
    s = np.linalg.svd(Z/n, compute_uv=False)
    if len(s) < Z.shape[1] or s[-1] == 0:
        return np.inf
    return s[0]/s[-1]


def stable_cond(Z):
    """Condition number of the unit-norm columns, with zero columns and exact dependencies left out.

    Infinite if some direction is neither clearly independent nor an exact dependency.
    """
    n = np.linalg.norm(Z, axis=0)
    if not np.isfinite(n).all():
        return np.inf
    Z = Z[:, n > 0]
    if Z.shape[1] == 0:
        return 1.0
    s = np.linalg.svd(Z/n[n > 0], compute_uv=False)
    if not np.isfinite(s).all():
        return np.inf
    keep, gap = s[s > 1e-9*s[0]], s[s <= 1e-9*s[0]]
    if len(gap) and gap.max() > 1e-13*s[0]:
        return np.inf
    return s[0]/keep[-1]


def solve_truncated(Z, Y):
    """X minimising the norm of X Z' - Y when (nearly) exact dependencies of the columns of Z are not used."""
    n = np.linalg.norm(Z, axis=0)
    n = np.where(n > 0, n, 1)
    U, s, Vh = np.linalg.svd(Z/n, full_matrices=False)
    keep = s > 1e-12*s[0]
    return (((Y @ U[:, keep])/s[keep]) @ Vh[keep])/n


def disparity(Z):
    n = np.linalg.norm(Z, axis=0)
    return np.inf if n.min() == 0 else n.max()/n.min()


def solve_ls(Z, Y, constraint='free', ridge=0.0):
    """min_F ||F Z^T - Y||^2 + ridge ||F||^2 over the constraint set. Y: rows x n, Z: n x R."""
    R = Z.shape[1]
    if constraint == 'orth':
        U, _, Vt = np.linalg.svd(Y @ Z, full_matrices=False)
        return U @ Vt
    if ridge:
        Z = np.concatenate([Z, np.sqrt(ridge)*np.eye(R)])
        Y = np.concatenate([Y, np.zeros((Y.shape[0], R))], axis=1)
    if constraint == 'free':
        n = np.linalg.norm(Z, axis=0)
        n = np.where(n == 0, 1, n)
        return np.linalg.lstsq(Z/n, Y.T, rcond=None)[0].T/n
    n = np.linalg.norm(Z, axis=0)
    n = np.where(n == 0, 1, n)
    return np.stack([nnls(Z/n, y, maxiter=100*R)[0] for y in Y])/n


def objective(F, Z, Y, ridge=0.0):
    return np.linalg.norm(F @ Z.T - Y)**2 + ridge*np.linalg.norm(F)**2


def procrustes_cond(Y, Z):
    s = np.linalg.svd(Y @ Z, compute_uv=False)
    if len(s) < Z.shape[1] or s[-1] <= 1e-100 or s[-1] <= 1e-12*np.linalg.norm(Y)*np.linalg.norm(Z):
        return np.inf
    return s[0]/s[-1]


def cp_sweep(X, factors, constraints, ridge=None):
    """One ALS sweep from `factors`.

    Returns (new factors, uniqueness, stability): the worst condition numbers met; the solutions are unique and well
    determined if the first is small, and the loss is numerically meaningful if the second is small.
    """
    F = [np.array(f, dtype=float) for f in factors]
    unique = stable = 1.0
    for m in range(len(F)):
        Z, Y = design(F, m), unfold(X, m)
        lam = 0.0 if ridge is None else ridge[m]
        Za = Z if not lam else np.concatenate([Z, np.sqrt(lam)*np.eye(Z.shape[1])])
        if constraints[m] == 'orth':
            unique = max(unique, procrustes_cond(Y, Z))
        else:
            unique = max(unique, scaled_cond(Za))
        stable = max(stable, stable_cond(Za))
        F[m] = solve_ls(Z, Y, constraints[m], lam)
        if np.linalg.norm(F[m] @ Z.T) < 1e-4*np.linalg.norm(Y):   # the data hardly matter: only rounding would be compared
            unique = np.inf
    return F, unique, stable


def cp_loss(X, factors, weights=None, ridge=None):
    loss = np.linalg.norm(X - dense(factors, weights))**2
    if ridge is not None:
        loss += sum(r*np.linalg.norm(f)**2 for r, f in zip(ridge, factors))
    return loss


def pf2_loss(X, A, B, C, P, ridge=None):
    loss = sum(np.linalg.norm(x - y)**2 for x, y in zip(X, pf2_slices(A, B, C, P)))
    if ridge is not None:
        loss += sum(r*np.linalg.norm(f)**2 for r, f in zip(ridge, (A, B, C)))
    return loss


def pf2_projection(Xk, A, B, ck):
    """Orthonormal P minimising ||Xk - A diag(c) (P B)^T||: Procrustes. Returns (P, condition)."""
    M = Xk.T @ (A*ck) @ B.T          # J x R
    U, s, Vt = np.linalg.svd(M, full_matrices=False)
    cond = np.inf if s[-1] <= 0 else s[0]/s[-1]
    return U @ Vt, cond


def pf2_iteration(X, A, B, C, constraints, ridge, n_sweeps):
    """One PARAFAC2 iteration. Returns (factors, projections, uniqueness, stability)."""
    P, unique, stable = [], 1.0, 1.0
    for k, x in enumerate(X):
        p, c = pf2_projection(x, A, B, C[k])
        P.append(p)
        unique = max(unique, c)
    T = np.stack([x @ p for x, p in zip(X, P)], axis=-1)   # I x R x K
    F = [A, B, C]
    for _ in range(n_sweeps):
        F, u, s = cp_sweep(T, F, constraints, ridge)
        unique, stable = max(unique, u), max(stable, s)
    return F, P, unique, stable


def congruence(F, G):
    """Signed column cosines between two factor matrices."""
    nf, ng = np.linalg.norm(F, axis=0), np.linalg.norm(G, axis=0)
    return (F.T @ G)/np.outer(nf, ng)


def best_match(score, reduce=np.min):
    """Brute force over matchings: (best value, all permutations attaining it)."""
    R = score.shape[0]
    vals = {p: reduce([score[i, p[i]] for i in range(R)]) for p in itertools.permutations(range(R))}
    best = max(vals.values())
    return best, [p for p, v in vals.items() if v >= best - 1e-12]
