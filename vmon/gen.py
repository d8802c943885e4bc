"""Workload generators. Everything is drawn from the case's rng; nothing calls the code under test."""
import string

import numpy as np

LETTERS = string.ascii_letters


def dense(factors, weights=None):
    """The weighted sum of outer products of the factors' columns, by einsum."""
    R = factors[0].shape[1]
    w = np.ones(R) if weights is None else np.asarray(weights, dtype=float).reshape(R)
    sub = ','.join(LETTERS[i] + 'Z' for i in range(len(factors)))
    out = LETTERS[:len(factors)]
    if len(factors) <= 3:
        return np.einsum(f'Z,{sub}->{out}', w, *[np.asarray(f, dtype=float) for f in factors])
    acc = np.asarray(factors[0], dtype=float)*w
    for f in factors[1:]:
        acc = acc[..., np.newaxis, :]*np.asarray(f, dtype=float)
    return acc.sum(-1)


def order(rng):
    return int(rng.choice([2, 3, 3, 3, 3, 4, 4, 5]))


def shape(rng, n=None, lo=1, hi=7, big=0.1):
    n = order(rng) if n is None else n
    if n >= 5:
        hi = min(hi, 5)
    s = [int(rng.integers(lo, max(lo, hi) + 1)) for _ in range(n)]
    if n <= 3 and rng.random() < big:
        s[rng.integers(n)] = int(rng.integers(20, 75))
    return tuple(s)


def full_shape(rng, rank, n=None, hi=8, big=0.1):
    """A shape whose modes are at least as long as the rank."""
    return shape(rng, n=n, lo=rank, hi=max(hi, rank + 2), big=big)


def factors(rng, shp, rank, kind='normal'):
    out = []
    for n in shp:
        f = rng.standard_normal((n, rank))
        if kind == 'nonneg':
            f = np.abs(f)
        elif kind == 'sparse':
            f = np.abs(f)*(rng.random((n, rank)) < 0.6)
        elif kind == 'uniform':
            f = rng.random((n, rank))
        elif kind == 'collinear' and rank > 1:
            c = rng.standard_normal((n, 1))
            f = c + 0.3*f
        elif kind == 'int':
            f = rng.integers(-3, 4, (n, rank)).astype(float)
        elif kind == 'orth' and n >= rank:
            f = np.linalg.qr(f)[0]
        out.append(f)
    if kind not in ('int', 'orth') and rng.random() < 0.06:   # columns of (almost) unit norm
        off = 0 if rng.random() < 0.3 else 10.0**rng.uniform(-9, -3)
        for i, f in enumerate(out):
            nrm = np.linalg.norm(f, axis=0)
            out[i] = f/np.where(nrm > 0, nrm, 1)*(1 + off*rng.uniform(-1, 1, rank))
    return out


def well_conditioned_factors(rng, shp, rank, kind='normal', cond=20):
    """Factor matrices, each of full column rank with a bounded condition number of the unit-norm columns."""
    out = []
    for n in shp:
        if n < rank:   # columns cannot be independent
            out.append(factors(rng, (n,), rank, kind)[0] + 0.1)
            continue
        for _ in range(200):
            f, = factors(rng, (n,), rank, kind)
            nrm = np.linalg.norm(f, axis=0)
            if (nrm > 1e-3).all() and np.linalg.cond(f/nrm) < cond:
                break
        else:
            f = np.linalg.qr(rng.standard_normal((n, rank)))[0]
            if kind in ('nonneg', 'sparse', 'uniform'):
                f = np.abs(f) + np.eye(n, rank)
        out.append(f)
    return out


def weights(rng, rank, positive=False):
    w = np.exp(rng.uniform(-2, 2, rank))
    r = rng.random()
    if r < 0.12:   # almost all one
        w = 1 + 10.0**rng.uniform(-9, -3)*rng.uniform(-1, 1, rank)
    elif r < 0.17:   # all equal
        w = np.full(rank, w[0])
    elif r < 0.22:
        w = 10.0**rng.uniform(-5, 5, rank)
    if not positive:
        w *= rng.choice([-1, 1], rank)
    return w


def layout(rng, X, dtype=None):
    """The same values in another memory layout; returns (array, name)."""
    if dtype is not None:
        X = X.astype(dtype)
    kind = rng.choice(['C', 'C', 'F', 'strided', 'transposed', 'offset'])
    if kind == 'C':
        Y = np.ascontiguousarray(X)
        Y = Y.copy()
    elif kind == 'F':
        Y = np.array(X, order='F')
    elif kind == 'strided':
        big = np.full([2*s for s in X.shape], 7, dtype=X.dtype)
        Y = big[tuple(slice(0, None, 2) for _ in X.shape)]
        Y[...] = X
    elif kind == 'transposed':
        perm = rng.permutation(X.ndim)
        Y = np.ascontiguousarray(X.transpose(perm)).transpose(np.argsort(perm))
    else:
        buf = np.full(X.size + 3, 7, dtype=X.dtype)
        Y = buf[3:].reshape(X.shape)
        Y[...] = X
    assert Y.shape == X.shape and (Y == X).all()
    return Y, str(kind)


def data(rng, shp, kind=None, rank=2):
    """A data tensor; returns (array, name)."""
    kind = kind or str(rng.choice(['noise', 'noise', 'lowrank', 'lowrank', 'nonneg', 'sparse', 'collinear', 'int', 'scaled']))
    if kind == 'noise':
        X = rng.standard_normal(shp)
    elif kind == 'lowrank':
        X = dense(factors(rng, shp, rank))
        X = X + 0.1*np.linalg.norm(X)/np.sqrt(X.size)*rng.standard_normal(shp)
    elif kind == 'nonneg':
        X = np.abs(dense(factors(rng, shp, rank, 'nonneg')) + 0.1*rng.standard_normal(shp))
    elif kind == 'sparse':
        X = dense(factors(rng, shp, rank, 'sparse')) + 0.05*rng.standard_normal(shp)
    elif kind == 'collinear':
        X = dense(factors(rng, shp, rank, 'collinear')) + 0.05*rng.standard_normal(shp)
    elif kind == 'int':
        X = rng.integers(-4, 5, shp).astype(float)
    else:
        X = rng.standard_normal(shp)*10.0**rng.choice([-6, -3, 3, 6])
    if not np.any(X):
        X = X + 1.0
    return X, kind


DTYPES = ['float32', 'int64', 'int32', 'int16', 'int8', 'uint8', 'bool']


def typed(rng, arrays, p=0.3):
    """Data arrays, sometimes converted to other dtypes (the rounded values then are the data); returns (arrays, dtype)."""
    if rng.random() > p:
        return [np.asarray(x) for x in arrays], 'float64'
    dt = DTYPES[int(rng.integers(len(DTYPES)))]
    top = max(np.abs(x).max() for x in arrays)
    each = [dt]*len(arrays)
    if len(arrays) > 1 and rng.random() < 0.35:   # arrays of different types
        pool = [dt, 'float64', DTYPES[int(rng.integers(len(DTYPES)))]]
        each = [pool[int(rng.integers(3))] for _ in arrays]
    out = []
    for x, d in zip(arrays, each):
        y = x/top
        if d in ('uint8', 'bool'):
            y = np.abs(y)
        if d == 'bool':
            y = y > 0.2
        elif 'int' in d:
            y = np.round(y*100)
        if not np.any(y):
            y = y + 1
        out.append(y.astype(d))
    return out, each[0] if len(set(each)) == 1 else 'float32' if 'float32' in each else 'mixed'


def rebalance(rng, F, modes, p=0.35):
    """Sometimes move scale between some modes of factor matrices, leaving what they describe unchanged (in place)."""
    if len(modes) < 2 or rng.random() > p:
        return False
    a = rng.choice([1, 2, 4, 6])
    cols = F[modes[0]].shape[1] if rng.random() < 0.3 else 1
    e = rng.uniform(-a, a, (len(modes), cols if a <= 2 else 1))
    e -= e.mean(axis=0)
    for m, x in zip(modes, e):
        F[m] = F[m]*10.0**x
    return True


def scale_of(X):
    return float(np.linalg.norm(X))


# PARAFAC2 ---------------------------------------------------------------------------------------------------------

def pf2_dims(rng, rank, irregular=None, full=True, K=None, I=None, hi=8):
    """Sizes (I, [J_k], K); full: every slice is at least as wide as the rank."""
    hi = max(hi, rank)
    I = int(rng.integers(max(rank if full else 1, 1), hi + 1)) if I is None else I
    K = int(rng.integers(max(rank if full else 1, 1), hi + 1)) if K is None else K
    irregular = bool(rng.random() < 0.6) if irregular is None else irregular
    lo = rank
    if irregular:
        J = [int(rng.integers(lo, lo + 6)) for _ in range(K)]
    else:
        J = [int(rng.integers(lo, lo + 6))]*K
    return I, J, K


def pf2_model(rng, I, J, K, rank, kind='normal', cond=20, positive_c=True):
    """A well-conditioned PARAFAC2 model (A, B, C, [P_k])."""
    A, B = well_conditioned_factors(rng, (I, rank), rank, kind, cond)
    if positive_c:
        C, = well_conditioned_factors(rng, (K,), rank, 'uniform', cond)
        C = C + 0.1
    else:
        C, = well_conditioned_factors(rng, (K,), rank, 'normal', cond)
    P = [np.linalg.qr(rng.standard_normal((j, rank)))[0] for j in J]
    return A, B, C, P


def pf2_slices(A, B, C, P):
    return [(A*C[k]) @ (P[k] @ B).T for k in range(len(P))]


def pf2_data(rng, I, J, K, rank, kind=None):
    """A list of slices; returns (slices, name)."""
    kind = kind or str(rng.choice(['noise', 'lowrank', 'lowrank', 'nonneg', 'scaled', 'int']))
    if kind == 'noise':
        X = [rng.standard_normal((I, j)) for j in J]
    elif kind == 'scaled':
        s = 10.0**rng.choice([-6, -3, 3, 6])
        X = [s*rng.standard_normal((I, j)) for j in J]
    elif kind == 'int':
        X = [rng.integers(-4, 5, (I, j)).astype(float) for j in J]
    else:
        A, B, C, P = pf2_model(rng, I, J, K, rank, 'nonneg' if kind == 'nonneg' else 'normal')
        X = pf2_slices(A, B, C, P)
        X = [x + 0.1*np.linalg.norm(x)/np.sqrt(x.size)*rng.standard_normal(x.shape) for x in X]
        if kind == 'nonneg':
            X = [np.abs(x) for x in X]
    for x in X:
        if not np.any(x):
            x += 1.0
    if K > 1 and rng.random() < 0.12:   # equal slices
        i, j = rng.choice(K, 2, replace=False)
        if X[i].shape == X[j].shape:
            X[i] = X[j].copy()
    return X, kind


def constraints(rng, n, orth_ok=(True,)*8, p=(0.45, 0.3, 0.25), max_orth=None):
    """Per mode one of 'free', 'nn', 'orth'."""
    out = []
    for i in range(n):
        c = str(rng.choice(['free', 'nn', 'orth'], p=p))
        if c == 'orth' and not orth_ok[i]:
            c = 'free'
        out.append(c)
    limit = n - 1 if max_orth is None else max_orth
    while out.count('orth') > limit:
        out[out.index('orth')] = 'free'
    return out


def constraint_kwargs(rng, cons, ridge=None):
    """Constructor arguments for a per-mode list of constraints; an absent constraint is None or all False."""
    kw = {}
    nn = [c == 'nn' for c in cons]
    orth = [c == 'orth' for c in cons]
    if rng.random() < 0.1:   # other truth values
        of = [int, np.bool_][int(rng.integers(2))]
        nn, orth = [of(v) for v in nn], [of(v) for v in orth]
    if any(nn) or rng.random() < 0.3:
        kw['non_negativity_constraints'] = nn
    if any(orth) or rng.random() < 0.3:
        kw['orthonormality_constraints'] = orth
    if ridge is not None:
        kw['ridge_penalties'] = list(ridge)
    return kw


def ridge(rng, n, scale=1.0, p=0.4):
    if rng.random() > p:
        return None
    low = -4 if rng.random() < 0.75 else -7
    return [float(rng.choice([0, 10.0**rng.uniform(low, -0.5)])*scale) for _ in range(n)]
