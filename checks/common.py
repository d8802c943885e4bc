"""Workload builders shared by several checks."""
import numpy as np
from tenkit.decomposition.cmtf import CMTF_ALS
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.decompositions import EvolvingTensor, KruskalTensor, Parafac2Tensor  # noqa: F401
from tenkit.decomposition.parafac2 import Parafac2_ALS

from vmon import gen, oracle
from vmon.core import Skip
from vmon.record import Recorder, snap


class Case:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def large_shape(rng):
    kind = rng.integers(3)
    if kind == 0:   # many modes
        n = int(rng.integers(6, 8))
        return int(rng.integers(2, 6)), tuple(int(v) for v in rng.integers(2, 5 if n == 6 else 4, n))
    rank = int(rng.integers(6, 14))
    if kind == 1:   # many components
        n = int(rng.choice([2, 3, 3, 4]))
        return rank, tuple(int(v) for v in rng.integers(rank if n < 4 else max(rank - 2, 5), rank + 6, n))
    n = int(rng.choice([2, 3, 3]))   # long modes
    s = [int(v) for v in rng.integers(rank, 40, n)]
    s[int(rng.integers(n))] = int(rng.integers(60, 260 if n == 2 else 130))
    return rank, tuple(s)


CP_STRATA = ['free', 'nn_all', 'nn_some', 'orth_one', 'ridge', 'mixed', 'mixed_ridge', 'orth_many', 'ridge_nn', 'ridge_orth']


def cp_case(rng, stratum=None, full=False, max_rank=5, data_kind=None, hi=7, big=0.1, n=None, max_elements=40000,
            typed=True, large=0.04):
    """A CP fitting problem: X, rank, per-mode constraints, ridge penalties and a feasible starting point."""
    stratum = stratum or str(rng.choice(CP_STRATA))
    large = n is None and rng.random() < large
    for _ in range(1000):
        rank = int(rng.integers(1, max_rank + 1))
        if large:   # more components, modes or entries than elsewhere
            rank, shp = large_shape(rng)
        else:
            shp = gen.full_shape(rng, rank, n=n, hi=hi, big=big) if full else gen.shape(rng, n=n, hi=hi, big=big)
        if np.prod(shp) > max_elements:
            continue
        n_ = len(shp)
        N = int(np.prod(shp))
        orth_ok = [s >= rank and N//s >= rank for s in shp]
        if stratum in ('orth_one', 'orth_many', 'ridge_orth') and not any(orth_ok):
            continue
        break
    else:
        raise Skip('no admissible shape')
    if stratum in ('free', 'ridge'):
        cons = ['free']*n_
    elif stratum in ('nn_all', 'ridge_nn'):
        cons = ['nn']*n_
    elif stratum == 'nn_some':
        cons = gen.constraints(rng, n_, p=(0.5, 0.5, 0.0))
    elif stratum == 'orth_one' or stratum == 'ridge_orth':
        m = int(rng.choice([i for i in range(n_) if orth_ok[i]]))
        cons = ['orth' if i == m else 'free' for i in range(n_)]
    elif stratum == 'orth_many':
        cons = ['orth' if orth_ok[i] else 'free' for i in range(n_)]
        if 'free' not in cons:
            cons[int(rng.integers(n_))] = 'free'
    else:
        cons = gen.constraints(rng, n_, orth_ok)
    X, dk = gen.data(rng, shp, data_kind, rank=rank)
    (raw,), dt = gen.typed(rng, [X], 0.3 if typed else 0)
    X = raw.astype(float)
    lam = None
    rescaled = 'ridge' in stratum and dt == 'float64' and rng.random() < 0.35
    if rescaled:   # penalties and factors of other magnitudes
        raw = X = X*2.0**rng.integers(-30, 31)
    if 'ridge' in stratum:
        s = np.linalg.norm(X)**(2 - 2/n_)
        lam = gen.ridge(rng, n_, scale=s, p=1.0)
    F = gen.factors(rng, shp, rank)
    for i, c in enumerate(cons):
        if c == 'nn':
            F[i] = np.abs(F[i])
        elif c == 'orth':
            F[i] = np.linalg.qr(F[i])[0]
    terms = np.prod([np.linalg.norm(f, axis=0) for f in F], axis=0).max()
    s = np.linalg.norm(X)/max(np.linalg.norm(gen.dense(F)), 1e-3*terms, 1e-100)   # (the components may cancel)
    free = [i for i, c in enumerate(cons) if c != 'orth']
    if free and np.isfinite(s) and s > 0:
        for i in free if rescaled else free[-1:]:
            F[i] = F[i]*s**(1/len(free) if rescaled else 1)
    if lam is None:
        gen.rebalance(rng, F, free)
    return Case(raw=raw, dtype=dt, X=X, shape=shp, rank=rank, cons=cons, ridge=lam, start=F, data_kind=dk, stratum=stratum,
                kw=gen.constraint_kwargs(rng, cons, lam))


def target(rng, case):
    """The data tensor of a CP case in its dtype and some memory layout."""
    return gen.layout(rng, case.raw)[0]


def cp_model(case, **kw):
    args = dict(max_its=20, convergence_tol=-1, rel_loss_tol=-1)
    args.update(case.kw)
    args.update(kw)
    return CP_ALS(case.rank, **args)


def cp_fit(case, rng, its, start=None, metrics=(), X=None, **kw):
    """Fit with a recorder. start: 'random', 'svd' or 'given'. Returns (model, recorder, starting factors or None)."""
    rec = Recorder(metrics=metrics)
    X = target(rng, case) if X is None else X
    if start is None:
        start = str(rng.choice(['random', 'given', 'svd' if case.rank <= min(case.shape) and 'nn' not in case.cons and X.dtype != np.float32
                                and max(np.prod(case.shape)/np.array(case.shape)) < 400 else 'given']))
    loggers = [rec] + list(kw.pop('loggers', []))
    if start == 'given':
        m = cp_model(case, init='precomputed', loggers=loggers, max_its=its, **kw)
        m.fit(X, initial_decomposition=KruskalTensor([f.copy() for f in case.start]))
        s0 = [f.copy() for f in case.start]
    else:
        seed = int(rng.integers(2**31))
        np.random.seed(seed)
        m0 = cp_model(case, init=start, max_its=0, **kw)
        m0.fit(X)
        s0 = snap(m0).F
        np.random.seed(seed)
        m = cp_model(case, init=start, loggers=loggers, max_its=its, **kw)
        m.fit(X)
    return m, rec, s0, start


def feasible(F, cons, tol=1e-9):
    for f, c in zip(F, cons):
        if c == 'nn' and (f < 0).any():
            return False
        if c == 'orth' and (f.shape[0] < f.shape[1] or np.abs(f.T @ f - np.eye(f.shape[1])).max() > tol):
            return False
    return True


def model_scale(X, F):
    """Magnitude against which rounding of a loss is judged: data plus all rank-one terms."""
    norms = np.prod([np.linalg.norm(f, axis=0) for f in F], axis=0)
    return np.linalg.norm(X)**2 + float(np.sum(norms)**2)


def sweep_scale(X, prev, new):
    """The largest such magnitude met during a sweep from prev to new."""
    return max(model_scale(X, [*new[:m], *prev[m:]]) for m in range(len(new) + 1))


def design_cond(prev, new, ridge=None, cond=oracle.stable_cond):
    """Worst (stable) condition number among the designs met in a sweep from prev to new."""
    worst = 1.0
    for m in range(len(new)):
        Z = oracle.design([*new[:m], prev[m], *prev[m+1:]], m)
        if ridge is not None and ridge[m]:
            Z = np.concatenate([Z, np.sqrt(ridge[m])*np.eye(Z.shape[1])])
        worst = max(worst, cond(Z))
    return worst


def columns_differ(F, G):
    """Largest column difference of two matrices, relative to the largest column."""
    if F.shape != G.shape:
        return np.inf
    scale = max(np.linalg.norm(F, axis=0).max(), np.linalg.norm(G, axis=0).max(), 1e-300)
    return np.linalg.norm(F - G, axis=0).max()/scale


PF2_STRATA = ['free', 'nn_a', 'nn_c', 'nn_all', 'nn_b', 'orth_a', 'orth_c', 'ridge', 'mixed', 'mixed_ridge']


def pf2_case(rng, stratum=None, max_rank=4, data_kind=None, irregular=None, K=None, dims=None, typed=True, large=0.04):
    stratum = stratum or str(rng.choice(PF2_STRATA))
    if dims is None and K is None and irregular is None and rng.random() < large:   # more components, slices or entries than elsewhere
        r = int(rng.integers(4, 10))
        lo = int(rng.integers(r, r + 25))
        J = [int(v) for v in rng.integers(lo, lo + 12, int(rng.integers(r, 34)))]
        if rng.random() < 0.4:
            J = [J[0]]*len(J)
        dims = int(rng.integers(r, r + 30)), J, len(J), r
    rank = int(rng.integers(1, max_rank + 1)) if dims is None else dims[3]
    I, J, Kn = gen.pf2_dims(rng, rank, irregular, full='orth' in stratum or rng.random() > 0.15, K=K) if dims is None else dims[:3]
    cons = {'free': 'free free free', 'nn_a': 'nn free free', 'nn_c': 'free free nn', 'nn_all': 'nn nn nn',
            'nn_b': 'free nn free', 'orth_a': 'orth free free', 'orth_c': 'free free orth',
            'ridge': 'free free free'}.get(stratum)
    if cons is None:
        cons = gen.constraints(rng, 3, (I >= rank, False, Kn >= rank))
    else:
        cons = cons.split()
    X, dk = gen.pf2_data(rng, I, J, Kn, rank, data_kind)
    raw, dt = gen.typed(rng, X, 0.3 if typed else 0)
    X = [x.astype(float) for x in raw]
    lam = None
    rescaled = 'ridge' in stratum and dt == 'float64' and rng.random() < 0.35
    if rescaled:   # penalties and factors of other magnitudes
        t = 2.0**rng.integers(-30, 31)
        raw = X = [x*t for x in X]
    if 'ridge' in stratum:
        s = np.sqrt(sum(np.linalg.norm(x)**2 for x in X))
        lam = gen.ridge(rng, 3, scale=s**(4/3), p=1.0)
    A, B, C = gen.factors(rng, (I, rank, Kn), rank)
    P = [np.linalg.qr(rng.standard_normal((j, rank)))[0] for j in J]
    F = [A, B, C]
    for i, c in enumerate(cons):
        if c == 'nn':
            F[i] = np.abs(F[i])
        elif c == 'orth':
            F[i] = np.linalg.qr(F[i])[0]
    nx = np.sqrt(sum(np.linalg.norm(x)**2 for x in X))
    ny = np.sqrt(sum(np.linalg.norm(x)**2 for x in gen.pf2_slices(*F, P)))
    ny = max(ny, 1e-3*np.prod([np.linalg.norm(f, axis=0) for f in F], axis=0).max(), 1e-100)
    free = [i for i, c in enumerate(cons) if c != 'orth']
    for i in free if rescaled else [1]:
        F[i] = F[i]*(nx/ny)**(1/len(free) if rescaled else 1)
    if lam is None:
        gen.rebalance(rng, F, free)
    kw = gen.constraint_kwargs(rng, cons, lam)
    return Case(raw=raw, dtype=dt, X=X, I=I, J=J, K=Kn, rank=rank, cons=cons, ridge=lam, start=(F, P), data_kind=dk, stratum=stratum, kw=kw,
                sweeps=int(rng.choice([1, 2, 5, 5])))


def pf2_model(case, **kw):
    args = dict(max_its=10, convergence_tol=-1, print_frequency=-1, cp_updates_per_it=case.sweeps)
    args.update(case.kw)
    args.update(kw)
    return Parafac2_ALS(case.rank, **args)


def pf2_start(case):
    F, P = case.start
    return Parafac2Tensor(F[0].copy(), F[1].copy(), F[2].copy(), [p.copy() for p in P])


def as_target(rng, case):
    """The slices as a list, or (if regular) sometimes as one tensor with the third mode last."""
    if len(set(case.J)) == 1 and rng.random() < 0.5:
        return gen.layout(rng, np.stack(case.raw, axis=-1))[0], 'tensor'
    slices = [gen.layout(rng, x)[0] for x in case.raw]
    if rng.random() < 0.5:   # equal slices may be one array
        slices = share(slices)
    return slices, 'list'


def share(arrays):
    """Replace arrays that equal an earlier one by that very array."""
    out = []
    for a in arrays:
        out.append(next((b for b in out if b.shape == a.shape and np.array_equal(a, b)), a))
    return out


def pf2_fit(case, rng, its, start=None, metrics=(), X=None, **kw):
    rec = Recorder(metrics=metrics)
    X = as_target(rng, case)[0] if X is None else X
    loggers = [rec] + list(kw.pop('loggers', []))
    if start is None:
        opts = ['random', 'given', 'given']
        if 'nn' not in case.cons and case.rank <= case.I and case.dtype != 'float32':
            opts.append('svd')
            if len(set(case.J)) == 1:
                opts.append('cp')
        start = str(rng.choice(opts))
    if start == 'given':
        m = pf2_model(case, init='precomputed', loggers=loggers, max_its=its, **kw)
        m.fit(X, initial_decomposition=pf2_start(case))
        s0 = ([f.copy() for f in case.start[0]], [p.copy() for p in case.start[1]])
    else:
        seed = int(rng.integers(2**31))
        np.random.seed(seed)
        m0 = pf2_model(case, init=start, max_its=0, **kw)
        m0.fit(X)
        s = snap(m0)
        s0 = (s.F, s.P)
        np.random.seed(seed)
        m = pf2_model(case, init=start, loggers=loggers, max_its=its, **kw)
        m.fit(X)
    return m, rec, s0, start


def cmtf_case(rng, max_rank=4, strata=None, large=0.05):
    """A coupled problem: X, matrices, coupling modes, constraints (non-negative modes only by default)."""
    rank = int(rng.integers(1, max_rank + 1))
    shp = gen.shape(rng, n=int(rng.choice([2, 3, 3, 3, 4])), lo=2, hi=7, big=0)
    large = rng.random() < large   # more components, modes, matrices or entries than elsewhere
    if large:
        rank, shp = large_shape(rng)
    n = len(shp)
    X, dk = gen.data(rng, shp, str(rng.choice(['noise', 'lowrank', 'nonneg', 'int', 'scaled'])), rank=rank)
    n_mat = int(rng.integers(4, 13)) if large else int(rng.integers(1, 5))
    modes = [int(rng.integers(n)) for _ in range(n_mat)]
    if n_mat >= 2 and rng.random() < 0.5:
        modes[1] = modes[0]
    s = np.linalg.norm(X)/np.sqrt(X.size)
    Ys = [s*float(np.exp(rng.uniform(-1, 1)))*rng.standard_normal((shp[m], int(rng.integers(1, 60 if large else 9)))) for m in modes]
    if dk == 'nonneg':
        Ys = [np.abs(y) for y in Ys]
    if n_mat >= 2 and rng.random() < 0.15 and shp[modes[0]] == shp[modes[-1]]:   # equal matrices
        Ys[-1] = Ys[0].copy()
    raw, dt = gen.typed(rng, [X, *Ys])
    X, *Ys = [x.astype(float) for x in raw]
    cons = gen.constraints(rng, n, p=(0.6, 0.4, 0.0)) if rng.random() < 0.5 else ['free']*n
    F = gen.factors(rng, shp, rank)
    for i, c in enumerate(cons):
        if c == 'nn':
            F[i] = np.abs(F[i])
    kw = gen.constraint_kwargs(rng, cons)
    return Case(raw=raw[0], Yraw=raw[1:], dtype=dt, X=X, Y=Ys, modes=modes, shape=shp, rank=rank, cons=cons, start=F, kw=kw, data_kind=dk, ridge=None)


def cmtf_target(rng, case):
    """The tensor and the matrices in their dtype and some memory layouts."""
    Y = [gen.layout(rng, y)[0] for y in case.Yraw]
    if rng.random() < 0.5:
        Y = share(Y)
    return gen.layout(rng, case.raw)[0], Y


def cmtf_model(case, **kw):
    args = dict(max_its=10, convergence_tol=-1, rel_loss_tol=-1)
    args.update(case.kw)
    args.update(kw)
    return CMTF_ALS(case.rank, **args)


def cmtf_sse(case, s):
    """Joint squared error of a snapshot, by definition."""
    sse = np.linalg.norm(case.X - gen.dense(s.F, s.w))**2
    for y, m, v in zip(case.Y, case.modes, s.V):
        sse += np.linalg.norm(y - s.F[m] @ v.T)**2
    return sse
