"""C28: degenerate data and starts never break a fit."""
import numpy as np
from tenkit.decomposition.cmtf import CMTF_ALS
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.decompositions import KruskalTensor, Parafac2Tensor
from tenkit.decomposition.parafac2 import Parafac2_ALS

from vmon import gen, oracle
from vmon.core import Kind, Skip
from vmon.record import Recorder, snap

from .c07 import sweep
from .common import Case, feasible, sweep_scale

PROPERTY = 'C28'
RULE = ('Data which are zero in part or as a whole, constant, repeated, of lower rank than the model, of a single entry, of entries over '
        'fifteen orders of magnitude or of modes of length one, and starts with zero, repeated, collinear, tiny or huge components, are fitted under '
        'all constraint mixes with ranks up to ten; every snapshot must be finite and feasible and fit at least as well as the zero model. '
        'Non-trivial: a fit performed iterations.')
ASSUMPTIONS = ['errors are compared up to 1e-8 of the squared norm of the data and 1e-11 of the squared magnitudes of the components; increases of it between iterations up to 3e-2 and not with nearly dependent components in CMTF',
               'fits whose scales leave the range of double precision are set aside']
FLOORS = {'iterations judged': 40000, 'zero data': 700, 'rank above a mode': 4500, 'starts: degenerate': 3000, 'exactly fitted': 14000,
          'vanished components': 18000, 'orthonormal': 900, 'non-negative': 4000, 'ridge': 1500, 'default tolerances': 1000,
          'descents judged': 20000}
KINDS_OF_DATA = ['zero', 'constant', 'fibres', 'slices', 'repeated', 'rank one', 'single', 'graded', 'signs', 'ones', 'noise', 'negative', 'tiny',
                 'huge', 'nearly zero']


def degenerate(rng, shp, kind=None):
    k = kind or str(rng.choice(KINDS_OF_DATA))
    X = rng.standard_normal(shp)
    if k == 'zero':
        X = np.zeros(shp)
    elif k in ('constant', 'ones'):
        X = np.full(shp, float(rng.standard_normal()) if k == 'constant' else 1.0)
    elif k == 'fibres':
        X = X*(rng.random(shp) < 0.15)
    elif k == 'slices':
        m = int(rng.integers(len(shp)))
        X = np.moveaxis(X, m, 0)
        X[rng.random(shp[m]) < 0.6] = 0
        X = np.moveaxis(X, 0, m)
    elif k == 'repeated':
        m = int(rng.integers(len(shp)))
        X = np.take(X, rng.integers(0, max(1, shp[m]//2 + 1), shp[m]), axis=m)
    elif k == 'rank one':
        X = gen.dense(gen.factors(rng, shp, 1, str(rng.choice(['normal', 'nonneg', 'int']))))
    elif k == 'single':
        X = np.zeros(shp)
        X[tuple(int(rng.integers(s)) for s in shp)] = rng.standard_normal()
    elif k == 'graded':
        X = X*10.0**rng.uniform(-12, 3, shp)
    elif k == 'signs':
        X = np.sign(X)
    elif k == 'negative':
        X = -np.abs(X)
    elif k == 'tiny':
        X = X*1e-30
    elif k == 'huge':
        X = X*1e30
    elif k == 'nearly zero':
        X = X*(rng.random(shp) < 0.1)*1e-20
    return X, k


def start_factors(rng, mon, shp, R, cons, tiny=1e-25):
    """Degenerate starting factors which satisfy the constraints."""
    F = gen.factors(rng, shp, R)
    kind = str(rng.choice(['zero component', 'zero', 'repeated', 'collinear', 'tiny', 'huge', 'one zero matrix', 'ones', 'usual']))
    for i, f in enumerate(F):
        if kind == 'zero component':
            f[:, int(rng.integers(R))] = 0
        elif kind == 'zero' or (kind == 'one zero matrix' and i == len(F)//2):
            f[...] = 0
        elif kind == 'repeated':
            f[...] = f[:, rng.integers(0, R, R)]
        elif kind == 'collinear':
            f[...] = f[:, :1] + 1e-9*f
        elif kind == 'tiny':
            f *= tiny
        elif kind == 'huge':
            f *= 1e5
        elif kind == 'ones':
            f[...] = 1
    for i, c in enumerate(cons):
        if c == 'nn':
            F[i] = np.abs(F[i])
        elif c == 'orth':
            F[i] = np.linalg.qr(rng.standard_normal(F[i].shape))[0]
    if kind != 'usual':
        mon.count('starts: degenerate')
    return F, kind


def draw_constraints(rng, shp, R, sizes=None):
    n = len(shp)
    N = int(np.prod(shp)) if sizes is None else sizes
    cons = ['free']*n if rng.random() < 0.35 else [str(rng.choice(['free', 'nn', 'nn', 'orth'])) for _ in shp]
    cons = ['free' if c == 'orth' and (s < R or N//max(s, 1) < R) else c for c, s in zip(cons, shp)]
    if all(c == 'orth' for c in cons):
        cons[int(rng.integers(n))] = 'free'
    return cons


def settings(rng, mon, cons, x, ridge=True):
    kw = gen.constraint_kwargs(rng, cons)
    lam = None
    if ridge and rng.random() < 0.3:
        s = x if 0 < x < 1e30 and x > 1e-30 else 1.0
        lam = [float(rng.choice([0, 1e-8, 1e-2, 1, 1e3])*s**(2 - 2/len(cons))) for _ in cons]
        kw['ridge_penalties'] = lam
        mon.count('ridge')
    mon.count('non-negative', int('nn' in cons))
    mon.count('orthonormal', int('orth' in cons))
    if rng.random() < 0.15:
        mon.count('default tolerances')
        return kw, lam
    kw['convergence_tol'] = -1
    return kw, lam


def outside_range(F):
    """Whether the scales of the factors have run away from each other: their products leave the range of double precision."""
    n = np.concatenate([np.linalg.norm(f, axis=0) for f in F])
    n = n[n > 0]
    return len(n) > 0 and (n.max() > 1e60 or n.min() < 1e-60)


def fit(mon, m, *args, **kw):
    try:
        m.fit(*args, **kw)
    except np.linalg.LinAlgError:
        if outside_range(m.factor_matrices):
            mon.count('scales outside the double range, set aside')
            raise Skip('double range')
        raise


def judge(mon, rec, F0, x2, sse, scale, cons, expected, stable=None, **info):
    """Every snapshot is finite, feasible and no worse than nothing."""
    if expected is not None:
        mon.check(rec.its == list(range(expected)), 'the iterations were not all performed', its=rec.its, expected=expected, **info)
    prev, e0, before = F0, None, None
    ridge = info.get('ridge') and any(info['ridge'])
    for s in rec.snaps:
        arrays = [*s.F, *(s.P or []), *(s.V or [])] + ([s.w] if s.w is not None else [])
        if outside_range(s.F):
            mon.count('scales outside the double range, set aside')
            return
        mon.check(all(np.isfinite(a).all() for a in arrays), 'the model is not finite', iteration=s.it, **info)
        mon.check(feasible(s.F, cons, 1e-6), 'a constraint is violated', iteration=s.it, **info)
        for p in s.P or []:
            mon.leq('projection', np.abs(p.T @ p - np.eye(p.shape[1])).max(), 1e-6, 'a projection is not orthonormal', iteration=s.it, **info)
        e, big = sse(s), scale(prev if prev is not None else s.F, s)
        mon.leq('error', e, x2 + 1e-8*x2 + 1e-11*big + 1e-290, 'the model fits worse than the zero model', iteration=s.it, x2=x2, **info)
        if e0 is not None and big <= 1e8*x2 and not ridge and (stable is None or stable(before, s)):
            mon.leq('increase', e - e0, 3e-2*x2 + 1e-11*big, 'the error increased', iteration=s.it, before=e0, after=e, **info)
            mon.count('descents judged')
        e0 = e
        mon.count('iterations judged')
        mon.count('exactly fitted', int(e <= 1e-16*x2))
        mon.count('vanished components', int(not np.prod([np.linalg.norm(f, axis=0) for f in s.F], axis=0).min() > 1e-12*np.sqrt(x2)))
        prev, before = s.F, s
    if rec.snaps:
        mon.state(*rec.snaps[-1].F)


def metrics_ok(mon, m, x2, **info):
    for k in ('SSE', 'MSE', 'RMSE', 'loss'):
        v = float(getattr(m, k))
        mon.check(np.isfinite(v) and v >= 0, 'a metric of a degenerate fit is not a non-negative number', metric=k, value=v, **info)


def cp(rng, mon, index):
    n = int(rng.choice([2, 3, 3, 3, 4, 5]))
    shp = tuple(int(i) for i in rng.integers(1, 6 if n < 5 else 4, n))
    R = int(rng.integers(1, 7)) if rng.random() < 0.8 else int(rng.integers(6, 11))
    X, kind = degenerate(rng, shp, KINDS_OF_DATA[index % len(KINDS_OF_DATA)])
    x2 = float(np.linalg.norm(X)**2)
    cons = draw_constraints(rng, shp, R)
    kw, lam = settings(rng, mon, cons, np.sqrt(x2))
    default = 'convergence_tol' not in kw
    if not default:
        kw['rel_loss_tol'] = -1
    its = int(rng.choice([1, 2, 5, 25]))
    inits = ['random', 'precomputed'] + (['svd'] if R <= min(shp) and 'nn' not in cons else [])
    init = str(rng.choice(inits))
    rec = Recorder()
    m = CP_ALS(R, init=init, max_its=its, loggers=[rec], **kw)
    start = None
    what = init
    if init == 'precomputed':
        F, what = start_factors(rng, mon, shp, R, cons)
        start = KruskalTensor([f.copy() for f in F])
    info = dict(data=kind, shape_=shp, rank=R, constraints=cons, ridge=lam, start=what)
    mon.describe(model='cp', its=its, **info)
    fit(mon, m, gen.layout(rng, X)[0], initial_decomposition=start)
    mon.count('zero data', int(x2 == 0))
    mon.count('rank above a mode', int(R > min(shp)))
    judge(mon, rec, None, x2, lambda s: np.linalg.norm(X - gen.dense(s.F, s.w))**2,
          lambda F, s: sweep_scale(X, F, s.F), cons, None if default else its, **info)
    metrics_ok(mon, m, x2, **info)
    got = snap(m)
    mon.check(all(np.isfinite(f).all() for f in got.F), 'the model is not finite', **info)


def pf2(rng, mon, index):
    R = int(rng.integers(1, 5))
    I, K = int(rng.integers(1, 7)), int(rng.integers(1, 6))
    J = [int(rng.integers(R, R + 5)) for _ in range(K)] if rng.random() < 0.6 else [int(rng.integers(R, R + 5))]*K
    kind = KINDS_OF_DATA[index % len(KINDS_OF_DATA)]
    if len(set(J)) == 1:
        X = [x for x in np.moveaxis(degenerate(rng, (I, J[0], K), kind)[0], -1, 0)]
    else:
        X = [degenerate(rng, (I, j), kind)[0] for j in J]
        if kind == 'slices':
            X = [x*(rng.random() < 0.6) for x in X]
        elif kind == 'repeated':
            big = max(X, key=lambda x: x.shape[1])
            X = [big[:, :j].copy() for j in J]
    if rng.random() < 0.1:
        X[int(rng.integers(K))][...] = 0
    x2 = float(sum(np.linalg.norm(x)**2 for x in X))
    cons = draw_constraints(rng, (I, R, K), R, sizes=I*R*K)
    if cons[1] == 'orth':
        cons[1] = 'free'
    kw, lam = settings(rng, mon, cons, np.sqrt(x2))
    default = 'convergence_tol' not in kw
    its = int(rng.choice([1, 2, 5, 15]))
    inits = ['random', 'precomputed'] + (['svd'] + (['cp'] if len(set(J)) == 1 else []) if R <= I and 'nn' not in cons else [])
    init = str(rng.choice(inits))
    rec = Recorder()
    m = Parafac2_ALS(R, init=init, max_its=its, loggers=[rec], print_frequency=-1, cp_updates_per_it=int(rng.choice([1, 2, 5])), **kw)
    start, what = None, init
    if init == 'precomputed':
        F, what = start_factors(rng, mon, (I, R, K), R, cons)
        start = Parafac2Tensor(*[f.copy() for f in F], [np.linalg.qr(rng.standard_normal((j, R)))[0] for j in J])
    info = dict(data=kind, I=I, J=J, rank=R, constraints=cons, ridge=lam, start=what)
    mon.describe(model='pf2', its=its, **info)
    target = np.stack(X, axis=-1) if len(set(J)) == 1 and rng.random() < 0.4 else [gen.layout(rng, x)[0] for x in X]
    fit(mon, m, target, initial_decomposition=start)
    mon.count('zero data', int(x2 == 0))
    mon.count('rank above a mode', int(R > min(I, K)))

    def sse(s):
        return sum(np.linalg.norm(x - y)**2 for x, y in zip(X, gen.pf2_slices(*s.F, s.P)))

    def scale(F, s):
        return x2 + max(float(np.sum(np.prod([np.linalg.norm(f, axis=0) for f in G], axis=0)**2)) for G in (F, s.F))
    judge(mon, rec, None, x2, sse, scale, cons, None if default else its, **info)
    metrics_ok(mon, m, x2, **info)


def cmtf(rng, mon, index):
    n = int(rng.choice([2, 3, 3, 4]))
    shp = tuple(int(i) for i in rng.integers(1, 6, n))
    R = int(rng.integers(1, 7))
    kind = KINDS_OF_DATA[index % len(KINDS_OF_DATA)]
    X, _ = degenerate(rng, shp, kind)
    modes = [int(rng.integers(n)) for _ in range(int(rng.integers(1, 4)))]
    kinds = [kind if kind in ('tiny', 'huge', 'nearly zero') else str(rng.choice(KINDS_OF_DATA[:12])) for _ in modes]
    Y = [degenerate(rng, (shp[m], int(rng.integers(1, 6))), k)[0] for m, k in zip(modes, kinds)]
    x2 = float(np.linalg.norm(X)**2 + sum(np.linalg.norm(y)**2 for y in Y))
    cons = ['free' if c == 'orth' else c for c in draw_constraints(rng, shp, R)]
    kw, _ = settings(rng, mon, cons, np.sqrt(x2), ridge=False)
    default = 'convergence_tol' not in kw
    if not default:
        kw['rel_loss_tol'] = -1
    its = int(rng.choice([1, 2, 5, 15]))
    init = str(rng.choice(['random', 'precomputed']))
    rec = Recorder()
    m = CMTF_ALS(R, init=init, max_its=its, loggers=[rec], **kw)
    start, what = None, init
    if init == 'precomputed':
        F, what = start_factors(rng, mon, shp, R, cons, tiny=1e-5)
        start = KruskalTensor([f.copy() for f in F])
    info = dict(data=kind, matrices=kinds, shape_=shp, modes=modes, rank=R, constraints=cons, start=what)
    mon.describe(model='cmtf', its=its, **info)
    fit(mon, m, X, [y.copy() for y in Y], modes, initial_decomposition=start)
    mon.count('zero data', int(x2 == 0))
    mon.count('rank above a mode', int(R > min(shp)))

    def sse(s):
        return np.linalg.norm(X - gen.dense(s.F, s.w))**2 + sum(np.linalg.norm(y - s.F[k] @ v.T)**2 for y, k, v in zip(Y, modes, s.V))

    def scale(F, s):
        return sweep_scale(X, F, s.F) + sum(float(np.sum((np.linalg.norm(s.F[k], axis=0)*np.linalg.norm(v, axis=0))**2)) for k, v in zip(modes, s.V))

    case = Case(X=X, Y=Y, modes=modes, shape=shp, rank=R, cons=cons)

    def stable(prev, s):
        cond, magnitude = sweep(case, prev, s)
        return cond < 1e7 and magnitude < 1e8*x2
    judge(mon, rec, None, x2, sse, scale, cons, None if default else its, stable=stable, **info)
    metrics_ok(mon, m, x2, **info)


KINDS = {'cp': Kind(cp, 5000, 100000), 'pf2': Kind(pf2, 3000, 40000), 'cmtf': Kind(cmtf, 2500, 30000)}
