"""C21: a decomposition that fits the data exactly is a fixed point of fitting."""
import numpy as np
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.decompositions import KruskalTensor, Parafac2Tensor
from tenkit.decomposition.parafac2 import Parafac2_ALS

from vmon import gen, oracle
from vmon.core import Kind, Skip
from vmon.record import Recorder

PROPERTY = 'C21'
RULE = ('Exact CP and PARAFAC2 models with well-conditioned factors, fits started from one of their representations (scale, sign and '
        'weights moved about, as far as the constraints of the fit admit), every iteration judged by the residual and the '
        'components, and default fits by the number of iterations. Non-trivial: an iteration was judged.')
ASSUMPTIONS = ['the factor matrices have full column rank with condition number at most 15 (PARAFAC2: 8)',
               'ridge penalties are zero (they move the optimum away from the exact model)']
FLOORS = {'CP iterations judged': 9000, 'PARAFAC2 iterations judged': 4000, 'default fits': 400, 'weighted starts': 400,
          'constrained': 400, 'irregular': 150, 'collinear components': 350, 'nearly dependent components': 500, 'continued': 150}


def congruent(F, G):
    """Smallest absolute cosine of corresponding columns, over the modes."""
    worst = 1.0
    for f, g in zip(F, G):
        n = np.linalg.norm(f, axis=0)*np.linalg.norm(g, axis=0)
        if not (n > 0).all():
            return 0.0
        worst = min(worst, (np.abs((f*g).sum(0))/n).min())
    return worst


def cons_of(rng, n, orth_ok):
    if rng.random() < 0.4:
        return ['free']*n
    return gen.constraints(rng, n, orth_ok)


def model_factors(rng, shape, R, cons, cond):
    F = gen.well_conditioned_factors(rng, shape, R, 'normal', cond)
    for m, c in enumerate(cons):
        if c == 'nn':
            F[m], = gen.well_conditioned_factors(rng, (shape[m],), R, str(rng.choice(['nonneg', 'sparse', 'uniform'])), cond)
        elif c == 'orth':
            F[m] = np.linalg.qr(F[m])[0]
    return F


def represent(rng, F, cons, weights):
    """Another representation of the same components which satisfies the constraints."""
    R = F[0].shape[1]
    F = [f.copy() for f in F]
    loose = [m for m, c in enumerate(cons) if c != 'orth']
    free = [m for m, c in enumerate(cons) if c == 'free']
    for r in range(R):
        if len(loose) > 1:
            s = np.exp(rng.uniform(-2, 2, len(loose)))
            s[-1] /= np.prod(s)
            for m, t in zip(loose, s):
                F[m][:, r] *= t
    # the sign of an orthonormal column may change as well, against a free one
    sign = [m for m, c in enumerate(cons) if c != 'nn']
    for r in range(R):
        if len(sign) > 1 and rng.random() < 0.6:
            a, b = rng.choice(sign, 2, replace=False)
            F[a][:, r] *= -1
            F[b][:, r] *= -1
    w = np.ones(R)
    if weights:
        w = gen.weights(rng, R, positive=not free)
        m = int(rng.choice(free or loose))
        F[m] = F[m]/w
    return F, w


def cp(rng, mon, index):
    R = int(rng.integers(1, 5))
    n = gen.order(rng)
    shape = tuple(int(rng.integers(R, R + (5 if n < 5 else 2))) for _ in range(n))
    cons = cons_of(rng, n, [True]*n)
    F = model_factors(rng, shape, R, cons, 15)
    scale = 10.0**rng.choice([0, 0, 0, -3, 3, 5])
    loose = [m for m, c in enumerate(cons) if c != 'orth']
    F[loose[0]] = F[loose[0]]*scale
    X, lay = gen.layout(rng, gen.dense(F))
    weighted = rng.random() < 0.5
    G, w = represent(rng, F, cons, weighted)
    start = KruskalTensor([g.copy() for g in G], w.copy() if weighted else None)
    kw = gen.constraint_kwargs(rng, cons)
    info = dict(shape=shape, rank=R, constraints=cons, weighted=weighted)
    mon.describe(model='CP', scale=scale, layout=lay, **info)
    mon.count('weighted starts', int(weighted))
    mon.count('constrained', int(set(cons) != {'free'}))
    norm = np.linalg.norm(X)
    if index % 3 == 0:
        m = CP_ALS(R, init='precomputed', loggers=[r := Recorder()], **kw)
        m.fit(X, initial_decomposition=start)
        mon.check(m.current_iteration <= 2 and len(r.its) <= 2, 'a default fit does not recognise an exact start',
                  iterations=m.current_iteration, **info)
        mon.leq('CP residual', np.linalg.norm(gen.dense(m.factor_matrices, m.weights) - X)/norm, 1e-10, 'a default fit left an exact start', **info)
        mon.count('default fits')
        return
    its = int(rng.choice([3, 10, 25, 60], p=[.3, .4, .2, .1]))
    loose_tol = rng.random() < 0.2
    m = CP_ALS(R, init='precomputed', max_its=its, convergence_tol=-1, rel_loss_tol=-1, loggers=[r := Recorder(metrics=('SSE', 'explained_variance'))], **kw)
    m.fit(X, initial_decomposition=start)
    if index % 4 == 0:
        m.continue_fit(max_its=its + 3)
        its += 3
        mon.count('continued')
    mon.check(len(r.snaps) == its, 'the iterations were not carried out', got=len(r.snaps), expected=its)
    for s in r.snaps:
        mon.leq('CP residual', np.linalg.norm(gen.dense(s.F, s.w) - X)/norm, 1e-10, 'an iteration left an exact start', iteration=s.it, **info)
        mon.leq('CP components', 1 - congruent(s.F, F), 1e-10, 'an iteration changed the components of an exact start', iteration=s.it, **info)
        mon.leq('CP metrics', max(s.metrics['SSE']/norm**2, abs(1 - s.metrics['explained_variance'])), 1e-10, 'the error of an exact fit is not zero', iteration=s.it)
        mon.count('CP iterations judged')
        mon.state(*s.F)


def pf2(rng, mon, index):
    R = int(rng.integers(1, 4))
    I, K = int(rng.integers(R, R + 5)), int(rng.integers(R, R + 5))
    irregular = rng.random() < 0.6
    J = [int(rng.integers(R, R + 5)) for _ in range(K)] if irregular else [int(rng.integers(R, R + 5))]*K
    cons = cons_of(rng, 3, (True, False, False))
    A, B, C = model_factors(rng, (I, R, K), R, cons, 8)
    if cons[2] != 'nn' and rng.random() < 0.5:
        C = C*np.sign(C).clip(-1, 1)
    C = C + 0.3*np.where(C < 0, -1, 1)     # no component vanishes from a slice
    P = [np.linalg.qr(rng.standard_normal((j, R)))[0] for j in J]
    scale = 10.0**rng.choice([0, 0, 0, -3, 3])
    B = B*scale
    X = gen.pf2_slices(A, B, C, P)
    (A2, B2, C2), _ = represent(rng, [A, B, C], cons, False)
    P2 = [p.copy() for p in P]
    start = Parafac2Tensor(A2.copy(), B2.copy(), C2.copy(), P2)
    sweeps = int(rng.choice([1, 2, 5]))
    kw = gen.constraint_kwargs(rng, cons)
    its = int(rng.choice([3, 10, 25]))
    info = dict(rank=R, I=I, J=J, constraints=cons)
    mon.describe(model='PARAFAC2', scale=scale, sweeps=sweeps, its=its, **info)
    mon.count('irregular', int(len(set(J)) > 1))
    mon.count('constrained', int(set(cons) != {'free'}))
    data = np.stack(X, axis=-1) if len(set(J)) == 1 and rng.random() < 0.5 else [x.copy() for x in X]
    m = Parafac2_ALS(R, init='precomputed', max_its=its, convergence_tol=-1, print_frequency=-1, cp_updates_per_it=sweeps,
                     loggers=[r := Recorder(metrics=('SSE',))], **kw)
    m.fit(data, initial_decomposition=start)
    if index % 4 == 0:
        m.continue_fit(max_its=its + 3)
        its += 3
        mon.count('continued')
    mon.check(len(r.snaps) == its, 'the iterations were not carried out', got=len(r.snaps), expected=its)
    norm = np.sqrt(sum(np.linalg.norm(x)**2 for x in X))
    Bs = np.concatenate([p @ B for p in P])
    for s in r.snaps:
        Y = gen.pf2_slices(*s.F, s.P)
        err = np.sqrt(sum(np.linalg.norm(x - y)**2 for x, y in zip(X, Y)))/norm
        mon.leq('PARAFAC2 residual', err, 1e-8, 'an iteration left an exact start', iteration=s.it, **info)
        got = [s.F[0], np.concatenate([p @ s.F[1] for p in s.P]), s.F[2]]
        mon.leq('PARAFAC2 components', 1 - congruent(got, [A, Bs, C]), 1e-8, 'an iteration changed the components of an exact start', iteration=s.it, **info)
        mon.leq('PARAFAC2 metrics', s.metrics['SSE']/norm**2, 1e-14, 'the error of an exact fit is not zero', iteration=s.it)
        mon.count('PARAFAC2 iterations judged')


def collinear(rng, mon, index):
    """Components that resemble each other in every mode: ill-conditioned, but still determined by the data."""
    hard = index % 3 == 2
    R = int(rng.integers(2, 5))
    n = int(rng.choice([3, 3, 4]))
    shape = tuple(int(rng.integers(R, R + 5)) for _ in range(n))
    goal = 10.0**rng.uniform(3.5, 5.2)
    for _ in range(200):
        F = [1 + 10.0**(rng.uniform(-6, -1) if hard else rng.uniform(-1.5, -0.5))*rng.standard_normal((s, R)) for s in shape]
        if hard and rng.random() < 0.7:   # but in one mode
            k = int(rng.integers(n))
            F[k] = rng.standard_normal(F[k].shape)
        conds = [oracle.scaled_cond(oracle.design(F, m)) for m in range(n)]
        if (goal/3 < max(conds) < 3*goal) if hard else (30 < max(conds) < 1000):
            break
    else:
        raise Skip('no such factors')
    cons = ['free']*n if rng.random() < 0.7 else ['nn' if (f > 0).all() and rng.random() < 0.5 else 'free' for f in F]
    F[0] = F[0]*10.0**rng.choice([0, 0, -3, 4])
    X = gen.dense(F)
    weighted = rng.random() < 0.5
    G, w = represent(rng, F, cons, weighted)
    its = int(rng.choice([2, 5, 10]))
    m = CP_ALS(R, init='precomputed', max_its=its, convergence_tol=-1, rel_loss_tol=-1, loggers=[r := Recorder()], **gen.constraint_kwargs(rng, cons))
    m.fit(X, initial_decomposition=KruskalTensor([g.copy() for g in G], w.copy() if weighted else None))
    info = dict(shape=shape, rank=R, constraints=cons, cond=max(conds))
    mon.describe(model='CP', kind='collinear', its=its, **info)
    norm = np.linalg.norm(X)
    mon.check(len(r.snaps) == its, 'the iterations were not carried out', got=len(r.snaps), expected=its)
    for s in r.snaps:
        res = np.linalg.norm(gen.dense(s.F, s.w) - X)/norm
        if hard:   # the residual is that of a solution by the normal equations
            mon.leq('hard residual', res, 1e-12*max(conds) + 5e-16*max(conds)**2, 'an iteration left an exact start', iteration=s.it, **info)
            mon.count('nearly dependent components')
        else:
            mon.leq('collinear residual', res, 1e-9, 'an iteration left an exact start', iteration=s.it, **info)
            mon.leq('collinear components', 1 - congruent(s.F, F), 1e-8, 'an iteration changed the components of an exact start', iteration=s.it, **info)
        mon.count('CP iterations judged')
        mon.state(*s.F)
    mon.count('collinear components')


KINDS = {'collinear': Kind(collinear, 1000, 12000), 'cp': Kind(cp, 2400, 60000), 'pf2': Kind(pf2, 900, 20000)}
