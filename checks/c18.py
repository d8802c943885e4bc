"""C18: model diagnostics equal their definitions and ignore representation."""
import numpy as np
from tenkit import metrics
from tenkit.decomposition.decompositions import EvolvingTensor, KruskalTensor, Parafac2Tensor

from vmon import gen
from vmon.core import Kind
from vmon.record import Sanitised

from .containers import as_layout, parts

PROPERTY = 'C18'
RULE = ('Core consistencies of exact and noisy data under well-conditioned CP and PARAFAC2 models in several '
        'representations, degeneracies, leverages, explained percentages and completion scores, compared with independent '
        'evaluations of the definitions. Non-trivial: a score was compared.')
ASSUMPTIONS = ['core consistency and leverage are judged for factor matrices of full column rank (condition number up to 30)']
FLOORS = {'core consistencies': 3000, 'exact data': 1000, 'normalised': 1000, 'negative weights': 500, 'irregular slices': 500,
          'regular slices': 250, 'degeneracies': 2000, 'leverages': 1500, 'explained percentages': 1500, 'completion scores': 1500,
          'representations': 2500}


def tucker_core(X, A, B, C):
    """Least-squares Tucker core by three pseudo-inverses."""
    pA, pB, pC = (np.linalg.pinv(f) for f in (A, B, C))
    return np.einsum('ai,bj,ck,ijk->abc', pA, pB, pC, X)


def reference(X, A, B, C, w=None, normalized=False):
    R = A.shape[1]
    w = np.ones(R) if w is None else w
    F = [A*w, B, C]
    norms = [np.linalg.norm(f, axis=0) for f in F]
    s = np.prod(norms, axis=0)**(1/3)
    G = tucker_core(X, *[f/n*s for f, n in zip(F, norms)])
    T = np.zeros((R, R, R))
    T[range(R), range(R), range(R)] = 1
    return 100*(1 - ((G - T)**2).sum()/((G**2).sum() if normalized else R))


def scatter(rng, F, weights=False, positive=False):
    """The same components, permuted and with scale and signs moved between the modes (and into weights)."""
    R = F[0].shape[1]
    p = rng.permutation(R)
    F = [f[:, p].copy() for f in F]
    w = gen.weights(rng, R, positive=positive) if weights else np.ones(R)
    for r in range(R):
        s = np.exp(rng.uniform(-2, 2, len(F)))*rng.choice([-1., 1.], len(F))
        s[-1] /= np.prod(s)*w[r]
        for f, t in zip(F, s):
            f[:, r] *= t
    return F, w, p


def close(mon, name, got, want, **info):
    got = np.asarray(got, dtype=float)
    mon.check(got.shape == (), f'{name}: not a number', got=got)
    mon.leq(name, abs(float(got) - want), 1e-7*(1 + abs(want) + abs(100 - want)), f'{name} differs', got=float(got), expected=want, **info)


def core(rng, mon, index):
    R = int(rng.integers(1, 5))
    shape = tuple(int(rng.integers(R, R + 5)) for _ in range(3))
    F = gen.well_conditioned_factors(rng, shape, R, str(rng.choice(['normal', 'nonneg', 'uniform'])), cond=30)
    if rng.random() < 0.5:
        F = [f*np.exp(rng.uniform(-3, 3, R)) for f in F]
    X = gen.dense(F)
    exact = rng.random() < 0.4
    if not exact:
        X = X + 10.0**rng.uniform(-4, 0.5)*np.linalg.norm(X)/np.sqrt(X.size)*rng.standard_normal(shape)
    X, lay = gen.layout(rng, X)
    norm = bool(rng.random() < 0.4)
    kw = dict(normalized=norm) if norm or rng.random() < 0.5 else {}
    info = dict(rank=R, shape_=shape, exact=exact, normalized=norm)
    mon.describe(kind='core', layout=lay, **info)
    locks = Sanitised(X, *[as_layout(rng, f) for f in F])
    got = metrics.core_consistency(*locks.arrays, **kw)
    want = 100.0 if exact else reference(X, *F, normalized=norm)
    close(mon, 'core consistency', got, want, **info)
    if not exact:
        mon.check(float(got) <= 100 + 1e-6, 'a core consistency above 100', got=got, **info)
    G, w, p = scatter(rng, F)
    close(mon, 'core consistency of another representation', metrics.core_consistency(X, *G, **kw), want, **info)
    G, w, p = scatter(rng, F, weights=True)
    d = KruskalTensor([g.copy() for g in G], w.copy())
    close(mon, 'core consistency of a Kruskal tensor', d.core_consistency(X, **kw), want, **info)
    mon.check(all(np.array_equal(a, b) for a, b in zip(d.factor_matrices, G)) and np.array_equal(d.weights, w), 'the diagnostic changed the tensor')
    mon.count('negative weights', int((w < 0).any()))
    d.normalize_components()
    close(mon, 'core consistency of a normalised Kruskal tensor', d.core_consistency(X, **kw), want, **info)
    mon.check(locks.verify(), 'the diagnostic changed its input')
    mon.count('core consistencies', 4)
    mon.count('representations', 3)
    mon.count('exact data', int(exact))
    mon.count('normalised', int(norm))
    mon.state(X)


def core_parafac2(rng, mon, index):
    R = int(rng.integers(1, 5))
    I, K = int(rng.integers(R, R + 5)), int(rng.integers(R, R + 5))
    irregular = rng.random() < 0.65
    J = [int(rng.integers(R, R + 5)) for _ in range(K)] if irregular else [int(rng.integers(R, R + 5))]*K
    A, B, C = gen.well_conditioned_factors(rng, (I, R, K), R, 'normal', cond=30)
    P = [np.linalg.qr(rng.standard_normal((j, R)))[0] for j in J]
    X = gen.pf2_slices(A, B, C, P)
    exact = rng.random() < 0.4
    if not exact:
        s = 10.0**rng.uniform(-4, 0.5)*np.sqrt(np.mean([np.mean(x**2) for x in X]))
        X = [x + s*rng.standard_normal(x.shape) for x in X]
    info = dict(rank=R, I=I, J=J, exact=exact)
    mon.describe(kind='core of parafac2', **info)
    n = len(X)
    locks = Sanitised(*[as_layout(rng, x) for x in X], *[as_layout(rng, p) for p in P], A, B, C)
    Xl, Pl = locks.arrays[:n], locks.arrays[n:2*n]
    want = 100.0 if exact else reference(np.stack([x @ p for x, p in zip(X, P)], axis=-1), A, B, C)
    given = tuple(Pl) if rng.random() < 0.5 else Pl
    close(mon, 'core consistency of a PARAFAC2 model', metrics.core_consistency_parafac2(Xl, given, A, B, C), want, **info)
    (A2, B2, C2), _, _ = scatter(rng, [A, B, C])
    close(mon, 'core consistency of another PARAFAC2 representation', metrics.core_consistency_parafac2(X, P, A2, B2, C2), want, **info)
    # slices with columns the model does not know of
    Z = [np.concatenate([x, rng.standard_normal((I, 2))], axis=1) for x in X]
    Q = [np.concatenate([p, np.zeros((2, R))]) for p in P]
    Z[0], Q[0] = X[0], P[0]
    close(mon, 'core consistency of differently wide slices', metrics.core_consistency_parafac2(Z, Q, A, B, C), want, **info)
    mon.check(locks.verify(), 'the diagnostic changed its input')
    mon.count('core consistencies', 3)
    mon.count('representations', 2)
    mon.count('exact data', int(exact))
    mon.count('irregular slices' if len(set(J)) > 1 else 'regular slices')


def cos(f):
    f = f/np.linalg.norm(f, axis=0)
    return f.T @ f


def degeneracy(rng, mon, index):
    R = int(rng.integers(1, 6))
    kind = str(rng.choice(['normal', 'nonneg', 'collinear', 'uniform']))
    what = ['kruskal', 'evolving', 'parafac2'][index % 3]
    info = dict(container=what, rank=R, factors=kind)
    if what == 'kruskal':
        shape = gen.shape(rng)
        F = gen.factors(rng, shape, R, kind)
        d = KruskalTensor([as_layout(rng, f) for f in F], gen.weights(rng, R))
        G, w, p = scatter(rng, F, weights=True, positive=True)
        other = KruskalTensor(G, w)
        modes = F
    else:
        I, K = int(rng.integers(1, 8)), int(rng.integers(1, 8))
        J = [int(rng.integers(R, R + 4)) for _ in range(K)]
        if what == 'evolving':
            A, Bs, C = gen.factors(rng, (I, sum(J), K), R, kind)
            cut = np.cumsum(J)[:-1]
            d = EvolvingTensor(A, np.split(Bs, cut), C)
            (A2, B2, C2), _, p = scatter(rng, [A, Bs, C])
            other = EvolvingTensor(A2, np.split(B2, cut), C2)
        else:
            A, B, C = gen.factors(rng, (I, R, K), R, kind)
            P = [np.linalg.qr(rng.standard_normal((j, R)))[0] for j in J]
            d = Parafac2Tensor(A, B, C, P)
            Bs = np.concatenate([q @ B for q in P])
            (A2, B2, C2), _, p = scatter(rng, [A, B, C])
            other = Parafac2Tensor(A2, B2, C2, P)
        modes = [A, Bs, C]
    before = [a.copy() for a in parts(d)]
    got = d.degeneracy()
    want = np.prod([cos(f) for f in modes], axis=0)
    mon.describe(kind='degeneracy', **info)
    mon.check(np.shape(got) == (R, R), 'the shape of the degeneracy', **info)
    mon.leq('degeneracy', np.abs(got - want).max(), 1e-10, 'the degeneracy is not the product of the cosines', **info)
    mon.check(np.allclose(got, got.T, atol=1e-12) and np.allclose(np.diag(got), 1, atol=1e-10), 'the degeneracy is not symmetric with ones', **info)
    mon.leq('degeneracy', np.abs(other.degeneracy() - want[np.ix_(p, p)]).max(), 1e-10, 'the degeneracy depends on the representation', **info)
    mon.check(all(np.array_equal(a, b) for a, b in zip(before, parts(d))), 'the diagnostic changed the tensor', **info)
    mon.count('degeneracies')
    mon.count('representations')


def simple(rng, mon, index):
    R = int(rng.integers(1, 6))
    n = R + int(rng.integers(0, 15))
    f, = gen.well_conditioned_factors(rng, (n,), R, str(rng.choice(['normal', 'nonneg', 'uniform'])), cond=30)
    f = as_layout(rng, f)
    mon.describe(kind='simple', rank=R, rows=n)
    locks = Sanitised(f)
    got = metrics.leverage(f)
    Q = np.linalg.qr(f)[0]
    mon.check(np.shape(got) == (n,), 'one leverage per row', got=np.shape(got))
    mon.leq('leverage', np.abs(got - (Q**2).sum(1)).max(), 1e-9, 'the leverages are not the diagonal of the projector', rank=R, rows=n)
    mon.leq('leverage', np.abs(metrics.leverage(f*np.exp(rng.uniform(-2, 2, R))*10.0**rng.choice([0, -7, 7])) - got).max(), 1e-8, 'the leverages depend on the scale')
    mon.check(locks.verify(), 'the diagnostic changed its input')
    mon.count('leverages')
    shape = gen.shape(rng)
    X, Y = rng.standard_normal(shape), rng.standard_normal(shape)
    s = 10.0**rng.uniform(-6, 6)
    X, Y = X*s, (X + Y*10.0**rng.uniform(-3, 1))*s
    locks = Sanitised(as_layout(rng, X), as_layout(rng, Y))
    X, Y = locks.arrays
    got = metrics.percent_explained(X, Y)
    want = 1 - ((X - Y)**2).sum()/(X**2).sum()
    mon.leq('explained', abs(got - want), 1e-11*(1 + abs(want)), 'the explained percentage differs from its definition', got=got, expected=want)
    mon.check(metrics.percent_explained(X, X) == 1, 'a perfect fit explains everything')
    mon.count('explained percentages')
    W = (rng.random(shape) < 0.6)*1.0
    W.reshape(-1)[int(rng.integers(W.size))] = 0
    Wg = W.astype([float, int][int(rng.integers(2))])
    miss = W == 0
    if rng.random() < 0.3:   # soft weights
        Wg = W = rng.random(shape)
        want = np.sqrt((((1 - W)*(X - Y))**2).sum()/(((1 - W)*X)**2).sum())
    else:
        want = np.sqrt(((X - Y)[miss]**2).sum()/(X[miss]**2).sum())
    got = metrics.tensor_completion_score(X, Y, Wg)
    mon.leq('completion', abs(got - want), 1e-11*(1 + want), 'the completion score differs from its definition', got=got, expected=want)
    mon.check(locks.verify(), 'the diagnostic changed its input')
    mon.count('completion scores')


KINDS = {'core': Kind(core, 4000, 100000), 'core_parafac2': Kind(core_parafac2, 2500, 60000), 'degeneracy': Kind(degeneracy, 4000, 100000),
         'simple': Kind(simple, 4000, 100000)}
