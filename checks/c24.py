"""C24: synthetic data carry exactly the requested structure and noise."""
import numpy as np
from tenkit import utils
from tenkit.decomposition.decompositions import KruskalTensor, Parafac2Tensor

from vmon import gen
from vmon.core import Kind

PROPERTY = 'C24'
RULE = ('Calls of the data generators and random containers over sizes, orders, ranks, noise factors and random states; the returned '
        'pieces are reassembled by einsum. Non-trivial: a generated object was judged.')
ASSUMPTIONS = ['columns whose raw norm is below 1e-9 (probability below 1e-8) are normalised less accurately than the tolerance']
FLOORS = {'data': 1500, 'non-negative data': 800, 'noisy': 1000, 'noise-free': 200, 'factors': 1500, 'random Kruskal': 500, 'random PARAFAC2': 700,
          'irregular': 250, 'repeated states': 500, 'normalised': 500}


def sizes(rng):
    s = gen.shape(rng, hi=9)
    return [s, list(s)][int(rng.integers(2))], s


def judge_factors(mon, F, s, R, nonneg, **info):
    mon.check(len(F) == len(s) and all(np.shape(f) == (n, R) for f, n in zip(F, s)), 'factors of another size', got=[np.shape(f) for f in F], **info)
    for k, f in enumerate(F):
        mon.check(np.isfinite(f).all(), 'a factor is not finite', mode=k, **info)
        mon.leq('unit columns', np.abs(np.linalg.norm(f, axis=0) - 1).max(), 1e-6, 'a factor without unit-norm columns', mode=k, **info)
        if nonneg:
            mon.check(f.min() >= 0, 'a non-negative factor has negative entries', mode=k, **info)
    mon.state(*F)
    mon.count('factors')


def varied(mon, F, nonneg, **info):
    """The entries are drawn, not constant: distinct values, and both signs unless non-negative."""
    v = np.concatenate([np.ravel(f) for f in F if len(f) > 2] or [np.arange(3.0)])
    mon.check(len(np.unique(np.abs(v))) > len(v)//2, 'the factors are not random', **info)
    if not nonneg and len(v) > 60:
        mon.check(v.min() < 0 < v.max(), 'normal factors have one sign', **info)


def data(rng, mon, index):
    arg, s = sizes(rng)
    R = int(rng.integers(1, 8))
    nonneg = index % 2 == 1
    f = utils.create_non_negative_data if nonneg else utils.create_data
    noise_factor = [0, 0.0, 0.33, 1, 2.5, 1e-3, 10.0, -1, -0.4, 1e6][int(rng.integers(10))]
    if rng.random() < 0.5:
        noise_factor = float(rng.gamma(1.0))
    args = (arg, R) if rng.random() < 0.5 else ()
    kw = {} if args else dict(sizes=arg, rank=R)
    if noise_factor != 0 or rng.random() < 0.5:
        kw['noise_factor'] = noise_factor
    info = dict(sizes=s, rank=R, noise_factor=noise_factor, generator='non-negative' if nonneg else 'normal')
    mon.describe(**info)
    seed = int(rng.integers(2**32))
    np.random.seed(seed)
    X, F, norms, noise = f(*args, **kw)
    judge_factors(mon, F, s, R, nonneg, **info)
    if rng.random() < 0.5:
        varied(mon, F, nonneg, **info)
    clean = gen.dense(F)
    mon.check(np.shape(X) == s and np.shape(noise) == s, 'data of another shape', got=(np.shape(X), np.shape(noise)), **info)
    size = np.linalg.norm(clean)
    unit = max(np.linalg.norm(np.prod([np.linalg.norm(x, axis=0) for x in F], axis=0), 1), 1)  # rounding of the reconstruction
    mon.leq('noise norm', abs(np.linalg.norm(noise) - size), 1e-10*size + 1e-13*unit, 'the noise has another norm than the noise-free tensor', **info)
    mon.leq('assembled', np.linalg.norm(X - clean - noise_factor*noise), 1e-11*(unit + abs(noise_factor)*size),
            'the data are not the reconstruction plus the noise factor times the noise', **info)
    if int(np.prod(s)) > 60:
        v = np.ravel(noise)
        mon.check(v.min() < 0 < v.max() and len(np.unique(v)) > len(v)//2, 'the noise is not random', **info)
    mon.check([np.shape(n)[-1] for n in norms] == [R]*len(s) and all((np.asarray(n) > 0).all() for n in norms), 'norms of another size', **info)
    mon.check(not any(np.shares_memory(a, b) for i, a in enumerate(F) for b in F[:i]), 'factors share memory', **info)
    mon.count('non-negative data' if nonneg else 'signed data')
    mon.count('noisy' if noise_factor else 'noise-free')
    if rng.random() < 0.4:
        Z = f(*args, **kw)
        mon.check(int(np.prod(s)) < 8 or R < 2 or not np.array_equal(Z[3], noise), 'two successive calls give the same data', **info)
        np.random.seed(seed)
        Z = f(*args, **kw)
        mon.check(np.array_equal(Z[0], X) and np.array_equal(Z[3], noise) and all(np.array_equal(a, b) for a, b in zip(Z[1], F)),
                  'the same random state gives other data', **info)
        mon.count('repeated states')
    mon.count('data')


def factors(rng, mon, index):
    arg, s = sizes(rng)
    R = int(rng.integers(1, 8))
    what = ['normal', 'uniform', 'given', 'given one'][index % 4]
    info = dict(sizes=s, rank=R, generator=what)
    mon.describe(**info)
    if what in ('normal', 'uniform'):
        f = utils.create_random_factors if what == 'normal' else utils.create_random_uniform_factors
        F, norms = f(arg, R) if rng.random() < 0.5 else f(sizes=arg, rank=R)
        judge_factors(mon, F, s, R, what == 'uniform', **info)
        varied(mon, F, what == 'uniform', **info)
        return
    G = gen.factors(rng, s, R, str(rng.choice(['normal', 'uniform', 'nonneg', 'collinear', 'int'])))
    G = [gen.layout(rng, g*10.0**rng.integers(-2, 5) + (np.abs(g).sum(axis=0) == 0))[0] for g in G]
    if rng.random() < 0.2:
        G = [np.round(g).astype(int) + 3*(np.round(g).astype(int) == 0) for g in G]
    keep = [g.copy() for g in G]
    if what == 'given':
        F, norms = utils.normalize_factors(G)
    else:
        F, norms = zip(*[utils.normalize_factor(g) for g in G])
    judge_factors(mon, F, s, R, False, **info)
    for a, n, g in zip(F, norms, keep):
        g = g.astype(float)
        want = np.linalg.norm(g, axis=0)
        mon.leq('norms', np.abs(np.ravel(n) - want).max(), 1e-10*want.max(), 'the norms are not the norms of the columns', **info)
        mon.leq('restored', np.abs(a*np.reshape(n, (1, R)) - g).max(), 1e-10*np.abs(g).max(), 'normalised columns times norms are not the factor', **info)
    mon.check(all(np.array_equal(a, b) for a, b in zip(G, keep)), 'normalising changed its argument', **info)
    mon.count('normalised')


def containers(rng, mon, index):
    if index % 2 == 0:
        arg, s = sizes(rng)
        R = int(rng.integers(1, 8))
        method = str(rng.choice(['normal', 'uniform', 'default']))
        kw = {} if method == 'default' else dict(random_method=[method, method.upper(), method.title()][int(rng.integers(3))])
        info = dict(sizes=s, rank=R, method=method)
        mon.describe(**info)
        d = KruskalTensor.random_init(arg, R, **kw)
        mon.check(type(d) is KruskalTensor and d.rank == R and tuple(d.shape) == s, 'a random Kruskal tensor of another size', got=tuple(d.shape), **info)
        judge_factors(mon, d.factor_matrices, s, R, method == 'uniform', **info)
        varied(mon, d.factor_matrices, method == 'uniform', **info)
        mon.check(np.array_equal(np.asarray(d.weights), np.ones(R)), 'a random Kruskal tensor without unit weights', weights=d.weights, **info)
        unit = R
        mon.leq('tensor', np.abs(d.construct_tensor() - gen.dense(d.factor_matrices)).max(), 1e-11*unit, 'the tensor is not the sum of its components', **info)
        mon.count('random Kruskal')
        return
    R = int(rng.integers(1, 6))
    I, K = int(rng.integers(1, 9)), int(rng.integers(1, 8))
    equal = index % 4 == 1
    J = [int(rng.integers(R, R + 8))]*K if equal else [int(rng.integers(R, R + 8)) for _ in range(K)]
    arg = [I, J[0] if equal and rng.random() < 0.7 else list(J), K]
    given = [arg[0], arg[1] if isinstance(arg[1], int) else list(arg[1]), arg[2]]
    arg = tuple(arg) if rng.random() < 0.6 else arg
    info = dict(rows=I, widths=J, slices=K, rank=R)
    mon.describe(**info)
    seed = int(rng.integers(2**32))
    np.random.seed(seed)
    d = Parafac2Tensor.random_init(arg, R)
    mon.check(list(arg) == given, 'the sizes were changed', **info)
    mon.check(type(d) is Parafac2Tensor and d.rank == R and d.A.shape == (I, R) and d.blueprint_B.shape == (R, R) and d.C.shape == (K, R)
              and [p.shape for p in d.projection_matrices] == [(j, R) for j in J], 'a random PARAFAC2 tensor of another size', **info)
    for k, p in enumerate(d.projection_matrices):
        mon.leq('projections', np.abs(p.T @ p - np.eye(R)).max(), 1e-12, 'projections that are not orthonormal', slice=k, **info)
        mon.check(not any(np.shares_memory(p, q) for q in d.projection_matrices[:k]), 'projections share memory', **info)
        mon.check(J[k] == 1 or not any(p.shape == q.shape and np.allclose(p, q) for q in d.projection_matrices[:k]), 'two equal random projections', **info)
    varied(mon, [d.A, d.C], True, **info)
    mon.state(d.A, d.C, *d.projection_matrices)
    want = gen.pf2_slices(d.A, d.blueprint_B, d.C, d.projection_matrices)
    got = d.construct_slices()
    mon.check(len(got) == K, 'another number of slices', **info)
    for x, y in zip(got, want):
        mon.leq('slices', np.abs(np.asarray(x) - y).max(), 1e-11*R*max(1, np.abs(y).max()), 'a slice is not what the components give', **info)
    np.random.seed(seed)
    e = Parafac2Tensor.random_init(arg, R)
    mon.check(all(np.array_equal(x, y) for x, y in zip([d.A, d.C, *d.projection_matrices], [e.A, e.C, *e.projection_matrices])),
              'the same random state gives another tensor', **info)
    mon.count('random PARAFAC2')
    mon.count('irregular', int(len(set(J)) > 1))


KINDS = {'data': Kind(data, 4000, 120000), 'factors': Kind(factors, 3000, 80000), 'containers': Kind(containers, 3000, 80000)}
