"""Random containers shared by the checks of the containers."""
import numpy as np
from tenkit.decomposition.decompositions import EvolvingTensor, KruskalTensor, Parafac2Tensor

from vmon import gen

KINDS_OF_FACTORS = ['normal', 'nonneg', 'sparse', 'uniform', 'collinear', 'int']


def as_layout(rng, F):
    return gen.layout(rng, F)[0]


def kruskal(rng, n=None, rank=None, shape=None, kind=None, weights=None, lo=1, hi=7, big=0.1, layouts=True):
    """A Kruskal tensor and its parts (factors, weights), which are copies."""
    if rank is None and shape is None and rng.random() < 0.03:
        rank = int(rng.integers(7, 15))
        if n is None and rng.random() < 0.5:
            shape = tuple(int(i) for i in rng.integers(max(lo, 1), 130, 2))
    rank = int(rng.integers(1, 7)) if rank is None else rank
    shape = gen.shape(rng, n=n, lo=lo, hi=hi, big=big) if shape is None else shape
    kind = kind or str(rng.choice(KINDS_OF_FACTORS))
    F = gen.factors(rng, shape, rank, kind)
    w = str(rng.choice(['none', 'signed', 'positive', 'list', 'int', 'zero'])) if weights is None else weights
    W = {'none': None, 'signed': gen.weights(rng, rank), 'positive': gen.weights(rng, rank, positive=True),
         'list': gen.weights(rng, rank).tolist(), 'int': rng.integers(-3, 4, rank),
         'zero': gen.weights(rng, rank)*(rng.random(rank) < 0.7)}[w]
    d = KruskalTensor([as_layout(rng, f) if layouts else f.copy() for f in F], W)
    return d, [f.copy() for f in F], np.ones(rank) if W is None else np.array(W, dtype=float)


def large_dims(rng, rank):
    """Many slices, or wide ones."""
    I, K = (int(rng.integers(1, 8)), int(rng.integers(20, 70))) if rng.random() < 0.6 else (int(rng.integers(1, 120)), int(rng.integers(1, 9)))
    w = int(rng.choice([6, 6, 40, 200]))
    J = [rank + int(rng.integers(0, w))]*K if rng.random() < 0.4 else [rank + int(rng.integers(0, w)) for _ in range(K)]
    return I, J, K


def evolving(rng, dims=None, rank=None, kind=None, warning=None, array=None):
    """An evolving tensor and its parts (A, [B_k], C)."""
    if dims is None and rng.random() < 0.05:
        rank = int(rng.integers(1, 12)) if rank is None else rank
        dims = large_dims(rng, 1)
    rank = int(rng.integers(1, 6)) if rank is None else rank
    I, J, K = gen.pf2_dims(rng, 1, hi=7) if dims is None else dims
    kind = kind or str(rng.choice(KINDS_OF_FACTORS))
    A, = gen.factors(rng, (I,), rank, kind)
    C, = gen.factors(rng, (K,), rank, kind)
    B = gen.factors(rng, J, rank, kind)
    regular = len(set(J)) == 1
    array = bool(regular and rng.random() < 0.4) if array is None else array
    Bg = np.stack(B) if array else [as_layout(rng, b) for b in B]
    kw = {} if warning is None else dict(warning=warning)
    return EvolvingTensor(as_layout(rng, A), Bg, as_layout(rng, C), **kw), (A, B, C)


def parafac2(rng, dims=None, rank=None, kind=None, warning=None, min_i=1):
    """A PARAFAC2 tensor and its parts (A, blueprint, C, [P_k])."""
    if dims is None and rng.random() < 0.05:
        rank = int(rng.integers(1, 12)) if rank is None else rank
        I, J, K = large_dims(rng, rank)
        dims = max(I, min_i), J, K
        if K < min_i:
            dims = None
    rank = int(rng.integers(1, 6)) if rank is None else rank
    if dims is None:
        dims = int(rng.integers(min_i, 8)), None, int(rng.integers(min_i, 8))
        J = [rank + int(rng.integers(0, 6))]*dims[2] if rng.random() < 0.4 else [rank + int(rng.integers(0, 6)) for _ in range(dims[2])]
        dims = dims[0], J, dims[2]
    I, J, K = dims
    kind = kind or str(rng.choice(KINDS_OF_FACTORS))
    A, B, C = gen.factors(rng, (I, rank, K), rank, kind)
    P = [np.linalg.qr(rng.standard_normal((j, rank)))[0] for j in J]
    kw = {} if warning is None else dict(warning=warning)
    d = Parafac2Tensor(as_layout(rng, A), as_layout(rng, B), as_layout(rng, C), [as_layout(rng, p) for p in P], **kw)
    return d, (A, B, C, P)


def ev_slices(A, B, C):
    return [(A*C[k]) @ B[k].T for k in range(len(B))]


def padded(slices):
    """The slices stacked along the third mode, zeros beyond the narrower ones."""
    out = np.zeros((slices[0].shape[0], max(s.shape[1] for s in slices), len(slices)))
    for k, s in enumerate(slices):
        out[:, :s.shape[1], k] = s
    return out


def parts(d):
    """Every array of a container, by public attributes."""
    if isinstance(d, Parafac2Tensor):
        return [d.A, d.blueprint_B, d.C, *d.projection_matrices]
    if isinstance(d, EvolvingTensor):
        return [d.A, *d.B, d.C]
    return [*d.factor_matrices, d.weights]
