"""C16: tensor algebra primitives agree with their definitions for all shapes."""
import numpy as np
from tenkit import base

from vmon import gen, oracle
from vmon.core import Kind
from vmon.record import Sanitised

PROPERTY = 'C16'
RULE = ('The primitives called on random tensors and matrices of orders 2-6 with modes of length 1 and up, all layouts, '
        'several dtypes and magnitudes, every mode, and compared entry by entry with their definitions. '
        'Non-trivial: a result was compared.')
ASSUMPTIONS = ['entries may differ by rounding relative to the sum of the absolute terms; rearrangements must be exact']
FLOORS = {'unfoldings': 30000, 'foldings': 30000, 'identities': 10000, 'products': 12000, 'skips': 12000, 'mttkrp': 25000,
          'third order': 9000, 'order 2': 2000, 'order 5 and more': 4000, 'modes of length one': 10000, 'flattenings': 3000,
          'not contiguous': 25000, 'integers': 10000, 'single precision': 5000}


def tensor(rng, mon, shape):
    X = rng.standard_normal(shape)
    if rng.random() < 0.1:
        X *= 10.0**rng.uniform(-100, 100)
    dtype = None
    r = rng.random()
    if r < 0.15:
        X = rng.integers(-9, 10, shape)
        mon.count('integers')
    elif r < 0.22:
        dtype = np.float32
        X = rng.standard_normal(shape)
        mon.count('single precision')
    X, lay = gen.layout(rng, X, dtype)
    mon.count('not contiguous', int(not X.flags.c_contiguous))
    return X


def tame(f):
    """Several extreme magnitudes at once would overflow."""
    m = np.abs(f).max()
    return f/m if m > 1e15 or 0 < m < 1e-15 else f


def some_shape(rng, mon, hi=7):
    shape = gen.shape(rng, n=int(rng.choice([2, 3, 3, 3, 4, 4, 5, 6])), hi=hi)
    if len(shape) == 6:
        shape = tuple(min(s, 3) for s in shape)
    mon.count('order 2', int(len(shape) == 2))
    mon.count('order 5 and more', int(len(shape) >= 5))
    mon.count('modes of length one', int(1 in shape))
    return shape


def close(mon, got, want, scale, what, eps=2e-14, **info):
    got = np.asarray(got)
    mon.check(got.shape == want.shape, f'{what}: the shape', got=got.shape, expected=want.shape, **info)
    bad = ~(np.abs(got - want) <= eps*scale)
    mon.check(not bad.any(), what, where=np.argwhere(bad)[:1].tolist(), **info)


def eps_of(*arrays):
    """Rounding of a product; a single matrix of single precision among others of double precision does not lower it."""
    single = sum(a.dtype == np.float32 for a in arrays)
    return 2e-14 if single == 0 or single == 1 and len(arrays) > 1 else 2e-5


def unfolding(rng, mon, index):
    shape = some_shape(rng, mon)
    X = tensor(rng, mon, shape)
    locks = Sanitised(X)
    n = len(shape)
    mon.describe(kind='unfolding', shape=shape, dtype=str(X.dtype))
    for m in range(-n, n):
        M = base.unfold(X, m)
        mon.check(M.shape == (shape[m], X.size//shape[m]), 'the shape of an unfolding', mode=m, shape=shape, got=M.shape)
        # row i holds the i-th slice; all unfoldings list the other modes in their order, the last one fastest
        want = np.array([np.take(X, i, axis=m).ravel() for i in range(shape[m])])
        mon.check(np.array_equal(M, want), 'an unfolding differs from its definition', mode=m, shape=shape)
        mon.count('unfoldings')
        given = [list(shape), shape, np.array(shape).tolist()][int(rng.integers(3))]
        lock = Sanitised(np.array(M))
        back = base.fold(lock.arrays[0], m, given)
        mon.check(back.shape == shape and np.array_equal(back, X), 'folding does not undo unfolding', mode=m, shape=shape)
        mon.check(list(given) == list(shape) and lock.verify(), 'folding changed its arguments')
        M2 = rng.standard_normal(M.shape)
        mon.check(np.array_equal(base.unfold(base.fold(M2, m, shape), m), M2), 'unfolding does not undo folding', mode=m, shape=shape)
        mon.count('foldings')
    mon.check(locks.verify(), 'unfolding changed its argument')
    mon.state(X)


def rank_one_terms(rng, mon, index):
    shape = some_shape(rng, mon, hi=6)
    R = int(rng.integers(1, 6))
    F = [tensor(rng, mon, (s, R)) for s in shape]
    F = [tame(f) for f in F]
    locks = Sanitised(*F)
    mon.describe(kind='rank one terms', shape=shape, rank=R)
    want, scale = gen.dense(F), gen.dense([np.abs(f) for f in F])
    X = base.ktensor(*F)
    close(mon, X, want, scale, 'the sum of rank-one terms', eps_of(*F), shape=shape)
    for m in range(len(shape)):
        Z = base.khatri_rao(*F, skip=m)
        close(mon, F[m] @ Z.T, oracle.unfold(want, m), oracle.unfold(scale, m), 'the unfolding is not the factor times the Khatri-Rao product',
              eps_of(*F), mode=m, shape=shape)
        close(mon, base.unfold(X, m), F[m] @ Z.T, oracle.unfold(scale, m), 'the unfolding is not the factor times the Khatri-Rao product',
              eps_of(*F), mode=m, shape=shape)
        mon.count('identities')
    mon.check(locks.verify(), 'a product changed its arguments')


def krp(F):
    """Column r is the Kronecker product of the r-th columns, entry by entry."""
    sizes = [len(f) for f in F]
    out = np.ones((int(np.prod(sizes)), F[0].shape[1]))
    for i, idx in enumerate(np.ndindex(*sizes)):
        for f, j in zip(F, idx):
            out[i] = out[i]*f[j]
    return out


def kronecker(F):
    out = np.ones((1, 1))
    for f in F:
        f = np.asarray(f, dtype=float)
        out = np.block([[out[i, j]*f for j in range(out.shape[1])] for i in range(out.shape[0])])
    return out


def products(rng, mon, index):
    n = int(rng.integers(1, 5))
    R = int(rng.integers(1, 6))
    sizes = [int(rng.integers(1, 6 if n > 3 else 8)) for _ in range(n)]
    mon.count('modes of length one', int(1 in sizes))
    F = [tensor(rng, mon, (s, R)) for s in sizes]
    F = [tame(f) for f in F]
    locks = Sanitised(*F)
    mon.describe(kind='products', sizes=sizes, rank=R)
    want = krp(F)
    close(mon, base.khatri_rao(*F), want, np.abs(want), 'the Khatri-Rao product', eps_of(*F), sizes=sizes)
    close(mon, base.khatri_rao(*F, skip=None), want, np.abs(want), 'the Khatri-Rao product', eps_of(*F), sizes=sizes)
    mon.count('products')
    if n > 1:
        for m in range(n):
            want = krp([f for i, f in enumerate(F) if i != m])
            close(mon, base.khatri_rao(*F, skip=m), want, np.abs(want), 'the Khatri-Rao product with a mode skipped', eps_of(*F), sizes=sizes, skip=m)
            mon.count('skips')
        want = krp(F[:2])
        close(mon, base.khatri_rao_binary(F[0], F[1]), want, np.abs(want), 'the Khatri-Rao product of two matrices', eps_of(*F), sizes=sizes)
    small = [f[:4, :int(rng.integers(1, min(R, 3) + 1))] for f in F[:3]]
    want = kronecker(small)
    close(mon, base.kron(*small), want, np.abs(want), 'the Kronecker product', eps_of(*F), sizes=[s.shape for s in small])
    if n > 1:
        want = kronecker(small[:2])
        close(mon, base.kron_binary(*small[:2]), want, np.abs(want), 'the Kronecker product of two matrices', eps_of(*F))
        u, v = small[0][:, 0], small[1][:, 0]
        want = np.array([a*b for a in np.asarray(u, float) for b in np.asarray(v, float)])
        close(mon, base.kron_binary_vectors(u, v), want, np.abs(want), 'the Kronecker product of two vectors', eps_of(*F))
    mon.check(locks.verify(), 'a product changed its arguments')
    mon.count('products')


def mttkrp(rng, mon, index):
    shape = some_shape(rng, mon)
    if index % 7 == 0:
        shape = tuple(int(i) for i in rng.permutation([1, int(rng.integers(30, 80)), int(rng.integers(1, 6))]))
    R = int(rng.integers(1, 7))
    X = tensor(rng, mon, shape)
    F = [tensor(rng, mon, (s, R)) for s in shape]
    F = [tame(f) for f in F]
    locks = Sanitised(X, *F)
    mon.describe(kind='mttkrp', shape=shape, rank=R, dtype=str(X.dtype))
    given = F if rng.random() < 0.7 else tuple(F)
    for m in range(len(shape)):
        Z = oracle.design([np.asarray(f, float) for f in F], m)
        U = oracle.unfold(np.asarray(X, float), m)
        got = base.matrix_khatri_rao_product(X, given, m)
        close(mon, got, U @ Z, np.abs(U) @ np.abs(Z), 'the matricised tensor times Khatri-Rao product', eps_of(X, *F), mode=m, shape=shape)
        mon.count('mttkrp')
        mon.count('third order', int(len(shape) == 3))
        # whatever is in the skipped factor does not matter
        G = list(F)
        G[m] = np.full_like(F[m], 7)
        close(mon, base.matrix_khatri_rao_product(X, G, m), U @ Z, np.abs(U) @ np.abs(Z), 'the product depends on the skipped factor', eps_of(X, *F), mode=m)
    mon.check(locks.verify(), 'a product changed its arguments')


def flattening(rng, mon, index):
    shape = some_shape(rng, mon)
    R = int(rng.integers(1, 7))
    F = [tensor(rng, mon, (s, R)) for s in shape]
    locks = Sanitised(*F)
    mon.describe(kind='flattening', shape=shape, rank=R)
    v = base.flatten_factors(F)
    mon.check(v.shape == (sum(shape)*R,), 'the flattened factors are a vector', got=v.shape)
    lock = Sanitised(v)
    given = [shape, list(shape)][int(rng.integers(2))]
    G = base.unflatten_factors(lock.arrays[0], R, given)
    mon.check(len(G) == len(F) and all(g.shape == f.shape and np.array_equal(g, f) for g, f in zip(G, F)), 'unflattening does not undo flattening')
    u = rng.standard_normal(v.shape)
    mon.check(np.array_equal(base.flatten_factors(base.unflatten_factors(u, R, shape)), u), 'flattening does not undo unflattening')
    mon.check(locks.verify() and lock.verify(), 'flattening changed its arguments')
    w = base.flatten_factors(F)
    w += 1
    mon.check(locks.verify(), 'the flattened factors share memory with the matrices')
    mon.count('flattenings')


KINDS = {'unfolding': Kind(unfolding, 9000, 200000), 'rank_one_terms': Kind(rank_one_terms, 6000, 150000),
         'products': Kind(products, 12000, 300000), 'mttkrp': Kind(mttkrp, 16000, 400000), 'flattening': Kind(flattening, 6000, 100000)}
