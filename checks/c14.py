"""C14: normalising, sign fixing and permuting never change what a model describes."""
import numpy as np
from tenkit import utils
from tenkit.decomposition.decompositions import KruskalTensor

from vmon import gen, oracle
from vmon.core import Kind
from vmon.record import Sanitised

from .containers import KINDS_OF_FACTORS, kruskal

PROPERTY = 'C14'
RULE = ('Random Kruskal tensors and lists of factor matrices (zero columns, ties between signs, integers, weights of all '
        'signs, orders 2-5) normalised, given signs, flipped and permuted. Non-trivial: a result was compared.')
ASSUMPTIONS = ['column norms are at least 1e-6, or zero: the division by the norm is guarded by a documented epsilon of 1e-15',
               'sign scores are judged where the least squares problem behind them is well conditioned']
FLOORS = {'normalisations': 2500, 'zero columns': 1400, 'integer factors': 800, 'negative weights': 1000, 'sign fixes': 3000,
          'signs against their score': 4000, 'all signs as scored': 6000, 'flipped lists': 2000, 'ties': 1900, 'permutations': 2000,
          'sign helper': 2000, 'comparisons': 2000}


def lists(rng, n=None, allow_int=True):
    """A list of factor matrices."""
    rank = int(rng.integers(1, 6))
    shape = gen.shape(rng, n=n, hi=7)
    kind = str(rng.choice(KINDS_OF_FACTORS))
    F = gen.factors(rng, shape, rank, kind)
    if rng.random() < 0.3:
        F = [f*10.0**rng.uniform(-4, 4, rank) for f in F]
    if rng.random() < 0.25:
        F[int(rng.integers(len(F)))][:, int(rng.integers(rank))] = 0
    if rng.random() < 0.25:   # as many negative as positive entries
        f = F[int(rng.integers(len(F)))]
        r = int(rng.integers(rank))
        s = np.where(np.arange(len(f)) % 2, 1, -1)*int(rng.choice([-1, 1]))
        f[:, r] = np.abs(f[:, r])*s
    if kind == 'int' and allow_int and rng.random() < 0.7:
        F = [np.round(f).astype([np.int64, np.int32][int(rng.integers(2))]) for f in F]
    return F, rank, kind


def column_norms(f):
    return np.linalg.norm(np.asarray(f, dtype=float), axis=0)


def judge_unit(mon, got, F, what):
    """Unit columns in the direction of the originals (zero columns stay)."""
    mon.check(len(got) == len(F), f'{what}: the number of matrices')
    for g, f in zip(got, F):
        f = np.asarray(f, dtype=float)
        n = column_norms(f)
        mon.check(g.shape == f.shape, f'{what}: a shape')
        unit = f/np.where(n > 0, n, 1)
        mon.check(bool((np.abs(g - unit) <= 1e-12 + 4e-15/np.where(n > 0, n, 1)).all()), f'{what}: not the unit vector', norms=n)


def normalise(rng, mon, index):
    F, rank, kind = lists(rng)
    W = [None, gen.weights(rng, rank), gen.weights(rng, rank, positive=True), rng.integers(-3, 4, rank)][int(rng.integers(4))]
    d = KruskalTensor([f.copy() for f in F], None if W is None else W.copy())
    w = np.ones(rank) if W is None else np.asarray(W, dtype=float)
    mon.describe(kind='normalise', rank=rank, factors=kind, shape=[f.shape[0] for f in F], weights=W is not None)
    Ff = [np.asarray(f, dtype=float) for f in F]
    X = gen.dense(Ff, w)
    scale = gen.dense([np.abs(f) for f in Ff], np.abs(w))
    update = rng.random() < 0.8
    small = min([n for f in F for n in column_norms(f) if n > 0], default=1)
    eps = 1e-12 + 1e-14/small
    back = d.normalize_components() if update and rng.random() < 0.5 else d.normalize_components(update_weights=update)
    mon.check(back is d, 'normalising returns the tensor itself')
    judge_unit(mon, d.factor_matrices, F, 'normalising')
    if update:
        Y = d.construct_tensor()
        mon.check(bool((np.abs(Y - X) <= eps*len(F)*scale).all()), 'normalising changed the tensor')
        norms = np.prod([column_norms(f) for f in F], axis=0)
        mon.check(np.allclose(d.weights, w*norms, rtol=1e-12, atol=0), 'the weights do not absorb the norms', got=d.weights, expected=w*norms)
    else:
        mon.check(np.array_equal(d.weights, w), 'the weights changed', got=d.weights, expected=w)
    ref = [f.copy() for f in d.factor_matrices], d.weights.copy()
    d.normalize_components(update_weights=update)
    mon.check(all(np.allclose(a, b, rtol=eps, atol=0) for a, b in zip(ref[0], d.factor_matrices))
              and np.allclose(ref[1], d.weights, rtol=eps*len(F), atol=0), 'normalising again changed something')
    mon.count('normalisations')
    mon.count('zero columns', int(any((column_norms(f) == 0).any() for f in F)))
    mon.count('integer factors', int(F[0].dtype.kind == 'i'))
    mon.count('negative weights', int((w < 0).any()))
    mon.state(X)
    # resetting the weights sets them all to one
    d.reset_weights()
    mon.check(np.array_equal(d.weights, np.ones(rank)), 'resetting the weights')
    # the helper for lists
    locks = Sanitised(*[f.copy() for f in F])
    got, norms = utils.normalize_factors(locks.arrays)
    judge_unit(mon, got, F, 'normalize_factors')
    for n, f in zip(norms, F):
        mon.check(np.allclose(np.ravel(n), column_norms(f), rtol=1e-12, atol=0), 'normalize_factors: the norms')
    for g, n, f in zip(got, norms, F):
        mon.check(np.allclose(g*n, f, rtol=1e-12, atol=1e-12*np.abs(f).max(initial=0) + 1e-14), 'normalize_factors: undoing it')
    mon.check(locks.verify() and not any(np.shares_memory(g, f) for g, f in zip(got, locks.arrays)), 'normalize_factors changed its input')
    one, n = utils.normalize_factor(locks.arrays[0])
    judge_unit(mon, [one], F[:1], 'normalize_factor')


def scores_of(F, X):
    out = []
    for m, f in enumerate(F):
        Y = oracle.unfold(X, m)
        c = np.linalg.lstsq(f, Y, rcond=None)[0]
        out.append((np.sign(c)*c**2).sum(1))
    return out


def signs(rng, mon, index):
    n = int(rng.choice([2, 3, 3, 4]))
    d, F, w = kruskal(rng, n=n, kind=str(rng.choice(['normal', 'normal', 'uniform', 'int'])), layouts=False)
    rank = d.rank
    if rng.random() < 0.12:
        F[int(rng.integers(n))][:, int(rng.integers(rank))] = 0
        d = KruskalTensor([f.copy() for f in F], w.copy())
        mon.count('zero columns')
    X = gen.dense(F, w)
    r = rng.random()
    if r < 0.5:
        X = X + 0.3*(np.abs(X).max() + 1e-3)*rng.standard_normal(X.shape)
    elif r < 0.7:
        X = rng.standard_normal(X.shape)
    elif r < 0.75:
        X = np.zeros(X.shape)
    ref = X.copy()
    before = [f.copy() for f in d.factor_matrices], d.weights.copy()
    T = d.construct_tensor()
    info = dict(order=n, rank=rank, shape=X.shape)
    mon.describe(kind='signs', **info)
    got = d.get_signs(X)
    given = d.get_sign_scores(X)
    mon.check(np.array_equal(X, ref) and np.array_equal(before[1], d.weights) and all(
        np.array_equal(a, b) for a, b in zip(before[0], d.factor_matrices)), 'asking for signs changed the tensor or the data')
    mon.check(len(got) == n and all(np.shape(s) == (rank,) for s in got), 'one sign per mode and component', **info)
    S = np.array([np.asarray(s, dtype=float) for s in got])
    G = np.array([np.asarray(g, dtype=float) for g in given])
    mon.check(bool((np.abs(S) == 1).all()), 'signs are plus or minus one', got=S.tolist(), **info)
    mon.check(bool((S.prod(0) == 1).all()), 'the product of the signs of a component is one', got=S.tolist(), **info)
    against = (S*G < 0)
    for c in range(rank):
        mon.check(against[:, c].sum() <= 1, 'more than one mode is flipped against its sign score', got=S[:, c], scores=G[:, c], **info)
        if against[:, c].any():
            m = int(np.argmax(against[:, c]))
            mon.check(abs(G[m, c]) <= np.abs(G[:, c]).min()*(1 + 1e-12), 'the mode flipped against its score is not the least certain one',
                      scores=G[:, c], got=S[:, c], **info)
            mon.count('signs against their score')
        else:
            mon.count('all signs as scored')
    # the scores themselves
    ok = [oracle.scaled_cond(f) < 1e3 and f.shape[0] >= rank and np.linalg.cond(f) < 1e6 for f in F]
    for m, (s, o) in enumerate(zip(G, scores_of(F, X))):
        if ok[m]:
            Y = oracle.unfold(X, m)
            c = np.linalg.lstsq(F[m], Y, rcond=None)[0]
            tol = 1e-7*(c**2).sum(1) + (1e-11*np.linalg.norm(Y)/np.linalg.norm(F[m], axis=0))**2 + 1e-300
            mon.check(bool((np.abs(s - o) <= tol).all()), 'a sign score differs from its definition', mode=m, got=s, expected=o, **info)
    flipped = KruskalTensor([f*s for f, s in zip(d.factor_matrices, got)], d.weights.copy())
    mon.check(np.allclose(flipped.construct_tensor(), T, rtol=1e-12, atol=1e-12*np.abs(T).max(initial=0)), 'applying the signs changed the tensor', **info)
    # data that prefer these signs do not want them changed
    mon.count('sign fixes')
    mon.state(S)


def majority(f):
    """Sign of the majority of the entries' signs; of the first non-zero entry if they balance."""
    s = np.sign(f).sum(0)
    for r in np.flatnonzero(s == 0):
        nz = f[:, r][f[:, r] != 0]
        s[r] = np.sign(nz[0]) if len(nz) else 0
    return np.sign(s)


def flips(rng, mon, index):
    F, rank, kind = lists(rng)
    locks = Sanitised(*[f.copy() for f in F])
    got, sg = utils.flip_factors(locks.arrays)
    info = dict(rank=rank, shape=[f.shape[0] for f in F], factors=kind)
    mon.describe(kind='flips', **info)
    mon.check(len(got) == len(sg) == len(F), 'one matrix and signs per mode')
    for m, (g, s, f) in enumerate(zip(got, sg, F)):
        want = majority(f)
        zero = ~f.any(0)
        mon.check(np.array_equal(np.asarray(s)[~zero], want[~zero]), 'flip_factors: the signs', mode=m, got=s, expected=want, **info)
        mon.check(np.array_equal(g, f*np.where(zero, 1, want)), 'flip_factors: the flipped matrix', mode=m, **info)
        mon.check(np.array_equal(np.where(zero, 1, s)*g, f), 'flip_factors: undoing it', mode=m, **info)
        mon.count('ties', int((np.sign(f).sum(0) == 0).any()))
    mon.check(locks.verify() and not any(np.shares_memory(g, f) for g, f in zip(got, locks.arrays)), 'flip_factors changed its input', **info)
    mon.count('flipped lists')
    mon.count('integer factors', int(F[0].dtype.kind == 'i'))
    # prepared for comparison: unit columns and the same signs
    got, sg, norms = utils.prepare_for_comparison(locks.arrays)
    for m, (g, s, n, f) in enumerate(zip(got, sg, norms, F)):
        want = majority(f)
        zero = ~f.any(0)
        judge_unit(mon, [g], [f*np.where(zero, 1, want)], 'prepare_for_comparison')
        mon.check(np.array_equal(np.asarray(s)[~zero], want[~zero]), 'prepare_for_comparison: the signs', mode=m, **info)
        mon.check(np.allclose(np.ravel(n), column_norms(f), rtol=1e-12, atol=0), 'prepare_for_comparison: the norms', mode=m, **info)
        mon.check(np.allclose(np.where(zero, 1, s)*g*n, f, rtol=1e-12, atol=1e-12*np.abs(f).max(initial=0) + 1e-14), 'prepare_for_comparison: undoing it', **info)
    mon.check(locks.verify() and not any(np.shares_memory(g, f) for g, f in zip(got, locks.arrays)), 'prepare_for_comparison changed its input', **info)
    mon.count('comparisons')


def permutations(rng, mon, index):
    F, rank, kind = lists(rng)
    w = gen.weights(rng, rank)
    perm = rng.permutation(rank)
    given = [tuple(int(i) for i in perm), [int(i) for i in perm], perm][int(rng.integers(3))]
    locks = Sanitised(*[f.copy() for f in F], w.copy())
    got = utils.permute_factors(given, locks.arrays[:-1])
    got2, w2 = utils.permute_factors_and_weights(given, locks.arrays[:-1], locks.arrays[-1])
    info = dict(rank=rank, shape=[f.shape[0] for f in F], permutation=perm.tolist())
    mon.describe(kind='permutations', **info)
    for g in (got, got2):
        mon.check(len(g) == len(F), 'the number of permuted matrices', **info)
        for a, f in zip(g, F):
            mon.check(a.shape == f.shape and all(np.array_equal(a[:, r], f[:, perm[r]]) for r in range(rank)), 'the permuted columns', **info)
        back = utils.permute_factors(np.argsort(perm).tolist(), g)
        mon.check(all(np.array_equal(a, f) for a, f in zip(back, F)), 'undoing a permutation', **info)
    mon.check(all(w2[r] == w[perm[r]] for r in range(rank)), 'the permuted weights', **info)
    mon.check(np.array_equal(utils.permute_factors_and_weights(np.argsort(perm).tolist(), got2, w2)[1], w), 'undoing a permutation of weights', **info)
    mon.check(locks.verify(), 'permuting changed its input', **info)
    X, scale = gen.dense(F, w), gen.dense([np.abs(f) for f in F], np.abs(w))
    Y = KruskalTensor(got2, w2).construct_tensor()
    mon.check(bool((np.abs(X - Y) <= 1e-12*scale).all()), 'permuting changed what the model describes', **info)
    mon.count('permutations')
    mon.count('integer factors', int(F[0].dtype.kind == 'i'))


def sign_helper(rng, mon, index):
    """utils.get_signs with and without data."""
    F, rank, kind = lists(rng, n=2, allow_int=False)
    f = F[0]
    locks = Sanitised(f.copy())
    s, score = utils.get_signs(locks.arrays[0], None)
    total = f.sum(0)
    tol = 1e-12*np.abs(f).sum(0)
    info = dict(rank=rank, rows=len(f), factors=kind)
    mon.describe(kind='sign helper', **info)
    mon.check(bool((np.abs(s) == 1).all()), 'get_signs: signs are plus or minus one', got=s, **info)
    mon.check(bool((s*total >= -tol).all()), 'get_signs: the mean of a factor is made positive', got=s, **info)
    mon.check(bool((np.asarray(score)*s >= 0).all()), 'get_signs: the score has the sign', **info)
    if len(f) >= rank and oracle.scaled_cond(f) < 1e3:
        Y = f @ rng.standard_normal((rank, 9)) + 0.1*rng.standard_normal((len(f), 9))*np.abs(f).max()
        locks = Sanitised(f.copy(), Y.copy())
        s, score = utils.get_signs(*locks.arrays)
        c = np.linalg.lstsq(f, Y, rcond=None)[0]
        want = (np.sign(c)*c**2).sum(1)
        clear = np.abs(want) > 1e-8*(c**2).sum(1)
        mon.check(bool((s[clear] == np.sign(want[clear])).all()), 'get_signs: the sign that correlates with the data', got=s, expected=np.sign(want), **info)
        mon.check(locks.verify(), 'get_signs changed its input', **info)
        # flipping the factor flips its sign
        t = rng.choice([-1., 1.], rank)
        s2, _ = utils.get_signs(f*t, Y)
        mon.check(bool((s2[clear] == (t*s)[clear]).all()), 'get_signs: a flipped factor has the opposite sign', **info)
    mon.check(locks.verify(), 'get_signs changed its input', **info)
    mon.count('sign helper')


KINDS = {'normalise': Kind(normalise, 6000, 150000), 'signs': Kind(signs, 6000, 150000), 'flips': Kind(flips, 4000, 100000),
         'permutations': Kind(permutations, 4000, 100000), 'sign_helper': Kind(sign_helper, 4000, 100000)}
