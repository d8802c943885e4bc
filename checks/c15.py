"""C15: factor match scores find the best matching and ignore representation."""
import numpy as np
from tenkit import metrics
from tenkit.decomposition.decompositions import EvolvingTensor, KruskalTensor, Parafac2Tensor

from vmon import gen
from vmon.core import Kind
from vmon.record import Sanitised

from .containers import as_layout, parts

PROPERTY = 'C15'
RULE = ('Pairs of decompositions (unrelated, noisy copies, permuted and rescaled copies, many of which are best matched '
        'neither greedily nor identically) scored and compared with brute force over all matchings of the score by '
        'definition, and with the score of another representation. Also up to eight components, nearly tied matchings, and evolving tensors of other slice counts. Non-trivial: a score was compared.')
ASSUMPTIONS = ['no pair of components in which both have a zero column (their cosine is undefined)',
               'column norms are at least 1e-6: the division by the norm is guarded by a documented epsilon of 1e-15']
FLOORS = {'scores compared': 15000, 'identity is not the best matching': 9000, 'greedy matching is not the best': 2500,
          'reductions disagree on the matching': 700, 'penalised': 3000, 'self': 3500, 'kruskal': 1000, 'evolving': 1000,
          'parafac2': 1000, 'mixed': 1000, 'separate modes': 3000, 'representations': 3500, 'more components': 500,
          'more than six components': 20, 'PARAFAC2 factors': 250}
TOL = 1e-9


def cosines(f, g):
    nf, ng = np.linalg.norm(f, axis=0), np.linalg.norm(g, axis=0)
    return np.abs((f/np.where(nf > 0, nf, 1)).T @ (g/np.where(ng > 0, ng, 1)))


def table(F, G, penalty):
    """Score of every pair of components, by definition."""
    S = np.prod([cosines(f, g) for f, g in zip(F, G)], axis=0)
    if penalty:
        a = np.prod([np.linalg.norm(f, axis=0) for f in F], axis=0)[:, None]
        b = np.prod([np.linalg.norm(f, axis=0) for f in G], axis=0)[None, :]
        S = S*(1 - np.abs(a - b)/np.maximum(a, b))
    return S


REDUCE = {'min': np.min, 'mean': np.mean}


def best(S, reduction):
    import itertools
    R, E = S.shape
    perms = np.array(list(itertools.permutations(range(E), R)))
    vals = REDUCE[reduction](S[np.arange(R), perms], axis=1)
    return vals.max(), perms[vals.argmax()]


def judge(mon, result, S, reduction, what, **info):
    score, perm = result
    want, wperm = best(S, reduction)
    mon.check(np.ndim(score) == 0 and -1e-12 <= score <= 1 + 1e-9, f'{what}: the score is not between zero and one', score=score, **info)
    mon.leq(what, abs(score - want), TOL, f'{what}: the score is not the maximum over all matchings', score=score, expected=want, **info)
    perm = [int(p) for p in perm]
    mon.check(len(perm) == S.shape[0] == len(set(perm)) and all(0 <= p < S.shape[1] for p in perm), f'{what}: not a permutation', permutation=perm, **info)
    attained = REDUCE[reduction](S[np.arange(S.shape[0]), perm])
    mon.leq(what + ' attained', abs(attained - want), TOL, f'{what}: the permutation does not attain the score', permutation=perm, attained=attained, score=score, **info)
    mon.count('scores compared')
    if REDUCE[reduction](np.diag(S)) < want - 1e-6:
        mon.count('identity is not the best matching')
    T, g = S.copy(), []
    for _ in range(min(S.shape)):
        i, j = np.unravel_index(T.argmax(), T.shape)
        g.append(S[i, j])
        T[i], T[:, j] = -1, -1
    if REDUCE[reduction](g) < want - 1e-6:
        mon.count('greedy matching is not the best')


def pair(rng, n=None, shape=None, rank=None, extra=0):
    """Two lists of factor matrices; the second more or less related to the first."""
    rank = int(rng.choice([1, 2, 2, 3, 3, 4, 5])) if rank is None else rank
    shape = gen.shape(rng, n=n, hi=7) if shape is None else shape
    kind = str(rng.choice(['normal', 'normal', 'nonneg', 'collinear', 'uniform']))
    F = gen.factors(rng, shape, rank, kind)
    rel = str(rng.choice(['unrelated', 'noisy', 'noisy', 'blend', 'same']))
    if rel == 'unrelated':
        G = gen.factors(rng, shape, rank + extra, kind)
    else:
        s = {'noisy': 10.0**rng.uniform(-2, 0), 'blend': 0.3, 'same': 0.0}[rel]
        M = np.eye(rank) + (rng.uniform(0, 1.2, (rank, rank)) if rel == 'blend' else 0)
        G = [f @ M + s*rng.standard_normal(f.shape) for f in F]
        if extra:
            G = [np.concatenate([g, h], axis=1) for g, h in zip(G, gen.factors(rng, shape, extra, kind))]
        p = rng.permutation(rank + extra)
        G = [g[:, p] for g in G]
    if rng.random() < 0.5:
        G = [g*np.exp(rng.uniform(-1, 1, rank + extra))*rng.choice([-1, 1], rank + extra) for g in G]
    if rng.random() < 0.05:
        G[int(rng.integers(len(G)))][:, int(rng.integers(rank + extra))] = 0
    for M in F:   # no zero columns in the first
        M[:, ~M.any(0)] = 1.0
    for f, g in zip(F, G):
        for M in (f, g):
            small = (np.linalg.norm(M, axis=0) < 1e-3) & M.any(0)
            M[:, small] += 1.0
    return F, G, rel


def represent(rng, G, scale=True):
    """Another representation of the same components: (factors, permutation applied)."""
    R = G[0].shape[1]
    p = rng.permutation(R)
    G = [g[:, p].copy() for g in G]
    n = len(G)
    for r in range(R):
        s = rng.choice([-1., 1.], n)
        if scale:
            m = np.exp(rng.uniform(-2, 2, n))
            s *= m/np.prod(m)**(1/n)
        for i in range(n):
            G[i][:, r] *= s[i]
    return G, p


def penalty_kw(rng, penalty):
    return {} if penalty and rng.random() < 0.3 else dict(weight_penalty=penalty)


def reduction_kw(rng, reduction):
    return {} if reduction == 'min' and rng.random() < 0.3 else dict(fms_reduction=reduction)


def function(rng, mon, index):
    extra = int(rng.choice([0, 0, 0, 0, 1, 2]))
    if index % 100 == 7:   # many components
        F, G, rel = pair(rng, rank=6)
        mon.count('six components')
    else:
        F, G, rel = pair(rng, extra=extra)
    if index % 100 != 7 and F[0].shape[1] + extra > 6:
        F, G = [f[:, :4] for f in F], [g[:, :5] for g in G]
    locks = Sanitised(*[as_layout(rng, f) for f in F], *[as_layout(rng, g) for g in G])
    Fl, Gl = locks.arrays[:len(F)], locks.arrays[len(F):]
    rank = F[0].shape[1]
    square = rank == G[0].shape[1]
    mon.describe(kind='function', rank=rank, estimated=G[0].shape[1], shape=[f.shape[0] for f in F], relation=rel)
    perms = {}
    for penalty in (True, False):
        S = table(F, G, penalty)
        for red in ('min', 'mean'):
            res = metrics.factor_match_score(Fl, Gl, **penalty_kw(rng, penalty), **reduction_kw(rng, red))
            info = dict(penalty=penalty, by=red)
            judge(mon, res, S, red, 'factor match score', **info)
            perms[penalty, red] = best(S, red)
            mon.count('penalised', int(penalty))
            if square and rng.random() < 0.5:
                H, p = represent(rng, G)
                other = metrics.factor_match_score(F, H, **penalty_kw(rng, penalty), **reduction_kw(rng, red))
                mon.leq('representation', abs(other[0] - res[0]), TOL, 'the score depends on the representation', a=res, b=other, **info)
                H, p = represent(rng, F)
                other = metrics.factor_match_score(H, G, **penalty_kw(rng, penalty), **reduction_kw(rng, red))
                mon.leq('representation', abs(other[0] - res[0]), TOL, 'the score depends on the representation', a=res, b=other, **info)
                back = metrics.factor_match_score(G, F, weight_penalty=penalty, fms_reduction=red)
                mon.leq('symmetry', abs(back[0] - res[0]), TOL, 'the score is not symmetric', a=res, b=back, **info)
                if not penalty:
                    H = [h*np.exp(rng.uniform(-4, 4, G[0].shape[1])) for h in H]
                    other = metrics.factor_match_score([f*np.exp(rng.uniform(-4, 4, rank)) for f in F], G, weight_penalty=False, fms_reduction=red)
                    mon.leq('representation', abs(other[0] - res[0]), TOL, 'the score without weight penalty depends on the scale', a=res, b=other, **info)
                mon.count('representations')
        if square:
            one = metrics.factor_match_score(Fl, represent(rng, F)[0], weight_penalty=penalty, fms_reduction=str(rng.choice(['min', 'mean'])))
            mon.leq('self', abs(one[0] - 1), TOL, 'the score of a decomposition against itself is not one', score=one, penalty=penalty)
            mon.count('self')
    for penalty in (True, False):
        if tuple(perms[penalty, 'min'][1]) != tuple(perms[penalty, 'mean'][1]):
            mon.count('reductions disagree on the matching')
    mon.count('more components', int(not square))
    mon.check(locks.verify(), 'scoring changed its input')
    mon.state(S)


def separate(rng, mon, index):
    F, G, rel = pair(rng, extra=int(rng.choice([0, 0, 0, 1])))
    locks = Sanitised(*F, *G)
    red = str(rng.choice(['min', 'mean']))
    got, perms = metrics.separate_mode_factor_match_score(F, G, **reduction_kw(rng, red))
    mon.describe(kind='separate', rank=F[0].shape[1], shape=[f.shape[0] for f in F], relation=rel, by=red)
    mon.check(len(got) == len(perms) == len(F), 'one score per mode', got=got)
    for m, (f, g) in enumerate(zip(F, G)):
        judge(mon, (got[m], perms[m]), cosines(f, g), red, 'score of one mode', mode=m, by=red)
    mon.check(locks.verify(), 'scoring changed its input')
    mon.count('separate modes')


def many(rng, mon, index):
    """More components than elsewhere: tens of thousands of matchings."""
    rank = 8 if index % 8 == 0 else 7
    n = int(rng.integers(1, 4))
    F, G, rel = pair(rng, n=n, shape=tuple(int(v) for v in rng.integers(rank, 14, n)), rank=rank)
    penalty, red = bool(rng.random() < 0.5), str(rng.choice(['min', 'mean']))
    mon.describe(kind='many', rank=rank, relation=rel, penalty=penalty, by=red)
    judge(mon, metrics.factor_match_score(F, G, weight_penalty=penalty, fms_reduction=red), table(F, G, penalty), red, 'score of many components',
          penalty=penalty, by=red)
    mon.count('more than six components')


def evolving(rng, mon, index):
    """The score of PARAFAC2 factors by their first and third modes."""
    rank = int(rng.integers(1, 5))
    extra = int(rng.choice([0, 0, 0, 1]))
    I, K = int(rng.integers(1, 8)), int(rng.integers(1, 8))
    (A, C), (D, H), rel = pair(rng, shape=(I, K), rank=rank, extra=extra)
    B, E = ([rng.standard_normal((int(rng.integers(r, r + 4)), r)) for _ in range(K)] for r in (rank, rank + extra))
    locks = Sanitised(A, C, D, H, *B, *E)
    mon.describe(kind='evolving', rank=rank, estimated=rank + extra, relation=rel)
    for penalty in (True, False):
        for red in ('min', 'mean'):
            res = metrics.factor_match_score_parafac2([A, B, C], [D, E, H], **penalty_kw(rng, penalty), **reduction_kw(rng, red))
            judge(mon, res, table([A, C], [D, H], penalty), red, 'score of PARAFAC2 factors', penalty=penalty, by=red)
    mon.check(locks.verify(), 'scoring changed its input')
    mon.count('PARAFAC2 factors')


def content(d):
    return [(a.shape, np.ascontiguousarray(a).tobytes()) for a in parts(d)]


def separate_method(d):
    return getattr(d, 'separate_mode_factor_match_score', None) or d.seperate_mode_factor_match_score


def move_to_weights(rng, F):
    """The same components with random (also negative) weights."""
    R = F[0].shape[1]
    w = gen.weights(rng, R)
    F = [f.copy() for f in F]
    i = int(rng.integers(len(F)))
    size = np.linalg.norm(F[i], axis=0)
    w = np.where(size > 0, np.sign(w)*np.minimum(np.abs(w), 1e3*np.where(size > 0, size, 1)), w)   # columns stay above the 1e-15 of normalisation
    F[i] /= w
    return KruskalTensor(F, w)


def containers(rng, mon, index):
    kind = ['kruskal', 'evolving', 'parafac2', 'mixed'][index % 4]
    red = str(rng.choice(['min', 'mean']))
    penalty = bool(rng.random() < 0.6)
    kw = {**penalty_kw(rng, penalty), **reduction_kw(rng, red)}
    info = dict(container=kind, penalty=penalty, by=red)
    if kind == 'kruskal':
        F, G, rel = pair(rng)
        a, b = move_to_weights(rng, F), move_to_weights(rng, G)
        U, V = a.factor_matrices, b.factor_matrices
        alt = move_to_weights(rng, represent(rng, G)[0])
    else:
        rank = int(rng.integers(1, 5))
        K = int(rng.integers(1, 6))
        J = [int(rng.integers(rank, rank + 4))]*K if kind == 'mixed' or rng.random() < 0.4 else [int(rng.integers(rank, rank + 4)) for _ in range(K)]
        I = int(rng.integers(1, 7))
        if kind == 'parafac2':
            P, Q = ([np.linalg.qr(rng.standard_normal((j, rank)))[0] for j in J] for _ in range(2))
            (A, B, C), (D, E, H), rel = pair(rng, shape=(I, rank, K), rank=rank)
            if rng.random() < 0.5:
                Q = P
            a, b = Parafac2Tensor(A, B, C, P), Parafac2Tensor(D, E, H, Q)
            F, G = [A, np.concatenate([p @ B for p in P]), C], [D, np.concatenate([q @ E for q in Q]), H]
            U, V = F, G
            (D2, E2, H2), _ = represent(rng, [D, E, H])
            alt = Parafac2Tensor(D2, E2, H2, Q)
        else:
            ends = np.cumsum(J)[:-1]
            F, G, rel = pair(rng, shape=(I, sum(J), K), rank=rank)
            U, V = F, G
            a = EvolvingTensor(F[0], np.split(F[1], ends), F[2])
            b = EvolvingTensor(G[0], np.split(G[1], ends), G[2])
            (D2, E2, H2), _ = represent(rng, G)
            alt = EvolvingTensor(D2, np.split(E2, ends), H2)
            if kind == 'mixed':   # an evolving tensor against a Kruskal tensor, mode by mode
                B, = gen.factors(rng, (J[0],), rank)
                b = KruskalTensor([G[0], B, G[2]])
                G = V = [G[0], np.concatenate([B]*K), G[2]]
    mon.describe(kind='containers', rank=a.rank, relation=rel, **info)
    before = content(a), content(b)
    if kind != 'mixed':
        res = a.factor_match_score(b, **kw)
        judge(mon, res, table(F, G, penalty), red, 'score of containers', **info)
        other = a.factor_match_score(alt, **kw)
        mon.leq('representation', abs(other[0] - res[0]), TOL, 'the score of containers depends on the representation', a=res, b=other, **info)
        one = a.factor_match_score(a, **kw)
        mon.leq('self', abs(one[0] - 1), TOL, 'the score of a container against itself is not one', score=one, **info)
        mon.count('self')
        mon.count('representations')
    got, perms = separate_method(a)(b, **reduction_kw(rng, red))
    mon.check(len(got) == len(perms) == len(F), 'one score per mode', got=got)
    for m, (f, g) in enumerate(zip(U, V)):
        judge(mon, (got[m], perms[m]), cosines(f, g), red, 'score of one mode of containers', mode=m, **info)
    mon.check(before == (content(a), content(b)), 'scoring changed a container', **info)
    mon.count(kind)
    mon.count('separate modes')


KINDS = {'many': Kind(many, 24, 200), 'evolving': Kind(evolving, 300, 6000), 'function': Kind(function, 3000, 100000), 'separate': Kind(separate, 2000, 40000), 'containers': Kind(containers, 4000, 100000)}
