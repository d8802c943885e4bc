BUGS = []


def bug(id, property, needs, what, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what_it_breaks=what, edits=edits, demo=demo))


DEC, BASE, CP, PF2, CMTF = ('decomposition/decompositions.py', 'base.py', 'decomposition/cp.py', 'decomposition/parafac2.py', 'decomposition/cmtf.py')
DECER = 'decomposition/base_decomposer.py'

bug('c02-singleton', 'C02', 'a tensor with a mode of length one',
    'Modes of length one are taken to be normalised and left out of the normal equations, so the other modes are scaled wrongly.',
    [(CP, '            if i == skip_mode:\n                continue\n            V *= factor.T @ factor',
      '            if i == skip_mode or len(factor) == 1:\n                continue\n            V *= factor.T @ factor')], '''
from tenkit.decomposition.cp import CP_ALS
np.random.seed(0)
X = np.random.randn(1, 4, 5)
m = CP_ALS(2, max_its=1, convergence_tol=-1, rel_loss_tol=-1)
m.fit(X)
A, B, C = m.factor_matrices
Z = np.einsum('ir,jr->ijr', A, B).reshape(-1, 2)
best = np.linalg.lstsq(Z, X.reshape(4, 5), rcond=None)[0].T
assert np.allclose(C, best), (C, best)
''')

bug('c04-int-norm', 'C04', 'slices of small integers (int8, uint8), whose squares overflow',
    'The norm of the data is computed in the type of the data, so the explained variance of PARAFAC2 models of small integers is wrong.',
    [(PF2, 'self.X_norm = np.sqrt(sum(np.linalg.norm(Xk)**2 for Xk in X))', 'self.X_norm = np.sqrt(sum((Xk*Xk).sum() for Xk in X))')], '''
from tenkit.decomposition.parafac2 import Parafac2_ALS
rng = np.random.default_rng(0)
X = [rng.integers(-100, 100, (4, j)).astype(np.int8) for j in (5, 3, 6)]
np.random.seed(0)
m = Parafac2_ALS(2, max_its=5, print_frequency=-1)
m.fit(X)
d = m.decomposition
Y = [(d.A*c) @ (p @ d.blueprint_B).T for c, p in zip(d.C, d.projection_matrices)]
ev = 1 - sum(np.linalg.norm(x - y)**2 for x, y in zip(X, Y))/sum(np.linalg.norm(x.astype(float))**2 for x in X)
assert np.isclose(m.explained_variance, ev), (m.explained_variance, ev)
''')

bug('c04-ev-loss', 'C04', 'a ridge-penalised model',
    'The explained variance is computed from the regularised loss.',
    [(DECER, '        return 1 - self.SSE/self.X_norm**2', '        return 1 - self.loss/self.X_norm**2')], '''
from tenkit.decomposition.cp import CP_ALS
np.random.seed(0)
X = np.random.rand(4, 5, 6)
m = CP_ALS(2, max_its=10, ridge_penalties=[0.5, 0, 0.1])
m.fit(X)
A, B, C = m.factor_matrices
ev = 1 - np.linalg.norm(X - np.einsum('ir,jr,kr->ijk', A, B, C))**2/np.linalg.norm(X)**2
assert np.isclose(m.explained_variance, ev), (m.explained_variance, ev)
''')

bug('c05-polar', 'C05', 'a slice whose product with the model is rank deficient (e.g. a zero row in the third mode or a constant slice)',
    'The projections are computed with an inverse square root instead of singular vectors, so they are not orthonormal for rank-deficient slices.',
    [(BASE, '    U, S, Vh = np.linalg.svd(B.T@A, full_matrices=False)', '''    M = B.T@A
    if M.shape[0] > M.shape[1]:
        # Cheaper than the singular value decomposition of M for tall matrices
        s, V = np.linalg.eigh(M.T@M)
        if s[0] > 1e-12*s[-1]:
            return ((M @ V)/np.sqrt(s) @ V.T).T
    U, S, Vh = np.linalg.svd(M, full_matrices=False)''')], '''
from tenkit import base
rng = np.random.default_rng(0)
for e in range(2, 10):
    U = np.linalg.qr(rng.standard_normal((6, 3)))[0]
    V = np.linalg.qr(rng.standard_normal((3, 3)))[0]
    B = (U*[1, 0.5, 10.0**-e]) @ V.T
    Q = base.orthogonal_solve(np.eye(3), B.T)   # 3 x 6 with orthonormal rows
    assert np.abs(Q @ Q.T - np.eye(3)).max() < 1e-10, (e, Q @ Q.T)
''')

bug('c06-inner-break', 'C06', 'a configured number of inner sweeps above one, and an inner sweep that improves the fit little',
    'The inner CP sweeps stop early when the loss hardly changes, so fewer sweeps are made than configured.',
    [(PF2, '''            self.cp_decomposer._update_als_factors()
''', '''            self.cp_decomposer._update_als_factors()
            self.cp_decomposer._update_convergence()
            if abs(self.cp_decomposer._rel_function_change) < 1e-2:
                break
''')], '''
from tenkit.decomposition.parafac2 import Parafac2_ALS
from tenkit.decomposition.decompositions import Parafac2Tensor
rng = np.random.default_rng(0)
def fit(n, its):
    r = np.random.default_rng(1)
    d = Parafac2Tensor(r.random((5, 2)), np.eye(2), r.random((4, 2)) + 0.1, [np.linalg.qr(r.standard_normal((6, 2)))[0] for _ in range(4)])
    X = [r.standard_normal((5, 6)) for _ in range(4)]
    m = Parafac2_ALS(2, max_its=its, cp_updates_per_it=n, init='precomputed', print_frequency=-1, convergence_tol=-1)
    m.fit(X, initial_decomposition=d)
    return m, X
m, X = fit(50, 1)
d = m.decomposition
Y = np.stack([x @ p for x, p in zip(X, d.projection_matrices)], axis=-1)
A, B, C = d.A, d.blueprint_B, d.C
# after fifty sweeps the first mode is (nearly) optimal, too
Z = np.einsum('jr,kr->jkr', B, C).reshape(-1, 2)
best = np.linalg.lstsq(Z, Y.reshape(5, -1).T, rcond=None)[0].T
gap = np.linalg.norm(Y.reshape(5, -1) - A @ Z.T)**2 - np.linalg.norm(Y.reshape(5, -1) - best @ Z.T)**2
assert gap < 1e-5, gap
''')

bug('c07-int-tensor', 'C07', 'an integer tensor coupled to matrices of fractions',
    'The stacked right hand side takes the type of the tensor, so coupled matrices are truncated to integers.',
    [(CMTF, "            unfolded_X = base.unfold(self.X, mode)\n            coupled_Y = [self.coupled_matrices[cm_idx] for",
      "            unfolded_X = base.unfold(self.X, mode)\n            coupled_Y = [np.asarray(self.coupled_matrices[cm_idx]).astype(unfolded_X.dtype) for")], '''
from tenkit.decomposition.cmtf import CMTF_ALS
rng = np.random.default_rng(0)
X = rng.integers(0, 2, (5, 4, 3))
Y = rng.random((5, 6))
e = []
class Log:
    def log(self, m):
        e.append(m.SSE)
np.random.seed(0)
CMTF_ALS(2, max_its=20, convergence_tol=-1, rel_loss_tol=-1, loggers=[Log()]).fit(X, [Y], [0])
assert (np.diff(e) <= 1e-9*e[0]).all(), e
''')

bug('c07-second-rescale', 'C07', 'two or more matrices coupled to one mode',
    'The final rescaling is done once per coupled mode, so only the last matrix of a mode is rescaled.',
    [(CMTF, '''        for uncoupled_matrix, coupling_mode in zip(self.uncoupled_factor_matrices, self.coupling_modes):
            fm = self.decomposition.factor_matrices[coupling_mode]
''', '''        for coupling_mode, uncoupled_matrix in dict(zip(self.coupling_modes, self.uncoupled_factor_matrices)).items():
            fm = self.decomposition.factor_matrices[coupling_mode]
''')], '''
from tenkit.decomposition.cmtf import CMTF_ALS
rng = np.random.default_rng(0)
X = rng.random((5, 4, 3))
Y = [rng.random((5, 6)), rng.random((5, 2)), rng.random((3, 4))]
np.random.seed(0)
m = CMTF_ALS(2, max_its=20)
d, pairs = m.fit_transform(X, Y, [0, 0, 2])
for y, (a, v) in zip(Y, pairs):
    best = np.linalg.lstsq(a, y, rcond=None)[0].T
    assert np.allclose(v, best, atol=1e-6), (v, best)
''')

bug('c08-le', 'C08', 'a tolerance of zero and a fit whose error does not change at all',
    'A change equal to the tolerance counts as below it, so a fit with tolerance zero stops at a fixed point before its limit.',
    [(PF2, 'if abs(self._rel_function_change) < self.convergence_tol:', 'if abs(self._rel_function_change) <= self.convergence_tol:')], '''
from tenkit.decomposition.parafac2 import Parafac2_ALS
rng = np.random.default_rng(0)
X = [np.outer(np.ones(4), np.ones(3)) + 0.25*np.outer(np.arange(4), np.arange(3)) for _ in range(3)]
n = []
class Log:
    def log(self, m):
        n.append(m.loss)
np.random.seed(0)
m = Parafac2_ALS(1, max_its=300, convergence_tol=0, loggers=[Log()], print_frequency=-1)
m.fit(X)
assert len(n) == 300, len(n)
assert (np.diff(n) == 0).any()
''')

bug('c09-stale-gram', 'C09', 'a fitted model that loads an earlier checkpoint and is continued',
    'The cross-products of the factor matrices are kept between updates, also when the decomposition is replaced by a loaded one.',
    [(CP, '''        V = np.ones((self.rank, self.rank))
        for i, factor in enumerate(self.factor_matrices):
            if i == skip_mode:
                continue
            V *= factor.T @ factor
        return V''', '''        V = np.ones((self.rank, self.rank))
        for i, gram in enumerate(self._grams):
            if i == skip_mode:
                continue
            V *= gram
        return V'''),
     (CP, '''        self.factor_matrices[mode][...] = new_factor
''', '''        self.factor_matrices[mode][...] = new_factor
        self._grams[mode] = new_factor.T @ new_factor
'''),
     (CP, '''        self._rel_function_change = np.inf
        self.prev_SSE = self.SSE

        self._matrix_khatri_rao_product_cache = None
''', '''        self._rel_function_change = np.inf
        self.prev_SSE = self.SSE
        self._grams = [factor.T @ factor for factor in self.factor_matrices]

        self._matrix_khatri_rao_product_cache = None
''')], '''
from tenkit.decomposition.cp import CP_ALS
np.random.seed(0)
X = np.random.randn(4, 5, 6)
with tempfile.TemporaryDirectory() as tmp:
    path = os.path.join(tmp, 'c.h5')
    kw = dict(convergence_tol=-1, rel_loss_tol=-1)
    m = CP_ALS(3, max_its=10, checkpoint_path=path, checkpoint_frequency=1, **kw)
    m.fit(X)
    other = CP_ALS(3, max_its=4, **kw)
    other.fit(X)
    other.load_checkpoint(path, load_it=3)
    other.continue_fit(max_its=10)
    for f, g in zip(m.factor_matrices, other.factor_matrices):
        assert np.allclose(f, g), (f, g)
''')

bug('c10-float32-log', 'C10', 'nothing special, but the values stored being compared with those in memory',
    'Log values are stored in single precision.',
    [('decomposition/logging/logger.py', 'logger_group.create_dataset(logname, shape=(len(log),), maxshape=(None,), dtype=log.dtype)',
      "logger_group.create_dataset(\n                logname, shape=(len(log),), maxshape=(None,), dtype=log.dtype if log.dtype.kind == 'i' else np.float32\n            )")], '''
import h5py
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.logging.logger import LossLogger
np.random.seed(0)
with tempfile.TemporaryDirectory() as tmp:
    path = os.path.join(tmp, 'c.h5')
    lg = LossLogger()
    CP_ALS(2, max_its=5, checkpoint_path=path, loggers=[lg]).fit(np.random.randn(4, 5, 6))
    with h5py.File(path, 'r') as h5:
        assert h5['LossLogger/values'][...].tolist() == lg.log_metrics
''')

bug('c12-unit-weights', 'C12', 'weights that are nearly, but not exactly, one',
    'Weights close to one are stored as exactly one.',
    [(DEC, "        group['weights'] = self.weights\n", "        group['weights'] = np.ones(self.rank) if np.allclose(self.weights, 1) else self.weights\n")], '''
from tenkit.decomposition.decompositions import KruskalTensor
rng = np.random.default_rng(0)
k = KruskalTensor([rng.random((4, 2)) for _ in range(3)], np.array([1 + 1e-7, 1 - 1e-9]))
with tempfile.TemporaryDirectory() as tmp:
    k.store(os.path.join(tmp, 'k.h5'))
    assert KruskalTensor.from_file(os.path.join(tmp, 'k.h5')).weights.tolist() == k.weights.tolist()
''')

bug('c12-warning-lost', 'C12', 'an irregular PARAFAC2 tensor with warnings off that is stored and loaded',
    'A loaded PARAFAC2 tensor has warnings on again, so that its tensor cannot be constructed although that of the stored one could.',
    [(DEC, 'return cls(A, blueprint_B, C, projection_matrices, warning=warning)', 'return cls(A, blueprint_B, C, projection_matrices)')], '''
from tenkit.decomposition.decompositions import Parafac2Tensor
rng = np.random.default_rng(0)
d = Parafac2Tensor(rng.random((4, 2)), rng.random((2, 2)), rng.random((3, 2)), [np.linalg.qr(rng.random((j, 2)))[0] for j in (3, 5, 4)], warning=False)
with tempfile.TemporaryDirectory() as tmp:
    d.store(os.path.join(tmp, 'd.h5'))
    e = Parafac2Tensor.from_file(os.path.join(tmp, 'd.h5'))
    ok = True
    try:
        assert np.array_equal(d.construct_tensor(), e.construct_tensor())
    except Warning:
        ok = False
    assert ok, 'the loaded tensor does not reconstruct'
''')

bug('c13-projected-part', 'C13', 'a part of an evolving factor of a PARAFAC2 tensor selected by rows and columns',
    'The selection is applied to the projection instead of the evolving factor.',
    [(DEC, 'return (self.projection_matrices[k]@self.blueprint_factor_matrix)[slice_]', 'return self.projection_matrices[k][slice_]@self.blueprint_factor_matrix')], '''
from tenkit.decomposition.decompositions import Parafac2Tensor
rng = np.random.default_rng(0)
d = Parafac2Tensor(rng.random((4, 2)), rng.random((2, 2)), rng.random((3, 2)), [np.linalg.qr(rng.random((j, 2)))[0] for j in (3, 5, 4)])
whole = d.projection_matrices[1] @ d.blueprint_B
assert np.allclose(d.B[1, 1:3], whole[1:3])
ok = True
try:
    ok = np.allclose(d.B[1, :, 0], whole[:, 0])
except ValueError:
    ok = False
assert ok, 'one column of an evolving factor'
''')

bug('c14-mean-sign', 'C14', 'a column with few large negative and many small positive entries',
    'The sign of a column is that of its mean instead of the majority of its entries.',
    [('utils.py', '''    factor_matrices = deepcopy(factor_matrices)
    signs = []
    for i, factor in enumerate(factor_matrices):
        sign = np.sign(np.mean(np.sign(factor), axis=0))
''', '''    factor_matrices = deepcopy(factor_matrices)
    signs = []
    for i, factor in enumerate(factor_matrices):
        sign = np.sign(np.mean(factor, axis=0))
''')], '''
from tenkit import utils
f = np.array([[1., 2], [1, -1], [1, -1], [-9, 1]])
g, s = utils.flip_factors([f, f])
for x in g:
    assert (np.sign(x).sum(axis=0) >= 0).all(), x
''')

bug('c14-unit-inplace', 'C14', 'a list of factor matrices with a matrix whose columns have exactly unit norm and a negative majority sign',
    'Matrices with unit columns are returned as they are, and then flipped in place.',
    [('utils.py', '    return factor / (norms + eps), norms', '    if np.all(norms == 1):\n        return factor, norms\n    return factor / (norms + eps), norms')], '''
from tenkit import utils
f = -np.eye(4)[:, :2]
before = f.copy()
utils.prepare_for_comparison([f, np.random.default_rng(0).random((3, 2))])
assert np.array_equal(f, before), f
''')

bug('c15-early-exit', 'C15', 'components of which two are nearly equal, so that two matchings score above 0.99',
    'The search stops at the first matching that is good enough, which need not be the best one.',
    [('metrics.py', '''        if fms > max_fms:
            max_fms = fms
            best_permutation = permutation
    return max_fms, best_permutation

def separate''', '''        if fms > max_fms:
            max_fms = fms
            best_permutation = permutation
            if max_fms > 0.99:
                break
    return max_fms, best_permutation

def separate''')], '''
from tenkit import metrics
rng = np.random.default_rng(0)
F = [rng.random((5, 2)) for _ in range(3)]
F = [np.stack([f[:, 0], f[:, 0] + 0.01*f[:, 1]], axis=1) for f in F]
G = [f[:, ::-1].copy() for f in F]
s, p = metrics.factor_match_score(F, G, weight_penalty=False)
assert abs(s - 1) < 1e-9 and tuple(p) == (1, 0), (s, p)
''')

bug('c15-large-rank', 'C15', 'six or more components, the best minimum not being the best sum',
    'Matchings of many components are found by the assignment with the best total score, whatever the reduction.',
    [('metrics.py', '''    max_fms = -1
    best_permutation = None

    for permutation in itertools.permutations(range(estimated_rank), r=rank):
        permuted_factors = utils.permute_factors(permutation, estimated_factors)

        fms = fms_reduction(
            _factor_match_score(
                true_factors, permuted_factors, weight_penalty=weight_penalty
            )
        )

        if fms > max_fms:
            max_fms = fms
            best_permutation = permutation
    return max_fms, best_permutation

def separate''', '''    max_fms = -1
    best_permutation = None

    permutations = itertools.permutations(range(estimated_rank), r=rank)
    if rank > 5:
        # Too many permutations to try
        from scipy.optimize import linear_sum_assignment
        scores = [[_factor_match_score([f[:, [i]] for f in true_factors], [f[:, [j]] for f in estimated_factors], weight_penalty)[0]
                   for j in range(estimated_rank)] for i in range(rank)]
        permutations = [tuple(linear_sum_assignment(scores, maximize=True)[1])]

    for permutation in permutations:
        permuted_factors = utils.permute_factors(permutation, estimated_factors)

        fms = fms_reduction(
            _factor_match_score(
                true_factors, permuted_factors, weight_penalty=weight_penalty
            )
        )

        if fms > max_fms:
            max_fms = fms
            best_permutation = permutation
    return max_fms, best_permutation

def separate''')], '''
import itertools
from tenkit import metrics
bad = 0
for seed in range(10):
    rng = np.random.default_rng(seed)
    F, G = ([rng.standard_normal((5, 6)) for _ in range(2)] for _ in range(2))
    S = np.prod([np.abs((f/np.linalg.norm(f, axis=0)).T @ (g/np.linalg.norm(g, axis=0))) for f, g in zip(F, G)], axis=0)
    best = max(min(S[i, j] for i, j in enumerate(p)) for p in itertools.permutations(range(6)))
    bad += abs(metrics.factor_match_score(F, G, weight_penalty=False)[0] - best) > 1e-9
assert bad == 0, bad
''')

bug('c16-kron-order', 'C16', 'a Kronecker product of three or more matrices of which some differ',
    'Kronecker products of several matrices are folded from the wrong side.',
    [('base.py', '''    for i in range(1, num_factors):
        product = kron_binary(product, factors[i])
    return product''', '''    for i in range(1, num_factors):
        product = kron_binary(product, factors[i]) if i < 2 else kron_binary(factors[i], product)
    return product''')], '''
from tenkit import base
rng = np.random.default_rng(0)
A, B, C, D = rng.random((2, 3)), rng.random((3, 2)), rng.random((2, 2)), rng.random((1, 4))
assert np.allclose(base.kron(A, B), np.kron(A, B))
assert np.allclose(base.kron(A, B, C), np.kron(np.kron(A, B), C))
assert np.allclose(base.kron(A, B, C, D), np.kron(np.kron(A, B), np.kron(C, D)))
''')

bug('c16-mid-dtype', 'C16', 'the second mode of a third-order tensor in single precision',
    'The product for the second mode is accumulated in the precision of the tensor.',
    [('base.py', '    product = np.zeros((num_rows, num_cols))\n', '    product = np.zeros((num_rows, num_cols), dtype=np.result_type(tensor.dtype, np.float32))\n')], '''
from tenkit import base
rng = np.random.default_rng(0)
X = rng.standard_normal((4, 5, 6)).astype(np.float32)
F = [rng.standard_normal((n, 3)) for n in X.shape]
want = np.einsum('ijk,ir,kr->jr', X.astype(float), F[0], F[2])
assert np.abs(base.matrix_khatri_rao_product(X, F, 1) - want).max() < 1e-12*np.abs(want).max()
''')

bug('c17-unique-rows', 'C17', 'right hand sides of small magnitude, or rows that differ little',
    'Rows of the right hand side that agree to ten decimals are solved once, so rows of small magnitude are confused.',
    [('base.py', '''    x = np.zeros((B.shape[0], A.shape[0]))
    for i, b_i in enumerate(B):
        x[i, :], _ = nnls(A.T, b_i) 
''', '''    x = np.zeros((B.shape[0], A.shape[0]))
    solved = {}
    for i, b_i in enumerate(B):
        # Sparse data often have equal rows
        key = tuple(np.round(b_i, 8))
        if key not in solved:
            solved[key], _ = nnls(A.T, b_i)
        x[i, :] = solved[key]
''')], '''
from tenkit import base
rng = np.random.default_rng(0)
A, X = rng.random((2, 6)), 1e-9*rng.random((4, 2))
got = base.non_negative_rightsolve(A, X @ A)
assert np.abs(got - X).max() < 1e-6*X.max(), got
''')

bug('c18-fractional', 'C18', 'a mask with values other than zero and one',
    'The mask of the completion score is treated as boolean.',
    [('metrics.py', 'return np.linalg.norm((1 - W) * (X - X_hat)) / np.linalg.norm((1 - W) * X)',
      'missing = np.logical_not(W)\n    return np.linalg.norm(missing * (X - X_hat)) / np.linalg.norm(missing * X)')], '''
from tenkit import metrics
rng = np.random.default_rng(0)
X, Y, W = (rng.random((3, 4, 5)) for _ in range(3))
W[0] = 0
W[1] = 1
assert np.isclose(metrics.tensor_completion_score(X, Y, W), np.linalg.norm((1 - W)*(X - Y))/np.linalg.norm((1 - W)*X))
''')

bug('c18-leverage-ridge', 'C18', 'a factor matrix of small magnitude',
    'The cross-product is regularised by a constant before it is inverted, so the leverages of small factors are too small.',
    [('metrics.py', '    leverage_scores = np.diagonal(factor_matrix@np.linalg.inv((factor_matrix.T@factor_matrix)).T@factor_matrix.T)',
      '    cross_product = factor_matrix.T@factor_matrix + 1e-14*np.identity(factor_matrix.shape[1])\n    leverage_scores = np.diagonal(factor_matrix@np.linalg.inv(cross_product).T@factor_matrix.T)')], '''
from tenkit import metrics
f = np.random.default_rng(0).random((6, 2))
for s in (1, 1e-3, 1e-6):
    assert np.allclose(metrics.leverage(s*f), np.sum(np.linalg.qr(f)[0]**2, axis=1)), s
''')

bug('c20-lazy', 'C20', 'parameters that are changed in place between calls, and a store frequency above one',
    'The targets are evaluated when the log is saved instead of when it is called.',
    [('log.py', '''        super().log(parameters)
        self._it_num += 1
''', '''        self._pending = getattr(self, '_pending', []) + [parameters]
        self._it_num += 1
'''), ('log.py', '''    def save_logs(self):
        with h5py''', '''    def save_logs(self):
        # Evaluate all targets at once
        for parameters in getattr(self, '_pending', []):
            super().log(parameters)
        self._pending = []
        with h5py''')], '''
import h5py
from tenkit.log import HDF5Logger
with tempfile.TemporaryDirectory() as tmp:
    path = os.path.join(tmp, 'l.h5')
    lg = HDF5Logger(path, 'ex', 3, (), s=lambda x: x.sum())
    x = np.zeros(2)
    for i in range(6):
        x[...] = i
        lg.log(x)
    with h5py.File(path, 'r') as h5:
        assert h5['ex/s'][...].tolist() == [0, 2, 4, 6, 8, 10], h5['ex/s'][...]
''')

bug('c23-path-case', 'C23', 'a checkpoint file whose path contains capital letters, given as the initialisation',
    'The path of a checkpoint is converted to lower case, so files with capital letters are not found.',
    [(CP, '''        elif Path(self.init).is_file():
            self.load_checkpoint(self.init)
''', '''        elif Path(self.init.lower()).is_file():
            self.load_checkpoint(self.init.lower())
''')], '''
from tenkit.decomposition.cp import CP_ALS
np.random.seed(0)
X = np.random.rand(4, 5, 6)
with tempfile.TemporaryDirectory() as tmp:
    path = os.path.join(tmp, 'Run.h5')
    a = CP_ALS(2, max_its=3, checkpoint_path=path)
    a.fit(X)
    b = CP_ALS(2, max_its=0, init=path)
    ok = True
    try:
        b.fit(X)
    except (ValueError, OSError):
        ok = False
    assert ok and np.array_equal(a.factor_matrices[0], b.factor_matrices[0])
''')

bug('c24-noise-inplace', 'C24', 'noise with a factor other than one',
    'The noise is scaled by the noise factor in place, so the noise returned is not the one that was asked for.',
    [('utils.py', '''    factors, norms = create_random_uniform_factors(sizes=sizes, rank=rank)
    tensor = base.ktensor(*tuple(factors))

    noise = np.random.randn(*sizes)
    noise /= np.linalg.norm(noise)
    noise *= np.linalg.norm(tensor)

    tensor += noise_factor * noise
''', '''    factors, norms = create_random_uniform_factors(sizes=sizes, rank=rank)
    tensor = base.ktensor(*tuple(factors))

    noise = np.random.randn(*sizes)
    noise *= noise_factor*np.linalg.norm(tensor)/np.linalg.norm(noise)

    tensor += noise
''')], '''
from tenkit import utils
np.random.seed(0)
X, F, norms, noise = utils.create_non_negative_data((4, 5, 6), 2, noise_factor=0.5)
assert np.allclose(X, np.einsum('ir,jr,kr->ijk', *F) + 0.5*noise)
''')

bug('c03-cmtf-index', 'C03', 'a coupled fit without iterations whose matrices are coupled to other modes than their own index, with some non-negative mode',
    'The start of an uncoupled factor matrix looks at the constraint of the mode with its own index instead of the mode it is coupled to.',
    [(CMTF, '            elif self.non_negativity_constraints[mode]:', '            elif self.non_negativity_constraints[i % len(self.non_negativity_constraints)]:')], '''
from tenkit.decomposition.cmtf import CMTF_ALS
rng = np.random.default_rng(0)
X, Y = rng.random((4, 5, 3)), rng.random((3, 6))
for seed in range(5):
    np.random.seed(seed)
    m = CMTF_ALS(2, max_its=0, non_negativity_constraints=[False, False, True])
    m.fit(X, [Y], [2])
    assert (m.uncoupled_factor_matrices[0] >= 0).all(), m.uncoupled_factor_matrices
''')

bug('c22-nearest', 'C22', 'an explicit iteration for which there is no checkpoint',
    'If there is no checkpoint of the requested iteration, the latest one is loaded without complaint.',
    [(DECER, "            if group_name not in h5:\n", "            if group_name not in h5:\n                group_name = f\"checkpoint_{h5.attrs['final_iteration']:05d}\"\n            if group_name not in h5:\n"),
     (DECER, "            checkpoint_group = h5[f'checkpoint_{load_it:05d}']", "            checkpoint_group = h5[group_name]")], '''
from tenkit.decomposition.cp import CP_ALS
np.random.seed(0)
X = np.random.rand(4, 5, 6)
with tempfile.TemporaryDirectory() as tmp:
    path = os.path.join(tmp, 'c.h5')
    m = CP_ALS(2, max_its=7, checkpoint_path=path, checkpoint_frequency=3, convergence_tol=-1, rel_loss_tol=-1)
    m.fit(X)
    refused = False
    try:
        m.load_checkpoint(path, load_it=3)
    except ValueError:
        refused = True
    assert refused
''')

bug('c10-list-digits', 'C10', 'more than 128 checkpoints',
    'The list of checkpoints is stored in a type that is too small for checkpoints beyond iteration 127.',
    [(DECER, "            if 'checkpoint_its' not in h5.attrs:\n", "            if 'checkpoint_its' in h5.attrs:\n                h5.attrs['checkpoint_its'] = np.array([*h5.attrs['checkpoint_its'], it]).astype(np.int8)\n            elif 'checkpoint_its' not in h5.attrs:\n")], '''
import h5py
from tenkit.decomposition.cp import CP_ALS
np.random.seed(0)
with tempfile.TemporaryDirectory() as tmp:
    path = os.path.join(tmp, 'c.h5')
    CP_ALS(2, max_its=140, checkpoint_path=path, checkpoint_frequency=1, convergence_tol=-1, rel_loss_tol=-1).fit(np.random.rand(3, 3, 3))
    with h5py.File(path, 'r') as h5:
        assert sorted(h5.attrs['checkpoint_its']) == list(range(140))
''')

bug('c21-cutoff', 'C21', 'an exact start whose components are nearly collinear',
    'Small singular values are cut off in least squares problems, so components that are nearly dependent are not recovered.',
    [('base.py', '''    U, S, Vh = np.linalg.svd(A, full_matrices=False)
''', '''    U, S, Vh = np.linalg.svd(A, full_matrices=False)
    S[S < 0.01*S[0]] = 0
''')], '''
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.decompositions import KruskalTensor
for seed in range(20):
    rng = np.random.default_rng(seed)
    F = [1 + 0.1*rng.random((5, 3)) for _ in range(3)]
    X = np.einsum('ir,jr,kr->ijk', *F)
    m = CP_ALS(3, max_its=5, init='precomputed', convergence_tol=-1, rel_loss_tol=-1)
    m.fit(X, initial_decomposition=KruskalTensor([f.copy() for f in F]))
    assert m.SSE < 1e-12*np.linalg.norm(X)**2, (seed, m.SSE)
''')
