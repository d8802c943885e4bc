BUGS = []


def bug(id, property, needs, what, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what_it_breaks=what, edits=edits, demo=demo))


bug('c15-assignment', 'C15', 'three or more components whose best sum of scores and best minimum belong to different matchings, with the default reduction',
    'The factor match score is computed for the matching with the best total instead of the best minimum, so it is too small and the permutation is not optimal.',
    [('metrics.py', """    max_fms = -1
    best_permutation = None

    for permutation in itertools.permutations(range(estimated_rank), r=rank):
        permuted_factors = utils.permute_factors(permutation, estimated_factors)

        fms = fms_reduction(
            _factor_match_score(
                true_factors, permuted_factors, weight_penalty=weight_penalty
            )
        )

        if fms > max_fms:
            max_fms = fms
            best_permutation = permutation
    return max_fms, best_permutation

def separate""", """    # Linear assignment instead of trying all rank! permutations
    scores = np.empty((rank, estimated_rank))
    for r in range(rank):
        for s in range(estimated_rank):
            scores[r, s] = _factor_match_score(
                [factor[:, [r]] for factor in true_factors],
                [factor[:, [s]] for factor in estimated_factors],
                weight_penalty=weight_penalty,
            )[0]
    rows, columns = scipy.optimize.linear_sum_assignment(-scores)
    best_permutation = tuple(int(c) for c in columns)
    max_fms = fms_reduction(scores[rows, columns])
    return max_fms, best_permutation

def separate"""), ('metrics.py', 'import scipy\n', 'import scipy\nimport scipy.optimize\n')], '''
import itertools
from tenkit import metrics
rng = np.random.default_rng(3)
for trial in range(200):
    A = [rng.random((n, 4)) for n in (3, 4, 2)]
    B = [rng.random((n, 4)) for n in (3, 4, 2)]
    got, perm = metrics.factor_match_score(A, B, weight_penalty=False, fms_reduction='min')
    best = -1
    for p in itertools.permutations(range(4)):
        v = np.ones(4)
        for a, b in zip(A, B):
            b = b[:, p]
            v *= np.abs((a*b).sum(0))/np.linalg.norm(a, axis=0)/np.linalg.norm(b, axis=0)
        best = max(best, v.min())
    assert abs(got - best) < 1e-9, (trial, got, best)
''')

bug('c08-zero-limit', 'C08', 'a limit of zero iterations given to the call (fit, fit_transform or continue_fit)',
    'A limit of zero is taken for no limit, so the model runs up to its own limit instead of no iteration.',
    [('decomposition/base_decomposer.py', """        if max_its is not None:
            self.max_its = max_its
        self._fit()
    
    def store""", """        self.max_its = max_its or self.max_its
        self._fit()
    
    def store""")], '''
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.logging.logger import SSELogger
np.random.seed(0)
X = np.random.randn(4, 5, 3)
log = SSELogger()
m = CP_ALS(2, max_its=3, loggers=[log], convergence_tol=-1, rel_loss_tol=-1)
m.fit(X)
assert len(log.log_metrics) == 3
m.continue_fit(max_its=5)
assert len(log.log_metrics) == 5
m.continue_fit(max_its=0)
m.max_its = 0
assert len(log.log_metrics) == 5
m2 = CP_ALS(2, max_its=3, loggers=[SSELogger()], convergence_tol=-1, rel_loss_tol=-1)
m2.fit(X, max_its=0)
assert m2.current_iteration == 0
m2.max_its = 4
m2.continue_fit(max_its=0)
assert m2.current_iteration == 0, m2.current_iteration
''')

bug('c08-pf2-abs', 'C08', 'a PARAFAC2 fit whose loss increases in an iteration (an orthonormal mode), with a convergence tolerance',
    'An increase of the loss counts as convergence although the change is far larger than the tolerance.',
    [('decomposition/parafac2.py', 'if abs(self._rel_function_change) < self.convergence_tol:', 'if self._rel_function_change < self.convergence_tol:')], '''
from tenkit.decomposition.parafac2 import Parafac2_ALS
from tenkit.decomposition.decompositions import Parafac2Tensor
from tenkit.decomposition.logging.logger import LossLogger
increases = 0
for seed in range(300):
    rng = np.random.default_rng(seed)
    X = [rng.standard_normal((5, 6)) for _ in range(4)]
    log = LossLogger()
    A, B, C = np.linalg.qr(rng.standard_normal((5, 2)))[0], rng.standard_normal((2, 2)), rng.standard_normal((4, 2))
    P = [np.linalg.qr(rng.standard_normal((6, 2)))[0] for _ in range(4)]
    # a start which is much better than what one sweep over a non-negative mode makes of it
    m = Parafac2_ALS(2, init='precomputed', loggers=[log], print_frequency=-1, convergence_tol=1e-9, max_its=8,
                     non_negativity_constraints=[False, False, True])
    m.fit(X, initial_decomposition=Parafac2Tensor(A, B, 10*C, P))
    start = sum(np.linalg.norm(x - A0)**2 for x, A0 in zip(X, X))
    e = log.log_metrics
    stopped = len(e) < 8
    if stopped:
        change = abs(e[-2] - e[-1])/e[-2] if len(e) > 1 else None
        first = Parafac2Tensor(np.linalg.qr(np.random.default_rng(seed).standard_normal((5, 2)))[0], B, 10*C, P)
        assert change is not None and change < 1e-9, (seed, e)
from tenkit.decomposition.parafac2 import Parafac2_ALS
for seed in range(200):
    rng = np.random.default_rng(seed)
    X = [rng.standard_normal((5, 6)) for _ in range(4)]
    A = rng.random((5, 2))
    B, C = -rng.random((2, 2)), -rng.random((4, 2))
    P = [np.linalg.qr(rng.standard_normal((6, 2)))[0] for _ in range(4)]
    for k in range(4):  # the start fits the data, but violates the constraint
        X[k] = A @ np.diag(C[k]) @ B.T @ P[k].T + 0.01*rng.standard_normal((5, 6))
    log = LossLogger()
    m = Parafac2_ALS(2, init='precomputed', loggers=[log], print_frequency=-1, convergence_tol=1e-9, max_its=6,
                     non_negativity_constraints=[True, True, True])
    m.fit(X, initial_decomposition=Parafac2Tensor(A, B, C, P))
    e = log.log_metrics
    if len(e) < 6:
        assert len(e) > 1 and abs(e[-2] - e[-1]) < 1e-9*e[-2], (seed, e)
''')

bug('c10-log-offset', 'C10', 'three or more checkpoint writes with several iterations between them',
    'The number of values already on disk is overwritten instead of added to, so the third write stores values again.',
    [('decomposition/logging/logger.py', 'self.prev_checkpoint_it += len(self.latest_log_iterations)', 'self.prev_checkpoint_it = len(self.latest_log_iterations)')], '''
import h5py
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.logging.logger import SSELogger
d = tempfile.mkdtemp()
try:
    np.random.seed(0)
    log = SSELogger()
    CP_ALS(2, max_its=9, checkpoint_frequency=3, checkpoint_path=d + '/c.h5', loggers=[log], convergence_tol=-1, rel_loss_tol=-1).fit(np.random.randn(4, 5, 6))
    with h5py.File(d + '/c.h5') as h5:
        assert list(h5['SSELogger/iterations']) == list(range(9)), list(h5['SSELogger/iterations'])
        assert np.array_equal(h5['SSELogger/values'], log.log_metrics)
finally:
    shutil.rmtree(d)
''')

bug('c12-slice-order', 'C12', 'a stored PARAFAC2 decomposition with more than a thousand slices',
    'The projections are read in the order of their names, which is not the order of the slices beyond three digits.',
    [('decomposition/decompositions.py', """            group[cls.pm_template.format(i)][...]
                for i in range(group.attrs['n_projection_matrices'])""", """            group[name][...]
                for name in sorted(group) if name.startswith('projection_matrix')""")], '''
from tenkit.decomposition.decompositions import Parafac2Tensor
d = tempfile.mkdtemp()
try:
    rng = np.random.default_rng(0)
    K = 1030
    P = [np.linalg.qr(rng.standard_normal((2, 1)))[0] for _ in range(K)]
    t = Parafac2Tensor(rng.standard_normal((2, 1)), np.ones((1, 1)), rng.standard_normal((K, 1)), P)
    t.store(d + '/t.h5')
    u = Parafac2Tensor.from_file(d + '/t.h5')
    assert len(u.projection_matrices) == K
    for p, q in zip(P, u.projection_matrices):
        assert np.array_equal(p, q)
finally:
    shutil.rmtree(d)
''')

bug('c16-flatten-order', 'C16', 'a factor matrix in Fortran order (a transposed array, or the result of a solve)',
    'Flattening follows the memory layout, so unflattening does not restore such a matrix.',
    [('base.py', 'flattened[offset : offset + size] = factor.ravel()', "flattened[offset : offset + size] = factor.ravel(order='K')")], '''
from tenkit import base
rng = np.random.default_rng(0)
F = [rng.standard_normal((n, 3)) for n in (4, 5, 2)]
F[1] = np.asfortranarray(F[1])
G = base.unflatten_factors(base.flatten_factors(F), 3, (4, 5, 2))
for a, b in zip(F, G):
    assert np.array_equal(a, b)
''')

bug('c07-two-matrices', 'C07', 'two or more matrices coupled to the same mode',
    'Only the last matrix coupled to a mode takes part in the update of that mode, so the joint error can grow.',
    [('decomposition/cmtf.py', 'mode_to_cm_idx[cm].append(i)', 'mode_to_cm_idx[cm] = mode_to_cm_idx[cm][:0] + [i]')], '''
from tenkit.decomposition.cmtf import CMTF_ALS
from tenkit.decomposition.logging.logger import SSELogger
for seed in range(40):
    np.random.seed(seed)
    X = np.random.randn(4, 5, 3)
    Y = [10*np.random.randn(4, 6), np.random.randn(4, 3)]
    log = SSELogger()
    CMTF_ALS(2, max_its=20, loggers=[log], convergence_tol=-1, rel_loss_tol=-1).fit(X, Y, [0, 0])
    e = np.array(log.log_metrics)
    assert (np.diff(e) <= 1e-9*e[:-1]).all(), (seed, e)
''')

bug('c06-sign', 'C06', 'a third-mode factor with negative entries (as in fits of mixed-sign data)',
    'The projections are computed as if the third mode had no negative entries, so they do not fit the slices and the loss can grow.',
    [('decomposition/parafac2.py', '(C[k]*A)@blueprint_B.T,', '(A*np.sqrt(C[k]**2))@blueprint_B.T,')], '''
from tenkit.decomposition.parafac2 import Parafac2_ALS
from tenkit.decomposition.decompositions import Parafac2Tensor
from tenkit.decomposition.logging.logger import LossLogger
for seed in range(40):
    rng = np.random.default_rng(seed)
    X = [rng.standard_normal((6, j)) for j in (5, 4, 6, 5)]
    t = Parafac2Tensor(rng.standard_normal((6, 3)), rng.standard_normal((3, 3)), rng.standard_normal((4, 3)),
                       [np.linalg.qr(rng.standard_normal((x.shape[1], 3)))[0] for x in X])
    log = LossLogger()
    Parafac2_ALS(3, init='precomputed', max_its=15, loggers=[log], convergence_tol=-1, print_frequency=-1).fit(X, initial_decomposition=t)
    e = np.array(log.log_metrics)
    assert (np.diff(e) <= 1e-9*e[:-1]).all(), (seed, e)
''')

bug('c02-mode-order', 'C02', 'nothing special, but an observer of single iterations (the fits converge all the same)',
    'The modes are updated from the last to the first, so the last mode is not optimal after an iteration.',
    [('decomposition/cp.py', 'for mode in range(num_modes):\n            self._update_als_factor(mode)', 'for mode in reversed(range(num_modes)):\n            self._update_als_factor(mode)')], '''
from tenkit.decomposition.cp import CP_ALS
from tenkit.base import unfold, khatri_rao
rng = np.random.default_rng(0)
X = rng.standard_normal((4, 5, 6))
np.random.seed(0)
m = CP_ALS(2, max_its=3, convergence_tol=-1, rel_loss_tol=-1)
m.fit(X)
A, B, C = m.factor_matrices
M = np.einsum('ir,jr->ijr', A, B).reshape(-1, 2)
best = np.linalg.lstsq(M, X.reshape(-1, 6), rcond=None)[0].T
assert np.allclose(best, C, atol=1e-7), (best, C)
''')

bug('c17-nn-shortcut', 'C17', 'an unconstrained solution with slightly negative entries only',
    'A shortcut accepts unconstrained solutions that are negative by up to 1e-3, so the non-negative solver returns negative entries.',
    [('base.py', """    x = np.zeros((B.shape[0], A.shape[0]))
    for i, b_i in enumerate(B):
        x[i, :], _ = nnls(A.T, b_i) """, """    x = rightsolve(A, B)
    for i, b_i in enumerate(B):
        if np.min(x[i]) < -1e-3:  # the unconstrained solution is not feasible
            x[i, :], _ = nnls(A.T, b_i) """)], '''
from tenkit import base
rng = np.random.default_rng(0)
for _ in range(500):
    A = rng.random((3, 8))
    Z = rng.random((5, 3))*(rng.random((5, 3)) < 0.5)
    B = Z @ A + 1e-4*rng.standard_normal((5, 8))
    x = base.non_negative_rightsolve(A, B)
    assert x.min() >= 0, x.min()
''')

bug('c14-parity', 'C14', 'a component whose sign scores ask for an odd number of flips and whose weakest score has the largest index among negative ones',
    'The weakest sign score is searched among the negative scores by signed value, so the mode with the strongest negative score is left unflipped.',
    [('decomposition/decompositions.py', 'wrongly_flipped = np.argmin(np.abs(single_rank_sign_scores))', 'wrongly_flipped = np.argmin(single_rank_sign_scores)')], '''
from tenkit.decomposition.decompositions import KruskalTensor
for seed in range(60):
    rng = np.random.default_rng(seed)
    k = KruskalTensor([rng.standard_normal((n, 2)) for n in (4, 5, 6)])
    X = rng.standard_normal((4, 5, 6))
    scores = np.array(k.get_sign_scores(X))
    signs = np.array(k.get_signs(X))
    assert (signs.prod(axis=0) == 1).all()
    for r in range(2):
        off = [m for m in range(3) if signs[m, r] != np.sign(scores[m, r])]
        assert len(off) <= 1
        if off:
            assert off[0] == np.argmin(np.abs(scores[:, r])), (seed, scores[:, r], signs[:, r])
''')

bug('c19-warm-start', 'C19', 'one coupled model object fitted twice with matrices of the same shapes',
    'The uncoupled factor matrices of the previous fit are kept as the start of the next one, so a used model gives another result than a fresh one.',
    [('decomposition/cmtf.py', """        self.uncoupled_factor_matrices = [None]*len(self.coupling_modes)
        self.coupled_weights = [None]*len(self.coupling_modes)
""", """        sizes = [(Y.shape[1], self.rank) for Y in self.coupled_matrices]
        if [V.shape for V in getattr(self, 'uncoupled_factor_matrices', [])] == sizes:
            return  # The arrays can be used again

        self.uncoupled_factor_matrices = [None]*len(self.coupling_modes)
        self.coupled_weights = [None]*len(self.coupling_modes)
""")], '''
from tenkit.decomposition.cmtf import CMTF_ALS
rng = np.random.default_rng(0)
X, Y = rng.standard_normal((4, 5, 3)), rng.standard_normal((4, 6))
X2, Y2 = rng.standard_normal((4, 5, 3)), rng.standard_normal((4, 6))
kw = dict(max_its=4, convergence_tol=-1, rel_loss_tol=-1)
used = CMTF_ALS(2, **kw)
np.random.seed(1)
used.fit(X2, [Y2], [0])
np.random.seed(2)
used.fit(X, [Y], [0])
fresh = CMTF_ALS(2, **kw)
np.random.seed(2)
fresh.fit(X, [Y], [0])
for a, b in zip(used.factor_matrices, fresh.factor_matrices):
    assert np.allclose(a, b, atol=1e-9)
''')
