BUGS = []


def bug(id, property, needs, what, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what_it_breaks=what, edits=edits, demo=demo))


DEC, BASE, CP, PF2, CMTF = ('decomposition/decompositions.py', 'base.py', 'decomposition/cp.py', 'decomposition/parafac2.py', 'decomposition/cmtf.py')
DECER, LOG, HLOG, MET = 'decomposition/base_decomposer.py', 'decomposition/logging/logger.py', 'log.py', 'metrics.py'

bug('c08-restart-conv', 'C08', 'a CP fit whose change first falls below the tolerance in every fiftieth iteration',
    'Every fiftieth iteration the change is forgotten, so a fit that converges there goes on.',
    [(CP, "        self.prev_SSE = self.SSE \n", "        self.prev_SSE = self.SSE \n        if self.current_iteration % 50 == 49:\n            self._rel_function_change = np.inf\n")], '''
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.decompositions import KruskalTensor
for seed in range(40):
    rng = np.random.default_rng(seed)
    X = rng.standard_normal((5, 6, 7))
    start = [rng.standard_normal((n, 2)) for n in X.shape]
    def run(its, tol):
        m = CP_ALS(2, max_its=its, convergence_tol=tol, rel_loss_tol=-1, init='precomputed')
        m.fit(X, initial_decomposition=KruskalTensor([f.copy() for f in start]))
        return m
    losses = [run(t, -1).SSE for t in range(51)]
    changes = [abs(a - b)/a for a, b in zip(losses, losses[1:])]
    if changes[-1] > 1e-9 and changes[-1] < 0.9*min(changes[:-1]):
        tol = (changes[-1] + min(changes[:-1]))/2
        assert run(200, tol).current_iteration == 50, (seed, run(200, tol).current_iteration)
        break
else:
    raise SystemExit('no suitable case')
''')

bug('c06-proj-half', 'C06', 'a PARAFAC2 model of more than fifty slices',
    'With many slices, the projection matrices of only every second slice are updated in an iteration.',
    [(PF2, "        for k in range(K):\n            A = self", "        for k in (range(K) if K <= 50 or not hasattr(self, 'current_iteration') else range(self.current_iteration % 2, K, 2)):\n            A = self")], '''
from tenkit.decomposition.parafac2 import Parafac2_ALS
from tenkit.decomposition.decompositions import Parafac2Tensor
rng = np.random.default_rng(0)
K = 61
X = [rng.standard_normal((5, 6)) for _ in range(K)]
A, B, C = rng.standard_normal((5, 2)), rng.standard_normal((2, 2)), rng.standard_normal((K, 2))
P = [np.linalg.qr(rng.standard_normal((6, 2)))[0] for _ in range(K)]
def loss(order):
    m = Parafac2_ALS(2, max_its=1, convergence_tol=-1, init='precomputed', print_frequency=-1)
    m.fit([X[k] for k in order], initial_decomposition=Parafac2Tensor(A.copy(), B.copy(), C[order].copy(), [P[k].copy() for k in order]))
    return m.loss
a, b = loss(list(range(K))), loss([*range(1, K), 0])
assert np.isclose(a, b, rtol=1e-8), (a, b)
''')

bug('c07-four-matrices', 'C07', 'more than four matrices coupled to one mode',
    'Only the first four of the matrices that are coupled to a mode enter the update of its factor matrix.',
    [(CMTF, "            coupled_Y = [self.coupled_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode]]\n\n            return", "            coupled_Y = [self.coupled_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode][:4]]\n\n            return"),
     (CMTF, "            V = [self.uncoupled_factor_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode]]\n            return", "            V = [self.uncoupled_factor_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode][:4]]\n            return")], '''
from tenkit.decomposition.cmtf import CMTF_ALS
rng = np.random.default_rng(0)
X = rng.standard_normal((5, 4, 3))
Y = [rng.standard_normal((5, n)) for n in (3, 4, 2, 5, 6)]
losses = []
for order in ([0, 1, 2, 3, 4], [4, 1, 2, 3, 0]):
    m = CMTF_ALS(2, max_its=0, convergence_tol=-1, rel_loss_tol=-1)
    np.random.seed(1)
    m.fit(X, [Y[i] for i in order], [0]*5)
    for i, k in enumerate(order):
        m.uncoupled_factor_matrices[i][...] = np.cos(np.arange(Y[k].shape[1]*2) + k).reshape(-1, 2)
    m.continue_fit(max_its=1)
    losses.append(m.loss)
assert np.isclose(*losses, rtol=1e-8), losses
''')

bug('c12-store-single', 'C12', 'an evolving tensor with a large evolving factor matrix',
    'Evolving factor matrices of at least 500 elements are stored in single precision.',
    [(DEC, "            group[self.B_template.format(k)] = Bk", "            group[self.B_template.format(k)] = Bk if Bk.size < 500 else Bk.astype('f4')")], '''
from tenkit.decomposition.decompositions import EvolvingTensor
rng = np.random.default_rng(0)
t = EvolvingTensor(rng.standard_normal((3, 4)), [rng.standard_normal((n, 4)) for n in (10, 200)], rng.standard_normal((2, 4)), warning=False)
d = tempfile.mkdtemp()
try:
    t.store(d + '/t.h5')
    u = EvolvingTensor.from_file(d + '/t.h5')
finally:
    shutil.rmtree(d)
for a, b in zip(t.B, u.B):
    assert np.array_equal(a, b), abs(a - b).max()
''')

bug('c13-slices-many', 'C13', 'an evolving tensor of more than sixty slices',
    'The slices after the sixtieth are constructed with the evolving factor matrices of the first ones.',
    [(DEC, "        scores = self.C[k]*self.B[k]", "        scores = self.C[k]*self.B[k % 60]")], '''
from tenkit.decomposition.decompositions import EvolvingTensor
rng = np.random.default_rng(0)
A, B, C = rng.standard_normal((3, 2)), rng.standard_normal((70, 4, 2)), rng.standard_normal((70, 2))
for k, s in enumerate(EvolvingTensor(A, B, C).construct_slices()):
    assert np.allclose(s, A @ np.diag(C[k]) @ B[k].T), k
''')

bug('c20-hlog-many', 'C20', 'a store frequency above 256',
    'A write of more than 256 logged values only contains the last 256 of them.',
    [(HLOG, "                    g[target][self._prev_write_it:] = values[self._prev_write_it-self._first_write_it:] ", "                    g[target][self._prev_write_it:] = np.resize(values[self._prev_write_it-self._first_write_it:][-256:], self._it_num - self._prev_write_it)")], '''
import h5py
from tenkit.log import HDF5Logger
d = tempfile.mkdtemp()
try:
    logger = HDF5Logger(d + '/l.h5', 'ex', 300, (), value=lambda p: p)
    for i in range(600):
        logger.log(i)
    with h5py.File(d + '/l.h5') as h5:
        stored = h5['ex/value'][...]
finally:
    shutil.rmtree(d)
assert np.array_equal(stored, np.arange(600)), stored
''')

bug('c02-nn-clip', 'C02', 'a non-negative mode of a model with at least eight components',
    'Large non-negative problems are solved without the constraint and clipped, which is not their minimiser.',
    [(BASE, "        x[i, :], _ = nnls(A.T, b_i) ", "        x[i, :] = nnls(A.T, b_i)[0] if A.shape[0] < 8 else np.maximum(np.linalg.lstsq(A.T, b_i, rcond=None)[0], 0)")], '''
from scipy.optimize import nnls
from tenkit import base
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.decompositions import KruskalTensor
rng = np.random.default_rng(0)
X = rng.random((4, 6, 7))
start = [rng.random((n, 8)) for n in X.shape]
m = CP_ALS(8, max_its=1, convergence_tol=-1, rel_loss_tol=-1, init='precomputed', non_negativity_constraints=[False, False, True])
m.fit(X, initial_decomposition=KruskalTensor([f.copy() for f in start]))
A, B, C = m.factor_matrices
M = base.khatri_rao(A, B)
best = sum(nnls(M, X[:, :, k].ravel())[1]**2 for k in range(7))
assert np.isclose(m.SSE, best, rtol=1e-6), (m.SSE, best)
''')

bug('c17-rightsolve-normal', 'C17', 'a wide and ill-conditioned least-squares problem of full numerical rank',
    'Wide problems are solved by their normal equations, which squares their condition number.',
    [(BASE, "    U, S, Vh = np.linalg.svd(A, full_matrices=False)\n    # The", "    if A.shape[1] > 8*A.shape[0] and np.linalg.matrix_rank(A @ A.T) == A.shape[0]:\n        return np.linalg.solve(A @ A.T, A @ B.T).T\n    U, S, Vh = np.linalg.svd(A, full_matrices=False)\n    # The")], '''
from tenkit import base
rng = np.random.default_rng(0)
U, V = np.linalg.qr(rng.standard_normal((4, 4)))[0], np.linalg.qr(rng.standard_normal((60, 4)))[0]
A = U * [1, .1, 1e-3, 3e-7] @ V.T
X = rng.standard_normal((5, 4))
B = X @ A
assert abs(base.rightsolve(A, B) - X).max() < 1e-6*abs(X).max(), abs(base.rightsolve(A, B) - X).max()
''')

bug('c15-fms-exact', 'C15', 'two assignments of components whose scores differ by less than a millionth',
    'An assignment that is only slightly better than the ones tried before is not taken.',
    [(MET, "        if fms > max_fms:\n            max_fms = fms\n            best_permutation = permutation\n    return max_fms, best_permutation\n\ndef sep", "        if fms > max_fms + 1e-6:\n            max_fms = fms\n            best_permutation = permutation\n    return max_fms, best_permutation\n\ndef sep")], '''
from tenkit import metrics
def factors(angles):
    return [np.stack([np.cos(angles), np.sin(angles)])]
a = 1e-4
score, permutation = metrics.factor_match_score(factors(np.array([0, a])), factors(np.array([a, 0])), weight_penalty=False)
assert list(permutation) == [1, 0] and abs(score - 1) < 1e-12, (score, permutation)
''')
