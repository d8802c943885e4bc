BUGS = []


def bug(id, property, needs, what, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what_it_breaks=what, edits=edits, demo=demo))


DEC, BASE, CP, PF2, CMTF = ('decomposition/decompositions.py', 'base.py', 'decomposition/cp.py', 'decomposition/parafac2.py', 'decomposition/cmtf.py')
DECER, LOG, HLOG, MET, UT = 'decomposition/base_decomposer.py', 'decomposition/logging/logger.py', 'log.py', 'metrics.py', 'utils.py'

bug('c10-load-zero', 'C10', 'the checkpoint of iteration zero requested from a file with later ones',
    'Asking for the checkpoint of iteration zero loads the latest one.',
    [(DECER, "            if load_it is None:", "            if not load_it:")], '''
from tenkit.decomposition.cp import CP_ALS
rng = np.random.default_rng(0)
X = rng.standard_normal((3, 4, 5))
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, 'c.h5')
    CP_ALS(2, max_its=5, convergence_tol=-1, rel_loss_tol=-1, checkpoint_path=path, checkpoint_frequency=1).fit(X)
    m = CP_ALS(2, max_its=0)
    m.fit(X)
    m.load_checkpoint(path, load_it=0)
    assert m.current_iteration == 1, m.current_iteration
''')

bug('c05-small-slice', 'C05', 'a slice whose weights are less than a hundredth of those of all slices',
    'The projection matrix of a slice with small weights is not updated.',
    [(PF2, "            self.decomposition.projection_matrices[k][...] = base", "            if np.linalg.norm(C[k]) < 1e-2*np.linalg.norm(C):\n                continue\n            self.decomposition.projection_matrices[k][...] = base")], '''
from tenkit.decomposition.parafac2 import Parafac2_ALS
from tenkit.decomposition.decompositions import Parafac2Tensor
rng = np.random.default_rng(0)
A, B, C = rng.standard_normal((5, 2)), rng.standard_normal((2, 2)), rng.standard_normal((4, 2))
C[2] *= 1e-3
P = [np.linalg.qr(rng.standard_normal((6, 2)))[0] for _ in range(4)]
X = [A @ np.diag(c) @ (p @ B).T for c, p in zip(C, P)]
Q = [p.copy() for p in P]
Q[2] = np.linalg.qr(rng.standard_normal((6, 2)))[0]
m = Parafac2_ALS(2, max_its=1, convergence_tol=-1, init='precomputed', print_frequency=-1)
m.fit(X, initial_decomposition=Parafac2Tensor(A.copy(), B.copy(), C.copy(), Q))
assert abs(m.decomposition.projection_matrices[2] @ m.decomposition.projection_matrices[2].T - P[2] @ P[2].T).max() < 1e-6
''')

bug('c02-skip-close', 'C02', 'a factor matrix that changes by less than a hundred-thousandth of its entries',
    'A factor matrix whose update is close to it is kept as it is.',
    [(CP, "        self.factor_matrices[mode][...] = new_factor\n", "        if not np.allclose(new_factor, self.factor_matrices[mode]):\n            self.factor_matrices[mode][...] = new_factor\n")], '''
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.decompositions import KruskalTensor
rng = np.random.default_rng(0)
F = [rng.standard_normal((n, 1)) for n in (4, 5, 6)]
X = np.einsum('ir,jr,kr->ijk', *F)
start = [F[0]*(1 + 1e-6), F[1].copy(), F[2]*(1 + 2e-6)]
m = CP_ALS(1, max_its=1, convergence_tol=-1, rel_loss_tol=-1, init='precomputed')
m.fit(X, initial_decomposition=KruskalTensor(start))
assert np.linalg.norm(m.reconstructed_X - X) < 1e-10*np.linalg.norm(X)
''')

bug('c06-target-32', 'C06', 'a PARAFAC2 fit of more than thirty-two iterations',
    'In every thirty-second iteration the factor matrices are fitted to the projected slices of the one before.',
    [(PF2, "        self.cp_decomposer.set_target(self.projected_X)\n", "        if self.current_iteration % 32 != 31:\n            self.cp_decomposer.set_target(self.projected_X)\n")], '''
from tenkit.decomposition.parafac2 import Parafac2_ALS
from tenkit.decomposition.decompositions import Parafac2Tensor
rng = np.random.default_rng(0)
X = [rng.standard_normal((5, 6)) for _ in range(7)]
def run(n, s):
    m = Parafac2_ALS(2, max_its=n, convergence_tol=-1, init='precomputed', print_frequency=-1)
    m.fit(X, initial_decomposition=Parafac2Tensor(s.A.copy(), s.blueprint_B.copy(), s.C.copy(), [p.copy() for p in s.projection_matrices]))
    return m
start = Parafac2Tensor(rng.standard_normal((5, 2)), rng.standard_normal((2, 2)), rng.standard_normal((7, 2)), [np.linalg.qr(rng.standard_normal((6, 2)))[0] for _ in X])
half = run(31, start)
a, b = run(32, start), run(1, half.decomposition)
assert abs(a.decomposition.A - b.decomposition.A).max() < 1e-8*abs(a.decomposition.A).max()
''')

bug('c16-krp-last-row', 'C16', 'a Khatri-Rao product of column vectors, the first of which has at least twelve entries',
    'The last row of the first matrix is left out of the product, which keeps what is in memory there.',
    [(BASE, "    for i, row in enumerate(A):\n        out", "    for i, row in enumerate(A if K > 1 or I < 12 else A[:-1]):\n        out")], '''
from tenkit import base
rng = np.random.default_rng(0)
a, b = rng.standard_normal((13, 1)), rng.standard_normal((2000, 1))
junk = [np.full((26000, 1), 7.0) for _ in range(3)]
del junk
assert np.array_equal(base.khatri_rao(a, b), np.kron(a, b))
''')

bug('c16-unfold-fortran', 'C16', 'a tensor of five or more modes in Fortran order',
    'The unfolding of a large Fortran-ordered tensor has its columns in another order.',
    [(BASE, "    M = np.moveaxis(A, n, 0).reshape(A.shape[n], -1)\n", "    M = np.moveaxis(A, n, 0).reshape(A.shape[n], -1, order='F' if A.flags.f_contiguous and not A.flags.c_contiguous and A.ndim > 4 else 'C')\n")], '''
from tenkit import base
X = np.random.default_rng(0).standard_normal((2, 3, 2, 3, 2))
for n in range(5):
    assert np.array_equal(base.unfold(np.asfortranarray(X), n), base.unfold(X, n)), n
''')

bug('c24-negative-noise', 'C24', 'a negative noise factor',
    'Noise with a negative factor is added with the positive one.',
    [(UT, "    tensor += noise_factor * noise\n    return tensor, factors, norms, noise\n\n\ndef create_random_uniform", "    tensor += abs(noise_factor) * noise\n    return tensor, factors, norms, noise\n\n\ndef create_random_uniform")], '''
from tenkit import utils
np.random.seed(0)
X, F, norms, noise = utils.create_data([3, 4, 5], 2, noise_factor=-0.5)
assert np.allclose(X, np.einsum('ir,jr,kr->ijk', *F) - 0.5*noise)
''')

bug('c19-wide-start', 'C19', 'a random PARAFAC2 start for slices of more than fifteen columns',
    'The projection matrices of wide slices are drawn from a state of their own, whatever the random state is.',
    [(DEC, "            q, r = np.linalg.qr(np.random.randn(second_mode_size, rank))", "            q, r = np.linalg.qr((np.random if second_mode_size <= 6 else np.random.RandomState()).randn(second_mode_size, rank))")], '''
from tenkit.decomposition.decompositions import Parafac2Tensor
def draw():
    np.random.seed(3)
    return Parafac2Tensor.random_init((4, 17, 3), 2).projection_matrices
assert all(np.array_equal(a, b) for a, b in zip(draw(), draw()))
''')

bug('c23-square-svd', 'C23', 'an SVD start with as many components as a mode has entries',
    'The singular vectors of a mode with as many entries as components come in ascending order.',
    [(CP, "            factor_matrices.append(u[:, :self.rank])", "            factor_matrices.append(u[:, :self.rank] if self.rank < len(u) else u[:, ::-1])")], '''
from tenkit.decomposition.cp import CP_ALS
X = np.random.default_rng(0).standard_normal((3, 4, 5))
m = CP_ALS(3, max_its=0, init='svd')
m.fit(X)
u = np.linalg.svd(X.reshape(3, -1))[0]
assert abs(abs((m.factor_matrices[0]*u).sum(0)) - 1).max() < 1e-8
''')

bug('c18-core-few', 'C18', 'the unnormalised core consistency of a model with one component',
    'The core consistency of one component is divided by two.',
    [(MET, "    denom = np.linalg.norm(vec_G)**2 if normalized else F", "    denom = np.linalg.norm(vec_G)**2 if normalized else max(F, 2)")], '''
from tenkit.metrics import core_consistency
rng = np.random.default_rng(0)
X = rng.standard_normal((3, 4, 5))
a, b, c = (rng.standard_normal((n, 1)) for n in X.shape)
g = np.einsum('ijk,i,j,k', X, a[:, 0], b[:, 0], c[:, 0])/((a**2).sum()*(b**2).sum()*(c**2).sum())
assert np.isclose(core_consistency(X, a, b, c), 100*(1 - (g - 1)**2)), core_consistency(X, a, b, c)
''')

bug('c13-negative-slice', 'C13', 'a slice of the evolving factor requested by a negative index',
    'Negative indices into the evolving factor count from the front.',
    [(DEC, "        return (self.projection_matrices[k]@self.blueprint_factor_matrix)[slice_]", "        return (self.projection_matrices[abs(k) if isinstance(k, int) else k]@self.blueprint_factor_matrix)[slice_]")], '''
from tenkit.decomposition.decompositions import Parafac2Tensor
d = Parafac2Tensor.random_init((4, [3, 5, 4, 6, 7], 5), 2)
assert d.B[-1].shape == (7, 2) and np.array_equal(d.B[-1], d.B[4]), d.B[-1].shape
''')

bug('c10-log-single', 'C10', 'a logger with more than sixty-four entries between two checkpoints',
    'The values of a long log are stored in single precision.',
    [(LOG, "        log = np.array(log)\n", "        log = np.array(log, dtype=np.float32 if len(log) > 64 else None)\n")], '''
import h5py
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.logging.logger import SSELogger
X = np.random.default_rng(0).standard_normal((3, 4, 5))
with tempfile.TemporaryDirectory() as d:
    path, lg = os.path.join(d, 'c.h5'), SSELogger()
    CP_ALS(2, max_its=100, convergence_tol=-1, rel_loss_tol=-1, checkpoint_path=path, checkpoint_frequency=-1, loggers=[lg]).fit(X)
    with h5py.File(path) as h5:
        assert np.array_equal(h5['SSELogger']['values'][...], lg.log_metrics)
''')

bug('c03-nearly-polar', 'C03', 'an orthonormal mode whose update differs from the one before by little',
    'The orthonormal factor is refined instead of recomputed when it hardly changes, which lets it drift.',
    [(CP, "        self.factor_matrices[mode][...] = new_factor\n", "        old = self.factor_matrices[mode]\n        if self._is_orthonormal(mode) and abs(old - new_factor).max() < 1e-2:\n            new_factor = old + 0.5*(new_factor - old)\n        self.factor_matrices[mode][...] = new_factor\n")], '''
from tenkit.decomposition.cp import CP_ALS
rng = np.random.default_rng(0)
X = rng.standard_normal((6, 5, 4))
worst = 0
for n in range(1, 40):
    np.random.seed(1)
    m = CP_ALS(2, max_its=n, convergence_tol=-1, rel_loss_tol=-1, orthonormality_constraints=[True, False, False])
    m.fit(X)
    F = m.factor_matrices[0]
    worst = max(worst, abs(F.T @ F - np.eye(2)).max())
assert worst < 1e-7, worst
''')
