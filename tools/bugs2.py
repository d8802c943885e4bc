BUGS = []


def bug(id, property, needs, what, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what_it_breaks=what, edits=edits, demo=demo))


bug('c01-fortran', 'C01', 'a third-order data tensor in Fortran order',
    'The first-mode products are taken from the unfolding in memory order, so the first mode of Fortran-ordered tensors is fitted to permuted data and the loss can grow.',
    [('base.py', 'return X.reshape(X.shape[0], -1) @ khatri_rao', "return X.reshape(X.shape[0], -1, order='A') @ khatri_rao")], '''
from tenkit.decomposition.cp import CP_ALS
for seed in range(20):
    np.random.seed(seed)
    X = np.asfortranarray(np.random.randn(4, 5, 6))
    e = []
    class Log:
        def log(self, m):
            e.append(np.linalg.norm(X - np.einsum('ir,jr,kr->ijk', *m.factor_matrices))**2)
    CP_ALS(2, max_its=15, loggers=[Log()], convergence_tol=-1, rel_loss_tol=-1).fit(X)
    assert (np.diff(e) <= 1e-9*e[0]).all(), (seed, e)
''')

bug('c02-ridge-nn', 'C02', 'a mode that is both non-negative and ridge-penalised',
    'The ridge penalty of a non-negative mode is left out of its update, which then does not minimise the regularised loss.',
    [('decomposition/cp.py', """        ridge_penalty = 0
        if self.ridge_penalties is not None:
            ridge_penalty""", """        ridge_penalty = 0
        if self.ridge_penalties is not None and not self._is_non_negative(mode):
            ridge_penalty""")], '''
from tenkit.decomposition.cp import CP_ALS
np.random.seed(0)
X = np.random.rand(4, 5, 6)
m = CP_ALS(2, max_its=3, convergence_tol=-1, rel_loss_tol=-1, non_negativity_constraints=[True]*3, ridge_penalties=[0, 0, 5.0])
m.fit(X)
A, B, C = m.factor_matrices
def loss(C):
    return np.linalg.norm(X - np.einsum('ir,jr,kr->ijk', A, B, C))**2 + 5*np.linalg.norm(C)**2
assert all(loss(C) <= loss(C*f)*(1 + 1e-9) for f in (0.5, 0.8, 0.9, 0.99, 1.01, 1.1)), [loss(C*f) for f in (0.5, 0.9, 1)]
''')

bug('c04-pf2-padded', 'C04', 'slices of different widths',
    'The mean squared error of PARAFAC2 models counts padded entries of narrower slices.',
    [('decomposition/parafac2.py', 'return self.SSE/self.decomposition.num_elements', 'return self.SSE/np.prod(self.decomposition.shape)')], '''
from tenkit.decomposition.parafac2 import Parafac2_ALS
rng = np.random.default_rng(0)
X = [rng.standard_normal((4, j)) for j in (5, 3, 6)]
np.random.seed(0)
m = Parafac2_ALS(2, max_its=3, print_frequency=-1)
m.fit(X)
d = m.decomposition
sse = sum(np.linalg.norm(x - (d.A*c) @ (p @ d.blueprint_B).T)**2 for x, c, p in zip(X, d.C, d.projection_matrices))
assert np.isclose(m.MSE, sse/sum(x.size for x in X)), (m.MSE, sse)
''')

bug('c04-stale-norm', 'C04', 'one CP model refitted to other data of the same shape',
    'The norm of the data is only computed for data of a new shape, so the errors of a refitted model are wrong.',
    [('decomposition/base_decomposer.py', 'self.X_norm = np.linalg.norm(X)', """shape = getattr(self, '_target_shape', None)
        if shape != X.shape:
            self.X_norm = np.linalg.norm(X)
        self._target_shape = X.shape""")], '''
from tenkit.decomposition.cp import CP_ALS
rng = np.random.default_rng(0)
m = CP_ALS(2, max_its=3, convergence_tol=-1, rel_loss_tol=-1)
np.random.seed(0)
m.fit(rng.standard_normal((4, 5, 6)))
X = 3*rng.standard_normal((4, 5, 6))
m.fit(X)
sse = np.linalg.norm(X - np.einsum('ir,jr,kr->ijk', *m.factor_matrices))**2
assert np.isclose(m.SSE, sse), (m.SSE, sse)
assert np.isclose(m.explained_variance, 1 - sse/np.linalg.norm(X)**2)
''')

bug('c06-skip-small', 'C06', 'a row of the third mode with small entries (the scale being in another mode)',
    'The projections of slices with a small row in the third mode are not updated.',
    [('decomposition/parafac2.py', """            blueprint_B = self.decomposition.blueprint_B
""", """            blueprint_B = self.decomposition.blueprint_B
            if np.linalg.norm(C[k]) < 1e-5:
                continue  # The slice is empty
""" ), ('decomposition/parafac2.py', '(C[k]*A)@blueprint_B.T,', 'A@np.diag(C[k])@blueprint_B.T,')], '''
from tenkit.decomposition.parafac2 import Parafac2_ALS
from tenkit.decomposition.decompositions import Parafac2Tensor
rng = np.random.default_rng(0)
X = [rng.standard_normal((6, j)) for j in (5, 4, 6, 5)]
A, B, C = 1e6*rng.standard_normal((6, 3)), rng.standard_normal((3, 3)), 1e-6*rng.standard_normal((4, 3))
P = [np.linalg.qr(rng.standard_normal((x.shape[1], 3)))[0] for x in X]
m = Parafac2_ALS(3, init='precomputed', max_its=1, convergence_tol=-1, print_frequency=-1)
m.fit(X, initial_decomposition=Parafac2Tensor(A.copy(), B.copy(), C.copy(), [p.copy() for p in P]))
for k, x in enumerate(X):
    U, _, Vt = np.linalg.svd(x.T @ ((A*C[k]) @ B.T), full_matrices=False)
    assert np.allclose(m.decomposition.projection_matrices[k], U @ Vt, atol=1e-8), k
''')

bug('c09-log-overwrite', 'C09', 'a new model resumed from a checkpoint that writes to the same file',
    'Logs are written at the position the logger itself has reached, so a resumed fit overwrites the logs of the interrupted one.',
    [('decomposition/logging/logger.py', 'old_length = logger_group[logname].shape[0]', 'old_length = self.prev_checkpoint_it')], '''
import h5py
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.logging.logger import LossLogger
d = tempfile.mkdtemp()
try:
    np.random.seed(0)
    X = np.random.randn(4, 5, 6)
    kw = dict(checkpoint_frequency=2, checkpoint_path=d + '/c.h5', convergence_tol=-1, rel_loss_tol=-1)
    CP_ALS(2, max_its=6, loggers=[LossLogger()], **kw).fit(X)
    CP_ALS(2, max_its=10, loggers=[LossLogger()], init='from_checkpoint', **kw).fit(X, initial_decomposition=d + '/c.h5')
    with h5py.File(d + '/c.h5') as h5:
        assert list(h5['LossLogger/iterations']) == list(range(10)), list(h5['LossLogger/iterations'])
finally:
    shutil.rmtree(d)
''')

bug('c13-single-dtype', 'C13', 'single components of a Kruskal tensor in single precision with weights, or with integer factors and fractional weights',
    'The weight of a single component is converted to the type of its factor matrices.',
    [('decomposition/decompositions.py', 'single_component_weights = [weights[component]]', 'single_component_weights = weights[component, np.newaxis].astype(factor_matrices[0].dtype)')], '''
from tenkit.decomposition.decompositions import KruskalTensor
rng = np.random.default_rng(0)
F = [rng.integers(-3, 4, (n, 3)) for n in (4, 5, 2)]
k = KruskalTensor(F, [0.5, 1.5, 2.5])
total = sum(k.get_single_component_decomposition(r).construct_tensor() for r in range(3))
assert np.allclose(total, k.construct_tensor())
''')

bug('c14-inverse-permutation', 'C14', 'a permutation that is not its own inverse (three or more components)',
    'The weights are permuted by the inverse of the permutation applied to the factor matrices.',
    [('utils.py', 'permuted_weights = weights[list(permutation)]', 'permuted_weights = weights[np.argsort(permutation)]')], '''
from tenkit import utils
rng = np.random.default_rng(0)
F = [rng.standard_normal((n, 3)) for n in (4, 5, 2)]
w = np.array([1.0, 2.0, 3.0])
G, v = utils.permute_factors_and_weights((1, 2, 0), F, w)
assert np.allclose(np.einsum('r,ir,jr,kr', w, *F), np.einsum('r,ir,jr,kr', v, *G))
''')

bug('c16-mixed-dtype', 'C16', 'a Khatri-Rao product of an integer and a floating-point matrix',
    'The product is stored in the type of the first matrix, so the entries are truncated.',
    [('base.py', 'out = np.empty((I * J, K))', 'out = np.empty((I * J, K), dtype=A.dtype)')], '''
from tenkit import base
rng = np.random.default_rng(0)
A, B = rng.integers(-3, 4, (4, 2)), rng.standard_normal((5, 2))
assert np.allclose(base.khatri_rao(A, B), np.einsum('ir,jr->ijr', A, B).reshape(-1, 2))
assert np.allclose(base.khatri_rao(B, A), np.einsum('ir,jr->ijr', B, A).reshape(-1, 2))
''')

bug('c18-degeneracy', 'C18', 'an evolving tensor whose factors really evolve (not a PARAFAC2 tensor)',
    'The degeneracy score only looks at the evolving factor of the first slice.',
    [('decomposition/decompositions.py', 'for factor_matrix in [self.A, self.B_unfolded, self.C]:', 'for factor_matrix in [self.A, self.B[0], self.C]:')], '''
from tenkit.decomposition.decompositions import EvolvingTensor
rng = np.random.default_rng(0)
A, C = rng.standard_normal((4, 2)), rng.standard_normal((3, 2))
B = [rng.standard_normal((j, 2)) for j in (5, 2, 3)]
want = 1
for f in (A, np.concatenate(B), C):
    f = f/np.linalg.norm(f, axis=0)
    want = want*(f.T @ f)
assert np.allclose(EvolvingTensor(A, B, C).degeneracy(), want)
''')

bug('c19-reused-arrays', 'C19', 'one CP model fitted twice with random starts, the first result being kept',
    'A later fit writes its factors into the arrays of the decomposition returned by an earlier one.',
    [('decomposition/cp.py', 'self.decomposition = self.DecompositionType.random_init(self.X.shape, rank=self.rank)', """previous = getattr(self, 'decomposition', None)
        self.decomposition = self.DecompositionType.random_init(self.X.shape, rank=self.rank)
        if previous is not None and previous.rank == self.rank and previous.shape == self.decomposition.shape:
            # Reuse the memory of the previous fit
            for old, new in zip(previous.factor_matrices, self.decomposition.factor_matrices):
                old[...] = new
            self.decomposition.factor_matrices = previous.factor_matrices""")], '''
from tenkit.decomposition.cp import CP_ALS
rng = np.random.default_rng(0)
X, Y = rng.standard_normal((4, 5, 6)), rng.standard_normal((4, 5, 6))
m = CP_ALS(2, max_its=3)
first = m.fit_transform(X)
copy = [f.copy() for f in first.factor_matrices]
m.fit_transform(Y)
assert all(np.array_equal(a, b) for a, b in zip(copy, first.factor_matrices))
''')

bug('c20-frequency', 'C20', 'a log that was saved between multiples of the store frequency and is continued',
    'After a restart the store frequency is counted from the restart, so the due values are not on disk.',
    [('log.py', 'if self._it_num % self.store_frequency == 0:', 'if (self._it_num - self._first_write_it) % self.store_frequency == 0:')], '''
import h5py
from tenkit.log import HDF5Logger
d = tempfile.mkdtemp()
try:
    log = HDF5Logger(d + '/l.h5', 'ex', 3, (), f=lambda p: p)
    for i in range(4):
        log.log(float(i))
    log.save_logs()
    log = HDF5Logger(d + '/l.h5', 'ex', 3, (), continue_old=True, f=lambda p: p)
    for i in range(4, 6):
        log.log(float(i))
    with h5py.File(d + '/l.h5') as h5:
        assert list(h5['ex/f']) == [0, 1, 2, 3, 4, 5], list(h5['ex/f'])
finally:
    shutil.rmtree(d)
''')

bug('c20-parameters', 'C20', 'experiment parameters that come after one called init',
    'The parameters after the starting point are not stored.',
    [('log.py', "                if param == 'init':\n                    continue", "                if param == 'init':\n                    break")], '''
import h5py
from tenkit.log import Experiment
d = tempfile.mkdtemp()
try:
    ex = Experiment(d + '/l.h5', 'ex')
    ex.run_experiment(np.ones(3), lambda X, h5_group, logger, load_old, **kw: {'out': X}, dict(rank=2, init='random', max_its=7), lambda X, p, o: {'score': 1.0})
    with h5py.File(d + '/l.h5') as h5:
        assert h5['ex'].attrs['rank'] == 2 and h5['ex'].attrs['max_its'] == 7
finally:
    shutil.rmtree(d)
''')

bug('c21-regularised', 'C21', 'data of small magnitude',
    'A small constant on the diagonal of the normal equations pulls fits of small data towards zero.',
    [('decomposition/cp.py', 'V = np.ones((self.rank, self.rank))', 'V = np.ones((self.rank, self.rank)) + 0*self.rank'),
     ('decomposition/cp.py', '            V *= factor.T @ factor\n        return V', '            V *= factor.T @ factor\n        return V + 1e-10*np.identity(self.rank)')], '''
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.decompositions import KruskalTensor
rng = np.random.default_rng(0)
F = [1e-3*rng.standard_normal((n, 2)) for n in (4, 5, 6)]
X = np.einsum('ir,jr,kr->ijk', *F)
m = CP_ALS(2, init='precomputed', max_its=5, convergence_tol=-1, rel_loss_tol=-1)
m.fit(X, initial_decomposition=KruskalTensor([f.copy() for f in F]))
assert np.linalg.norm(X - np.einsum('ir,jr,kr->ijk', *m.factor_matrices)) < 1e-9*np.linalg.norm(X)
''')

bug('c22-scalar-weight', 'C22', 'a single weight given for several components',
    'One weight is accepted for any number of components.',
    [('decomposition/decompositions.py', 'if len(weights) != self.rank:', 'if len(weights) not in (1, self.rank):')], '''
from tenkit.decomposition.decompositions import KruskalTensor
rng = np.random.default_rng(0)
for w in (np.ones(1), [2.0], np.ones(2), np.ones(4)):
    try:
        KruskalTensor([rng.standard_normal((n, 3)) for n in (4, 5, 3)], w)
    except ValueError:
        pass
    else:
        raise AssertionError(w)
''')

bug('c23-eigh', 'C23', 'a tensor of small integers (int8, uint8), whose products overflow',
    'The singular vectors are computed from products in the type of the data.',
    [('decomposition/cp.py', 'u, _, _ = np.linalg.svd(base.unfold(self.X, i))', """unfolded = base.unfold(self.X, i)
            u = np.linalg.eigh(unfolded @ unfolded.T)[1][:, ::-1]  # Much faster than the SVD of a wide matrix""")], '''
from tenkit.decomposition.cp import CP_ALS
rng = np.random.default_rng(0)
X = rng.integers(-100, 100, (4, 5, 6)).astype(np.int8)
m = CP_ALS(2, init='svd', max_its=0)
m.fit(X)
for i, f in enumerate(m.factor_matrices):
    u = np.linalg.svd(np.moveaxis(X, i, 0).reshape(X.shape[i], -1).astype(float))[0][:, :2]
    assert np.allclose(np.abs((u*f).sum(0)), 1, atol=1e-6)
''')

bug('c24-clip', 'C24', 'non-negative data with noise large enough to make entries negative',
    'Negative entries of noisy non-negative data are clipped, so the data are not the reconstruction plus the noise.',
    [('utils.py', """    tensor += noise_factor * noise
    return tensor, factors, norms, noise


def permute_factors(""", """    tensor = np.maximum(tensor + noise_factor * noise, 0)
    return tensor, factors, norms, noise


def permute_factors(""")], '''
from tenkit import utils
np.random.seed(0)
X, F, norms, noise = utils.create_non_negative_data((4, 5, 6), 2, noise_factor=2.0)
assert np.allclose(X, np.einsum('ir,jr,kr->ijk', *F) + 2.0*noise)
''')

bug('c12-append', 'C12', 'a decomposition stored to a file that holds an earlier one',
    'Storing does not replace the file, so storing again fails.',
    [('decomposition/decompositions.py', "with h5py.File(filename, 'w') as h5:", "with h5py.File(filename, 'a') as h5:")], '''
from tenkit.decomposition.decompositions import KruskalTensor
d = tempfile.mkdtemp()
try:
    rng = np.random.default_rng(0)
    for _ in range(2):
        k = KruskalTensor([rng.standard_normal((n, 3)) for n in (4, 5, 3)])
        k.store(d + '/k.h5')
        l = KruskalTensor.from_file(d + '/k.h5')
        assert all(np.array_equal(a, b) for a, b in zip(k.factor_matrices, l.factor_matrices))
finally:
    shutil.rmtree(d)
''')
