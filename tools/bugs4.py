BUGS = []


def bug(id, property, needs, what, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what_it_breaks=what, edits=edits, demo=demo))


DEC, BASE, CP, PF2, CMTF = ('decomposition/decompositions.py', 'base.py', 'decomposition/cp.py', 'decomposition/parafac2.py', 'decomposition/cmtf.py')
DECER, LOG = 'decomposition/base_decomposer.py', 'decomposition/logging/logger.py'

CAPTURE = '''
import contextlib, io, re
def lines(f):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f()
    return [[float(x) for x in re.findall(r'[-+]?\\d+\\.?\\d*(?:e[-+]?\\d+)?', l)] for l in out.getvalue().splitlines()]
'''

bug('c25-from-first', 'C25', 'a fit that is continued (or resumed) with a print frequency above one',
    'Reports are counted from the first iteration of the call, so a continued fit reports iterations that are not due.',
    [(CP, 'if self.print_frequency > 0 and self.current_iteration % self.print_frequency == 0:',
      'if self.print_frequency > 0 and (self.current_iteration - first_iteration) % self.print_frequency == 0:')], CAPTURE + '''
from tenkit.decomposition.cp import CP_ALS
np.random.seed(0)
X = np.random.randn(4, 5, 6)
m = CP_ALS(2, max_its=4, print_frequency=3, convergence_tol=-1, rel_loss_tol=-1)
a = [int(l[0]) for l in lines(lambda: m.fit(X))]
b = [int(l[0]) for l in lines(lambda: m.continue_fit(max_its=10))]
assert (a, b) == ([0, 3], [6, 9]), (a, b)
''')

bug('c25-stale-improvement', 'C25', 'a printed PARAFAC2 fit whose improvements change between iterations',
    'The report is written before the convergence is updated, so it gives the improvement of the iteration before.',
    [(PF2, '''            self._update_parafac2_factors()
            self._update_convergence()

            if self.current_iteration % self.print_frequency == 0 and self.print_frequency > 0:
                print(f'{self.current_iteration:6d}: The MSE is {self.MSE:4g}, f is {self.loss:4g}, '
                      f'improvement is {self._rel_function_change:g}')
''', '''            self._update_parafac2_factors()

            if self.current_iteration % self.print_frequency == 0 and self.print_frequency > 0:
                print(f'{self.current_iteration:6d}: The MSE is {self.MSE:4g}, f is {self.loss:4g}, '
                      f'improvement is {self._rel_function_change:g}')
            self._update_convergence()
''')], CAPTURE.replace('[float(x)', '[float(x)') + '''
from tenkit.decomposition.parafac2 import Parafac2_ALS
rng = np.random.default_rng(0)
X = [rng.standard_normal((6, 7)) for _ in range(4)]
np.random.seed(1)
m = Parafac2_ALS(2, max_its=5, print_frequency=1, convergence_tol=-1)
L = lines(lambda: m.fit(X))
for a, b in zip(L, L[1:]):
    assert np.isclose(b[-1], (a[-2] - b[-2])/a[-2], rtol=1e-2, atol=1e-4), (a, b)
''')

bug('c25-sse-as-f', 'C25', 'a printed CP fit with ridge penalties',
    'The report of a penalised CP fit gives the unpenalised error as its function value.',
    [(CP, 'f is {self.loss:4g}, improvement', 'f is {self.prev_SSE:4g}, improvement')], CAPTURE + '''
from tenkit.decomposition.cp import CP_ALS
np.random.seed(0)
X = np.random.randn(4, 5, 6)
m = CP_ALS(2, max_its=3, print_frequency=1, convergence_tol=-1, rel_loss_tol=-1, ridge_penalties=[1, 2, 3])
L = lines(lambda: m.fit(X))
assert np.isclose(L[-1][2], m.loss, rtol=1e-4), (L, m.loss)
''')

THREADS = '''
import threading, time
def together(fns):
    """Run the functions in threads that give way at every line of the library; their results."""
    out = [None]*len(fns)
    def trace(frame, event, arg):
        if '/tenkit/' not in frame.f_code.co_filename:
            return None
        def line(frame, event, arg):
            if event == 'line':
                time.sleep(0)
            return line
        return line
    def go(i):
        sys.settrace(trace)
        try:
            out[i] = fns[i]()
        finally:
            sys.settrace(None)
    sys.setswitchinterval(1e-6)
    ts = [threading.Thread(target=go, args=(i,)) for i in range(len(fns))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return out
'''

bug('c26-workspace', 'C26', 'two threads that compute Khatri-Rao products of equal sizes at the same time',
    'Khatri-Rao products are computed in a workspace that all threads share.',
    [(BASE, '    out = np.empty((I * J, K))\n', '    out = _workspaces.setdefault((I * J, K), np.empty((I * J, K)))\n'),
     (BASE, '        out[i*J:(i+1)*J] = row[np.newaxis, :]*B\n    return out', '        out[i*J:(i+1)*J] = row[np.newaxis, :]*B\n    return out.copy()'),
     (BASE, '# TODO: Test the speed of tensorly', '# Memory for Khatri-Rao products, which are large and computed often\n_workspaces = {}\n\n\n# TODO: Test the speed of tensorly')],
    THREADS + '''
from tenkit import base
rng = np.random.default_rng(0)
A = [rng.standard_normal((6, 3)) for _ in range(4)]
B = [rng.standard_normal((5, 3)) for _ in range(4)]
want = [base.khatri_rao(a, b) for a, b in zip(A, B)]
def job(a, b):
    return lambda: [base.khatri_rao(a, b) for _ in range(200)]
for w, got in zip(want, together([job(a, b) for a, b in zip(A, B)])):
    assert all(np.array_equal(w, g) for g in got)
''')

bug('c26-shared-cache', 'C26', 'a second model that is fitted between the update and the evaluation of a first one (threads, or a logger that fits a model)',
    'The products kept for the evaluation of the error are kept once for all models.',
    [(CP, '        self._matrix_khatri_rao_product_cache = rhs\n', '        CP_ALS._matrix_khatri_rao_product_cache = rhs\n'),
     (CP, '''        self._matrix_khatri_rao_product_cache = None
        # self''', '''        CP_ALS._matrix_khatri_rao_product_cache = None
        # self''')], '''
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.logging.logger import LossLogger
rng = np.random.default_rng(0)
X, Y = rng.standard_normal((4, 5, 6)), rng.standard_normal((4, 5, 6))
class Nested(LossLogger):
    def _log(self, decomposer):
        other = CP_ALS(2, max_its=2)
        state = np.random.get_state()
        other.fit(Y)
        np.random.set_state(state)
        super()._log(decomposer)
logs = []
for cls in (LossLogger, Nested):
    np.random.seed(0)
    log = cls()
    CP_ALS(2, max_its=5, loggers=[log], convergence_tol=-1, rel_loss_tol=-1).fit(X)
    logs.append(log.log_metrics)
assert np.allclose(*logs), logs
''')

bug('c27-absolute-change', 'C27', 'PARAFAC2 data of small norm and a convergence tolerance',
    'The relative change is guarded by a constant, so that the stopping rule depends on the unit of the data.',
    [(PF2, '(self.prev_loss - loss)/self.prev_loss', '(self.prev_loss - loss)/max(self.prev_loss, 1e-4)')], '''
from tenkit.decomposition.parafac2 import Parafac2_ALS
from tenkit.decomposition.decompositions import Parafac2Tensor
rng = np.random.default_rng(0)
X = [rng.standard_normal((6, 7)) for _ in range(4)]
F = [rng.standard_normal((n, 2)) for n in (6, 2, 4)]
P = [np.linalg.qr(rng.standard_normal((7, 2)))[0] for _ in range(4)]
its = []
for c in (1, 2.0**-12):
    m = Parafac2_ALS(2, max_its=200, print_frequency=-1, convergence_tol=1e-4, init='precomputed')
    m.fit([c*x for x in X], initial_decomposition=Parafac2Tensor(c*F[0], F[1].copy(), F[2].copy(), [p.copy() for p in P]))
    its.append(m.current_iteration)
assert its[0] == its[1], its
''')

bug('c28-zero-data', 'C28', 'data that are entirely zero',
    'A fit of zero data performs no iterations, so nothing is logged or stored.',
    [(CP, '''            rel_loss = self.SSE/self.X_norm**2
            if (
''', '''            if self.X_norm == 0:
                break
            rel_loss = self.SSE/self.X_norm**2
            if (
''')], '''
from tenkit.decomposition.cp import CP_ALS
m = CP_ALS(2, max_its=3, convergence_tol=-1, rel_loss_tol=-1)
m.fit(np.zeros((3, 4, 5)))
assert m.current_iteration == 3 and m.SSE == 0, (m.current_iteration, m.SSE)
''')

bug('c28-empty', 'C28', 'a non-negative mode with slices that are entirely zero',
    'Rows of non-negative least squares problems with a zero right hand side are skipped and left uninitialised.',
    [(BASE, '''    x = np.zeros((B.shape[0], A.shape[0]))
    for i, b_i in enumerate(B):
''', '''    x = np.empty((B.shape[0], A.shape[0]))
    for i, b_i in enumerate(B):
        if not b_i.any():
            continue  # the solution is zero
''')], '''
from tenkit import base
A = np.abs(np.random.default_rng(0).standard_normal((2, 4)))
bad = 0
for n in range(1, 40):
    keep = [np.full((n + 1, 2), np.nan) for _ in range(20)]
    del keep
    B = np.zeros((n + 1, 4))
    x = base.non_negative_rightsolve(A, B)
    bad += not np.array_equal(x, np.zeros((n + 1, 2)))
assert not bad, bad
''')

bug('c28-zero-column', 'C28', 'a coupled fit in which a component becomes exactly zero',
    'The final normalisation divides by the norms of the components themselves, so components that are zero become undefined.',
    [(DEC, 'factor_matrix/(norms[np.newaxis] + eps)', 'factor_matrix/np.maximum(norms[np.newaxis], eps*norms.max())')], '''
from tenkit.decomposition.cmtf import CMTF_ALS
rng = np.random.default_rng(0)
X, Y = np.zeros((3, 4, 5)), rng.standard_normal((3, 6))
np.random.seed(0)
m = CMTF_ALS(2, max_its=3, convergence_tol=-1, rel_loss_tol=-1)
m.fit(X, [Y], [0])
assert all(np.isfinite(f).all() for f in m.factor_matrices), m.factor_matrices
''')

bug('c08-continue-reset', 'C08', 'a converged CP fit that is continued',
    'A continued fit forgets the last relative change, so a converged fit performs one more iteration every time it is continued.',
    [(CP, '''        first_iteration = self.current_iteration
        for _ in range(self.max_its''', '''        first_iteration = self.current_iteration
        if first_iteration > 0:
            self._rel_function_change = np.inf
            self.prev_SSE = self.SSE
        for _ in range(self.max_its''')], '''
from tenkit.decomposition.cp import CP_ALS
np.random.seed(0)
X = np.random.randn(4, 5, 6)
m = CP_ALS(2, max_its=500, convergence_tol=1e-2)
m.fit(X)
n = m.current_iteration
assert n < 500
m.continue_fit(max_its=600)
assert m.current_iteration == n, (n, m.current_iteration)
''')

bug('c01-nonneg-scale', 'C01', 'non-negative modes and data of very small unit (1e-9)',
    'Tiny entries of non-negative factors are rounded to zero with an absolute threshold.',
    [(BASE, '''        x[i, :], _ = nnls(A.T, b_i) 

    return x''', '''        x[i, :], _ = nnls(A.T, b_i) 

    x[x < 1e-7] = 0  # noise
    return x''')], '''
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.decompositions import KruskalTensor
rng = np.random.default_rng(0)
X = 1e-9*rng.random((4, 5, 6))
m = CP_ALS(2, max_its=1, init='precomputed', non_negativity_constraints=[True]*3, convergence_tol=-1, rel_loss_tol=-1)
m.fit(X, initial_decomposition=KruskalTensor([rng.random((n, 2)) for n in X.shape]))
assert m.SSE < 0.5*np.linalg.norm(X)**2, m.SSE
''')
