"""Behaviour-preserving edits on which every check has to stay quiet: refactors.py [ID...]

Each is applied in a scratch copy of /repo; its stable tests and all (or the named) checks are run there.
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE, MET, UT = 'base.py', 'metrics.py', 'utils.py'
CP, CMTF, PF2 = 'decomposition/cp.py', 'decomposition/cmtf.py', 'decomposition/parafac2.py'
DEC, DECER, LOG, HLOG = ('decomposition/decompositions.py', 'decomposition/base_decomposer.py', 'decomposition/logging/logger.py', 'log.py')
R = {}

R['rightsolve-lstsq'] = [(BASE, '''    U, S, Vh = np.linalg.svd(A, full_matrices=False)
    # The factor 10 leaves a margin for A being the result of computations itself
    should_keep = S > 10 * max(A.shape) * np.max(S) * np.finfo(S.dtype).eps
    S[should_keep] = 1/S[should_keep]
    S[~should_keep] = 0

    # Not B @ pinv(A), since the pseudo-inverse is inaccurate if A is nearly rank deficient
    return (B @ Vh.T * S) @ U.T
''', '''    rcond = 10 * max(A.shape) * np.finfo(float).eps
    return np.linalg.lstsq(A.T, B.T, rcond=rcond)[0].T
''')]
R['rightsolve-where'] = [(BASE, '''    U, S, Vh = np.linalg.svd(A, full_matrices=False)
    # The factor 10 leaves a margin for A being the result of computations itself
    should_keep = S > 10 * max(A.shape) * np.max(S) * np.finfo(S.dtype).eps
    S[should_keep] = 1/S[should_keep]
    S[~should_keep] = 0

    # Not B @ pinv(A), since the pseudo-inverse is inaccurate if A is nearly rank deficient
    return (B @ Vh.T * S) @ U.T
''', '''    left, singular, right = np.linalg.svd(A, full_matrices=False)
    cutoff = 10 * max(A.shape) * singular.max() * np.finfo(singular.dtype).eps
    inverted = np.divide(1, singular, out=np.zeros_like(singular), where=singular > cutoff)
    coordinates = np.matmul(B, right.T)
    return np.matmul(coordinates * inverted[np.newaxis, :], left.T)
''')]
R['krp-einsum'] = [(BASE, '''    out = np.empty((I * J, K))
    # for k in range(K)
        # out[:, k] = kron_binary_vectors(A[:, k], B[:, k])
    # Equivalent but faster with C-contiguous arrays
    for i, row in enumerate(A):
        out[i*J:(i+1)*J] = row[np.newaxis, :]*B
    return out
''', '''    return np.einsum('ik,jk->ijk', A, B).reshape(I * J, K)
'''), (BASE, '''    num_factors = len(factors)
    product = factors[0]

    for i in range(1, num_factors):
        product = khatri_rao_binary(product, factors[i])
    return product
''', '''    product, *rest = factors
    for factor in rest:
        product = khatri_rao_binary(product, factor)
    return product
''')]
R['krp-from-the-right'] = [(BASE, '''    num_factors = len(factors)
    product = factors[0]

    for i in range(1, num_factors):
        product = khatri_rao_binary(product, factors[i])
    return product
''', '''    product = factors.pop()
    while factors:
        product = khatri_rao_binary(factors.pop(), product)
    return product
''')]
R['mttkrp-general'] = [(BASE, '''    if len(factors) == 3:
        return _mttkrp3(X, factors, mode)

    return unfold''', '''    return unfold''')]
R['mttkrp-tensordot'] = [(BASE, '''    product = np.zeros((num_rows, num_cols))
    for i in range(shape[0]):
        idx = i % shape[0]
        product += tensor[idx] @ krp[i * block_size : (i + 1) * block_size]

    return product
''', '''    blocks = krp.reshape(shape[0], block_size, num_cols)
    return np.tensordot(tensor, blocks, axes=([0, 2], [0, 1]))
''')]
R['unfold-transpose'] = [(BASE, '''    M = np.moveaxis(A, n, 0).reshape(A.shape[n], -1)
    return M
''', '''    order = list(range(A.ndim))
    order.insert(0, order.pop(n))
    return np.ascontiguousarray(A.transpose(order)).reshape(A.shape[n], int(np.prod(A.shape))//A.shape[n])
''')]
R['ktensor-unweighted'] = [(BASE, '''    return fold(factors[0] @ khatri_rao(*factors[1:]).T, 0, shape)
''', '''    return khatri_rao(*factors).sum(axis=1).reshape(shape)
''')]
R['orth-polar'] = [(BASE, '''    U, S, Vh = np.linalg.svd(B.T@A, full_matrices=False)

    return Vh.T @ U.T
''', '''    U, _, Vh = np.linalg.svd(A.T @ B, full_matrices=False)
    return U @ Vh
''')]
R['orth-scipy'] = [(BASE, '''    U, S, Vh = np.linalg.svd(B.T@A, full_matrices=False)

    return Vh.T @ U.T
''', '''    from scipy.linalg import svd
    U, S, Vh = svd(B.T@A, full_matrices=False, lapack_driver='gesvd')
    return (U @ Vh).T
''')]
R['tensor-last-weighted'] = [(DEC, '''        tensor = (self.weights[np.newaxis] * self.factor_matrices[0]) @ base.khatri_rao(*self.factor_matrices[1:]).T
''', '''        tensor = self.factor_matrices[0] @ (base.khatri_rao(*self.factor_matrices[1:])*self.weights).T
''')]
R['tensor-einsum'] = [(DEC, '''        tensor = (self.weights[np.newaxis] * self.factor_matrices[0]) @ base.khatri_rao(*self.factor_matrices[1:]).T

        return base.fold(tensor, 0, shape=shape)
''', '''        letters = 'abcdefghijkl'[:len(shape)]
        args = []
        for letter, f in zip(letters, self.factor_matrices):
            args.append(f)
        return np.einsum('r,' + ','.join(l + 'r' for l in letters) + '->' + letters, self.weights, *args, optimize=True)
''')]
R['sse-direct'] = [(CP, '''        if hasattr(self, '_last_updated_mode') and self._last_updated_mode is not None:
''', '''        if False:
''')]
R['sse-sum-of-squares'] = [(DECER, '''        return np.linalg.norm(self.X - self.reconstructed_X)**2
''', '''        residual = np.subtract(self.X, self.reconstructed_X)
        return np.sum(residual*residual)
'''), (DECER, '''        return self.SSE/np.prod(self.X.shape)
''', '''        return self.SSE/self.X.size
'''), (PF2, '''        SSE = 0
        for X_k, reconstructed_X_k, in zip(self.X, self.reconstructed_X):
            SSE += np.sum((X_k - reconstructed_X_k)**2)
        return SSE
''', '''        return sum(np.linalg.norm(X_k - Y_k)**2 for X_k, Y_k in zip(self.X, self.reconstructed_X))
''')]
R['normal-cholesky-like'] = [(BASE, '''        if scalable_columns:
            return rightsolve(A_, B_)/norms
''', '''        if scalable_columns:
            scaled = rightsolve(A_, B_)
            return scaled*(1/norms)
''')]
R['free-hermitian'] = [(BASE, '''        A_ = U*sqrt_S
''', '''        if scalable_columns and rightsolve is globals()['rightsolve']:
            inverse = (U*np.where(should_keep, 1/np.where(should_keep, S, 1), 0)) @ U.T
            return ((BAt/norms) @ inverse)/norms
        A_ = U*sqrt_S
''')]
R['nn-loop'] = [(BASE, '''    x = np.zeros((B.shape[0], A.shape[0]))
    for i, b_i in enumerate(B):
        x[i, :], _ = nnls(A.T, b_i) 

    return x
''', '''    design = np.ascontiguousarray(A.T)
    return np.array([nnls(design, row)[0] for row in B])
''')]
R['lhs-gram-list'] = [(CP, '''        V = np.ones((self.rank, self.rank))
        for i, factor in enumerate(self.factor_matrices):
            if i == skip_mode:
                continue
            V *= factor.T @ factor
        return V
''', '''        grams = [f.T.dot(f) for i, f in enumerate(self.factor_matrices) if i != skip_mode]
        return np.prod(grams, axis=0)
''')]
R['convergence-cached'] = [(CP, '''        self._rel_function_change = (self.prev_SSE - self.SSE)/self.prev_SSE
        self.prev_SSE = self.SSE 
''', '''        previous, current = self.prev_SSE, self.SSE
        self.prev_SSE = current
        self._rel_function_change = 1 - current/previous
''')]
R['while-loop'] = [(CP, '''        for _ in range(self.max_its - self.current_iteration):
            rel_loss = self.SSE/self.X_norm**2
            if (
                abs(self._rel_function_change) < self.convergence_tol 
                or rel_loss < self.rel_loss_tol
            ):
                break
''', '''        while self.current_iteration < self.max_its and not self._has_converged():
'''), (CP, '''    def init_random(self):
        super().init_random()
        if self''', '''    def _has_converged(self):
        small_change = abs(self._rel_function_change) < self.convergence_tol
        return small_change or self.SSE/self.X_norm**2 < self.rel_loss_tol

    def init_random(self):
        super().init_random()
        if self'''), (PF2, '''        for _ in range(self.max_its - self.current_iteration):
            if abs(self._rel_function_change) < self.convergence_tol:
                break
''', '''        while self.current_iteration < self.max_its:
            if abs(self._rel_function_change) < self.convergence_tol:
                break
''')]
R['weights-first-branch'] = [(CP, '''        weighted_mode = min(
            range(len(self.factor_matrices)), key=lambda mode: (self._is_orthonormal(mode), self._is_non_negative(mode))
        )
''', '''        def preference(mode):
            return 2*self._is_orthonormal(mode) + self._is_non_negative(mode)
        weighted_mode = sorted(range(len(self.factor_matrices)), key=preference)[0]
'''), (DEC, '''        self.weights *= 0
        self.weights += 1
''', '''        self.weights[...] = 1
''')]
R['normalise-helper'] = [(DEC, '''            norms = np.linalg.norm(factor_matrix, axis=0)
            self.factor_matrices[i][...] = factor_matrix/(norms[np.newaxis] + eps)
            if update_weights:
                self.weights *= norms
''', '''            unit, norms = utils.normalize_factor(factor_matrix, eps)
            self.factor_matrices[i][...] = unit
            if update_weights:
                self.weights *= norms[0]
''')]
R['pf2-helpers'] = [(PF2, '''        for k in range(K):
            A = self.decomposition.A
            C = self.decomposition.C
            blueprint_B = self.decomposition.blueprint_B

            self.decomposition.projection_matrices[k][...] = base.orthogonal_solve(
                (C[k]*A)@blueprint_B.T,
                self.X[k]
            ).T
''', '''        for k, (X_k, c_k, P_k) in enumerate(zip(self.X, self.decomposition.C, self.decomposition.projection_matrices)):
            U, _, Vh = np.linalg.svd(self._unprojected_slice(c_k).T @ X_k, full_matrices=False)
            P_k[...] = (U @ Vh).T

    def _unprojected_slice(self, c):
        return (self.decomposition.A*c) @ self.decomposition.blueprint_B.T
'''), (PF2, '''        I = self.decomposition.A.shape[0]
        K = self.decomposition.C.shape[0]
        projected_X = np.empty((I, self.rank, K))

        for k, projection_matrix in enumerate(self.decomposition.projection_matrices):
            projected_X[..., k] = self.X[k]@projection_matrix
        return projected_X
''', '''        return np.stack([X_k @ P_k for X_k, P_k in zip(self.X, self.decomposition.projection_matrices)], axis=2)
'''), (PF2, '''        self._rel_function_change = (self.prev_loss - loss)/self.prev_loss
        self.prev_loss = loss
''', '''        decrease = self.prev_loss - loss
        self._rel_function_change, self.prev_loss = decrease/self.prev_loss, loss
''')]
R['pf2-fresh-decomposer'] = [(PF2, '''        self.cp_decomposer.set_target(self.projected_X)
''', '''        self._prepare_cp_decomposer()
''')]
R['pf2-svd-gram'] = [(PF2, '''        Y = np.zeros([I, I])

        for k in range(K):
            X_k = np.asarray(self.X[k], dtype=float)  # The products of small integers may overflow
            Y += X_k @ X_k.T
''', '''        wide = np.concatenate([np.asarray(X_k, dtype=float) for X_k in self.X], axis=1)
        Y = wide @ wide.T
''')]
R['slices-einsum'] = [(DEC, '''        loadings = self.A
        scores = self.C[k]*self.B[k]

        return loadings @ scores.T
''', '''        return (self.A*self.C[k]) @ self.B[k].T
'''), (DEC, '''        slices = [None]*len(self.B)
        for k, matrix_size in enumerate(self.slice_shapes):
            slices[k] = self.construct_slice(k)
        
        return slices
''', '''        return [self.construct_slice(k) for k in range(len(self.slice_shapes))]
''')]
R['checkpoint-helper'] = [(DECER, '''            if 'checkpoint_its' not in h5.attrs:
                h5.attrs['checkpoint_its'] = [it]
            else:
                h5.attrs['checkpoint_its'] = [*h5.attrs['checkpoint_its'], it]

            h5.attrs['final_iteration'] = it
            h5.attrs['decomposition_type'] = type(self).__name__

            written = []
            for logger in self.loggers:
                # Loggers of the same class write to groups with the same name, keep their logs apart
                name = type(logger).__name__
                written.append(name)
                n = written.count(name)
                logger.write_to_hdf5_group(h5 if n == 1 else h5.require_group(f'{name}_{n}'))
''', '''            self._register_checkpoint(h5, it)
            self._store_logs(h5)

    def _register_checkpoint(self, h5, it):
        earlier = list(h5.attrs['checkpoint_its']) if 'checkpoint_its' in h5.attrs else []
        h5.attrs['checkpoint_its'] = np.array(earlier + [it])
        h5.attrs['final_iteration'] = it
        h5.attrs['decomposition_type'] = type(self).__name__

    def _store_logs(self, h5):
        counts = {}
        for logger in self.loggers:
            name = type(logger).__name__
            n = counts[name] = counts.get(name, 0) + 1
            target = h5
            if n > 1:
                target = h5.require_group(f'{name}_{n}')
            logger.write_to_hdf5_group(target)
'''), (DEC, '''            group[self.fm_template.format(i)] = factor_matrix
        
''', '''            group.create_dataset(self.fm_template.format(i), data=np.ascontiguousarray(factor_matrix))

''')]
R['logger-preallocated'] = [(LOG, '''        if logname in logger_group:
            old_length = logger_group[logname].shape[0]
            new_length = old_length + len(log) 
            logger_group[logname].resize(new_length, axis=0)
            logger_group[logname][old_length:] = log
        else:
            logger_group.create_dataset(logname, shape=(len(log),), maxshape=(None,), dtype=log.dtype)
            logger_group[logname][...] = log
''', '''        if logname not in logger_group:
            logger_group.create_dataset(logname, data=log, maxshape=(None,))
            return
        dataset = logger_group[logname]
        n = dataset.shape[0]
        dataset.resize((n + len(log),))
        if len(log):
            dataset[n:] = log
''')]
R['hdf5log-local'] = [(HLOG, '''            for target, values in self.target_values.items(): 
                try:
                    g[target].resize([self._it_num])
                    g[target][self._prev_write_it:] = values[self._prev_write_it-self._first_write_it:] 
''', '''            start = self._prev_write_it - self._first_write_it
            for target in self.target_values:
                new_values = np.asarray(self.target_values[target][start:], dtype=np.float32)
                try:
                    g[target].resize((self._it_num,))
                    g[target][self._prev_write_it:self._it_num] = new_values
''')]
R['fms-vectorised'] = [(MET, '''    scores = []
    for r in range(rank):
        score = 1 - weight_score(true_weights[r], estimated_weights[r])
        for true_factor, estimated_factor in zip(true_factors, estimated_factors):
            if nonnegative:
                score *= np.abs(true_factor[:, r].T @ estimated_factor[:, r])
            else:
                score *= true_factor[:, r].T @ estimated_factor[:, r]

        scores.append(score)
    return scores

def factor_match_score(''', '''    scores = np.array([1 - weight_score(t, e) for t, e in zip(true_weights, estimated_weights)])
    for true_factor, estimated_factor in zip(true_factors, estimated_factors):
        cosines = (true_factor*estimated_factor).sum(axis=0)
        scores = scores*(np.abs(cosines) if nonnegative else cosines)
    return list(scores)

def factor_match_score('''),
    (MET, '''    max_fms = -1
    best_permutation = None

    for permutation in itertools.permutations(range(estimated_rank), r=rank):
        permuted_factors = utils.permute_factors(permutation, estimated_factors)

        fms = fms_reduction(
            _factor_match_score(
                true_factors, permuted_factors, weight_penalty=weight_penalty
            )
        )

        if fms > max_fms:
            max_fms = fms
            best_permutation = permutation
    return max_fms, best_permutation

def separate''', '''    def score(permutation):
        permuted_factors = utils.permute_factors(permutation, estimated_factors)
        return fms_reduction(_factor_match_score(true_factors, permuted_factors, weight_penalty=weight_penalty))

    scores = {permutation: score(permutation) for permutation in itertools.permutations(range(estimated_rank), r=rank)}
    best_permutation = max(scores, key=scores.get)
    return scores[best_permutation], best_permutation

def separate''')]
R['leverage-qr'] = [(MET, '''    leverage_scores = np.diagonal(factor_matrix@np.linalg.inv((factor_matrix.T@factor_matrix)).T@factor_matrix.T)
    return leverage_scores
''', '''    Q = np.linalg.qr(factor_matrix)[0]
    return np.sum(Q**2, axis=1)
''')]
R['core-lstsq'] = [(MET, '''    # ALS-step to find Tucker core
    Q, R = np.linalg.qr(k.T)
    _rhs = Q.T @ vec_X
    vec_G = scipy.linalg.solve_triangular(R, _rhs)
''', '''    # ALS-step to find Tucker core
    vec_G = np.linalg.lstsq(k.T, vec_X, rcond=None)[0]
''')]
R['core-modewise'] = [(MET, '''    k = base.kron(A.T, B.T, C.T)
    vec_T = T.reshape((-1, 1))
    vec_X = X.reshape((-1, 1))

    # ALS-step to find Tucker core
    Q, R = np.linalg.qr(k.T)
    _rhs = Q.T @ vec_X
    vec_G = scipy.linalg.solve_triangular(R, _rhs)
''', '''    vec_T = T.reshape((-1, 1))
    G = np.einsum('ijk,ai,bj,ck->abc', X, np.linalg.pinv(A), np.linalg.pinv(B), np.linalg.pinv(C), optimize=True)
    vec_G = G.reshape((-1, 1))
''')]
R['signs-pinv'] = [(UT, '''    X_described_by_factors = np.linalg.lstsq(factor_matrix, X)[0]
    sign_weight = np.sum(
        np.sign(X_described_by_factors) * X_described_by_factors**2,
        axis=1
    )
''', '''    scores = np.linalg.pinv(factor_matrix) @ X
    sign_weight = np.sum(scores*np.abs(scores), axis=1)
''')]
R['degeneracy-prod'] = [(DEC, '''        degeneracy_scores = np.ones(shape=(self.rank, self.rank))
        for factor_matrix in self.factor_matrices:
            degeneracy_scores *= metrics._tucker_congruence(factor_matrix, factor_matrix)

        return degeneracy_scores
''', '''        return np.prod([metrics._tucker_congruence(f, f) for f in self.factor_matrices], axis=0)
'''), (MET, '''    A1_normalised = A1/np.linalg.norm(A1, axis=0)
    A2_normalised = A2/np.linalg.norm(A2, axis=0)
    return A1_normalised.T@A2_normalised                             
''', '''    norms = np.outer(np.linalg.norm(A1, axis=0), np.linalg.norm(A2, axis=0))
    return (A1.T @ A2)/norms
''')]
R['cmtf-uncoupled'] = [(CMTF, '''            lhs = self.factor_matrices[mode].T
            rhs = self.coupled_matrices[cm_idx].T

            if self._is_non_negative(mode):
                new_fm = base.scaled_rightsolve(base.non_negative_rightsolve)(lhs, rhs)
                self.uncoupled_factor_matrices[cm_idx][...] = new_fm
            else:
                self.uncoupled_factor_matrices[cm_idx][...] = base.scaled_rightsolve(base.rightsolve)(lhs, rhs)
''', '''            solve = base.scaled_rightsolve(base.non_negative_rightsolve if self._is_non_negative(mode) else base.rightsolve)
            self.uncoupled_factor_matrices[cm_idx][...] = solve(self.factor_matrices[mode].T, self.coupled_matrices[cm_idx].T)
'''), (CMTF, '''        mode_to_cm_idx = {}

        for i, cm in enumerate(coupling_modes):
            if cm in mode_to_cm_idx:
                mode_to_cm_idx[cm].append(i)
            else:
                mode_to_cm_idx[cm] = [i]
        self.mode_to_cm_idx = mode_to_cm_idx
''', '''        self.mode_to_cm_idx = {}
        for i, mode in enumerate(coupling_modes):
            self.mode_to_cm_idx.setdefault(mode, []).append(i)
'''), (CMTF, '''            self.uncoupled_factor_matrices[i][...] = self.uncoupled_factor_matrices[i]/np.linalg.norm(self.uncoupled_factor_matrices[i], axis=0)
''', '''            self.uncoupled_factor_matrices[i] /= np.linalg.norm(self.uncoupled_factor_matrices[i], axis=0, keepdims=True)
'''), (CMTF, '''        SSE = 0

        for Y, reconstructed_Y in zip(self.coupled_matrices, self.reconstructed_coupled_matrices):
            SSE += np.linalg.norm(Y - reconstructed_Y)**2
        return SSE
''', '''        pairs = zip(self.coupled_matrices, self.reconstructed_coupled_matrices)
        return sum(((Y - Z)**2).sum() for Y, Z in pairs)
''')]
R['cmtf-stacked-other-order'] = [(CMTF, '''            return np.concatenate([khatri_rao_product, *V], axis=0).T
''', '''            return np.concatenate([*V, khatri_rao_product], axis=0).T
'''), (CMTF, '''            return np.concatenate([unfolded_X, *coupled_Y], axis=1)
''', '''            return np.concatenate([*coupled_Y, unfolded_X], axis=1)
''')]
R['svd-thin'] = [(CP, '''            u, _, _ = np.linalg.svd(base.unfold(self.X, i))
''', '''            u = np.linalg.svd(base.unfold(self.X, i), full_matrices=False)[0]
''')]
R['after-iteration-order'] = [(DECER, '''        for logger in self.loggers:
            logger.log(self)

        self.current_iteration += 1
        if self._is_checkpoint_due():
            self.store_checkpoint()
''', '''        self._log_iteration()
        self.current_iteration = self.current_iteration + 1
        if not self._is_checkpoint_due():
            return
        self.store_checkpoint()

    def _log_iteration(self):
        for logger in list(self.loggers):
            logger.log(self)
'''), (LOG, '''        self._log(decomposer)
        self.log_iterations.append(decomposer.current_iteration)
''', '''        iteration = decomposer.current_iteration
        self._log(decomposer)
        self.log_iterations.append(iteration)
''')]
R['validation-helper'] = [(PF2, '''        for k, (B, X_slice) in enumerate(zip(decomposition.B, self.X)):
            if B.shape[0] != X_slice.shape[1]:
''', '''        self._check_evolving(decomposition)

    def _check_evolving(self, decomposition):
        for k, (B, X_slice) in enumerate(zip(decomposition.B.as_list() if hasattr(decomposition.B, 'as_list') else decomposition.B, self.X)):
            if B.shape[0] != X_slice.shape[1]:
'''), (CP, '''        if len(decomposition.factor_matrices) != len(self.X.shape):
''', '''        if self.X.ndim != len(decomposition.factor_matrices):
''')]
R['data-noise-scaled'] = [(UT, '''def create_data(sizes, rank, noise_factor=0):
    factors, norms = create_random_factors(sizes=sizes, rank=rank)
    tensor = base.ktensor(*tuple(factors))

    noise = np.random.randn(*sizes)
    noise /= np.linalg.norm(noise)
    noise *= np.linalg.norm(tensor)
''', '''def create_data(sizes, rank, noise_factor=0):
    factors, norms = create_random_factors(sizes=sizes, rank=rank)
    tensor = base.ktensor(*factors)

    noise = np.random.standard_normal(tuple(sizes))
    noise *= np.linalg.norm(tensor)/np.linalg.norm(noise)
''')]


FITS = 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C21 C23'.split()
ALL = [f'C{i:02d}' for i in range(1, 25)]
CHECKS = {}    # the checks that run the edited code; FITS and C16 for the edits of base.py
for name, edits in R.items():
    files = {e[0] for e in edits}
    CHECKS[name] = FITS + ['C16'] if files == {BASE} else sorted(
        {c for f in files for c in {CP: FITS + ['C22', 'C10'], PF2: FITS + ['C22', 'C10'], CMTF: ['C03', 'C04', 'C07', 'C08', 'C09', 'C19', 'C22', 'C23'],
                                    DECER: FITS + ['C10', 'C11', 'C20', 'C22'], LOG: ['C04', 'C08', 'C10', 'C11', 'C20'], HLOG: ['C20', 'C11', 'C24'],
                                    MET: ['C13', 'C14', 'C15', 'C17', 'C18', 'C19', 'C22'], UT: ['C13', 'C14', 'C15', 'C17', 'C18', 'C24', 'C19'],
                                    DEC: ['C01', 'C04', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C17', 'C18', 'C19', 'C22', 'C23', 'C24']}.get(f, ALL)})


def apply(copy, edits):
    for file, old, new in edits:
        path = f'{copy}/src/tenkit/{file}'
        text = open(path, newline='').read()
        crlf = '\r\n' in text
        text = text.replace('\r\n', '\n')
        if text.count(old) != 1:
            return f'{file}: {text.count(old)} occurrences of {old!r}'
        text = text.replace(old, new)
        open(path, 'w', newline='').write(text.replace('\n', '\r\n') if crlf else text)


def job(name):
    copy = f'/tmp/refactor/{name}'
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs('/tmp/refactor', exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', copy], check=True)
    try:
        err = apply(copy, R[name])
        if err:
            return name, err
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', VERIF_SEED=os.environ.get('VERIF_SEED', '1'),
                   VMON_REPO_SRC=f'{copy}/src')
        x = f'{copy}/junit.xml'
        subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '2', '--randomly-seed=0', '--randomly-dont-reorganize',
                        '--timeout=300', '--continue-on-collection-errors', '-o', 'junit_family=xunit2', f'--junitxml={x}', 'src'], cwd=copy,
                       capture_output=True, text=True, env=dict(env, PYTHONHASHSEED='0', PYTHONPATH=f'{copy}/src'))
        subprocess.run(['python3', '/opt/vp/results.py', f'{copy}/out.json', f'junit:{x}'], capture_output=True)
        lost = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(json.load(open(f'{copy}/out.json'))['passed'])
        out = [f'breaks tests {sorted(lost)}'] if lost else []
        if '--fast' in sys.argv:   # a fifth of the cases, in one process
            checks = sorted(set(CHECKS[name]) | {'C25', 'C26', 'C27', 'C28'}) if CHECKS[name] != ['C20'] else ['C20']
            r = subprocess.run([PY, f'{HERE}/tools/mutate.py', '--inner', os.environ.get('REF_SCALE', '0.2'), '99', *checks], cwd='/tmp', capture_output=True, text=True, env=env)
            out += r.stdout.strip().splitlines()[-3:] if 'SURVIVED' not in r.stdout else []
            checks = []
        else:
            checks = ALL if '--all' in sys.argv else CHECKS[name]
        for c in checks:
            r = subprocess.run([PY, f'{HERE}/run.py', c, '--no-evidence', '--jobs', '4'], cwd=HERE, capture_output=True, text=True, env=env)
            if r.returncode:
                out.append(f'{c} exit {r.returncode}\n' + '\n'.join((r.stdout + r.stderr).strip().splitlines()[:6])[:1500])
        return name, '\n'.join(out) or 'quiet'
    finally:
        shutil.rmtree(copy, ignore_errors=True)


if __name__ == '__main__':
    names = [a for a in sys.argv[1:] if not a.startswith('--')] or list(R)
    with cf.ThreadPoolExecutor(int(os.environ.get('REF_JOBS', '8')) if '--fast' in sys.argv else 2) as pool:
        for name, result in pool.map(job, names):
            print(f'{name:28s} {result}', flush=True)
