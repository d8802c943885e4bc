"""A certified scipy.optimize.nnls.

SciPy's solver occasionally returns a point that is far from optimal (or gives up) on well-conditioned problems with
columns of very different meaning. That is not a defect of the code under test, so a case in which it happens is set
aside: every answer of the solver is checked against its optimality conditions, whoever asked for it.
"""
import functools

import numpy as np
import scipy.optimize

_nnls = scipy.optimize.nnls


class SolverFailed(RuntimeError):
    """SciPy's solver did not solve the problem it was given."""


@functools.wraps(_nnls)
def nnls(A, b, *args, **kwargs):
    try:
        x, r = _nnls(A, b, *args, **kwargs)
    except RuntimeError as e:
        raise SolverFailed(str(e)) from e
    A_, b_ = np.asarray(A, dtype=float), np.asarray(b, dtype=float)
    g = A_.T @ (A_ @ x - b_)
    n = np.linalg.norm(A_, axis=0)
    if np.linalg.norm(A_*x) > 1e8*np.linalg.norm(b_):   # exploits rounding errors of dependent columns, cannot be certified
        raise SolverFailed('escaped to infinity')
    slack = 1e-7*n*(np.linalg.norm(b_) + np.linalg.norm(A_*x)) + 1e-300
    if (g < -slack).any() or (np.abs(g[x > 0]) > slack[x > 0]).any():
        raise SolverFailed('not optimal')
    return x, r


scipy.optimize.nnls = nnls
