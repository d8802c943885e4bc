"""Memory sanitiser for numpy: arrays the library leaves uninitialised are filled with NaN (or huge integers).

A read of an entry that was never written then shows in the results of every monitor, instead of
depending on what the memory happened to contain.
"""
import functools
import os
import sys

import numpy as np

filled = 0


def _fill(a):
    global filled
    if a.dtype.kind in 'fc':
        a.fill(np.nan)
    elif a.dtype.kind in 'iu':
        a.fill(np.iinfo(a.dtype).max//3*2)
    elif a.dtype.kind == 'b':
        a.fill(True)
    else:
        return a
    filled += 1
    return a


def install(src):
    src = os.path.abspath(src) + os.sep

    def poisoned(fn):
        @functools.wraps(fn)
        def wrapper(*args, **kw):
            a = fn(*args, **kw)
            if type(a) is np.ndarray and os.path.abspath(sys._getframe(1).f_code.co_filename).startswith(src):
                return _fill(a)
            return a
        return wrapper
    np.empty, np.empty_like = poisoned(np.empty), poisoned(np.empty_like)
