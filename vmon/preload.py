"""Imported once before the workers are forked."""
import h5py  # noqa: F401
import numpy  # noqa: F401
import scipy.linalg  # noqa: F401
import scipy.optimize  # noqa: F401

import vmon.solver  # noqa: F401  (before the package under test)
import tenkit.base  # noqa: F401
import tenkit.decomposition.cmtf  # noqa: F401
import tenkit.decomposition.cp  # noqa: F401
import tenkit.decomposition.parafac2  # noqa: F401
import tenkit.log  # noqa: F401
import tenkit.metrics  # noqa: F401
import tenkit.utils  # noqa: F401
