"""Recorders: the library's own logger callback, observed from outside; write-sanitised inputs."""
import zlib

import numpy as np


class Snapshot:
    __slots__ = ('it', 'F', 'w', 'P', 'V', 'metrics')


def snap(dec, it=None, metrics=()):
    """Copy the current state of a (partially) fitted model through its public attributes."""
    s = Snapshot()
    s.it = it
    d = dec.decomposition
    s.P = s.V = s.w = None
    if hasattr(d, 'projection_matrices'):
        s.F = [np.array(d.A), np.array(d.blueprint_B), np.array(d.C)]
        s.P = [np.array(p) for p in d.projection_matrices]
    else:
        s.F = [np.array(f) for f in d.factor_matrices]
        s.w = np.array(d.weights, dtype=float)
    if hasattr(dec, 'uncoupled_factor_matrices'):
        s.V = [np.array(v) for v in dec.uncoupled_factor_matrices]
    s.metrics = {m: getattr(dec, m) for m in metrics}
    return s


def snap_decomposition(d):
    class Holder:
        decomposition = d
    return snap(Holder)


def same(a, b):
    """Bit equality of two snapshots."""
    def eq(x, y):
        if x is None or y is None:
            return x is y
        if isinstance(x, list):
            return len(x) == len(y) and all(eq(i, j) for i, j in zip(x, y))
        return x.shape == y.shape and np.array_equal(x, y)
    return eq(a.F, b.F) and eq(a.w, b.w) and eq(a.P, b.P) and eq(a.V, b.V)


def distance(a, b):
    """Largest relative difference of corresponding matrices of two snapshots; inf if shapes differ."""
    worst = 0.0

    def rel(x, y):
        if x.shape != y.shape:
            return np.inf
        if x.size == 0:
            return 0.0
        scale = max(np.abs(x).max(), np.abs(y).max())
        d = np.abs(x - y).max()
        if not np.isfinite(d):
            return np.inf
        return 0.0 if d == 0 else d/scale
    for x, y in zip((a.F, a.P, a.V), (b.F, b.P, b.V)):
        if (x is None) != (y is None):
            return np.inf
        if x is not None:
            if len(x) != len(y):
                return np.inf
            worst = max([worst] + [rel(i, j) for i, j in zip(x, y)])
    if a.w is not None:
        worst = max(worst, rel(a.w, b.w))
    return worst


class Interrupt(Exception):
    """Raised by a recorder to stop a fit in the middle."""


class Recorder:
    """Logger which keeps a snapshot after every iteration. Optionally interrupts the fit."""

    def __init__(self, metrics=(), stop_at=None, keep=True, hook=None):
        self.snaps, self.its, self.metrics = [], [], metrics
        self.stop_at, self.keep, self.hook = stop_at, keep, hook

    def log(self, decomposer):
        it = decomposer.current_iteration
        self.its.append(int(it))
        if self.keep:
            self.snaps.append(snap(decomposer, int(it), self.metrics))
        if self.hook is not None:
            self.hook(decomposer, self)
        if self.stop_at is not None and it == self.stop_at:
            raise Interrupt()

    def write_to_hdf5_group(self, h5group):
        pass


class Sanitised:
    """Input arrays made read-only and checksummed; `verify` tells whether any byte changed."""

    def __init__(self, *arrays, lock=True):
        self.arrays = list(arrays)
        self.sums = [self._sum(a) for a in self.arrays]
        if lock:
            for a in self.arrays:
                b = a
                while isinstance(b, np.ndarray):
                    b.flags.writeable = False
                    b = b.base

    @staticmethod
    def _sum(a):
        return (a.shape, a.dtype.str, zlib.crc32(np.ascontiguousarray(a).tobytes()))

    def verify(self):
        return all(self._sum(a) == s for a, s in zip(self.arrays, self.sums))
