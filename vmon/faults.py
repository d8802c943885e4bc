"""Fault injection around the storage calls of h5py."""
import contextlib

import h5py

# the public calls by which anything gets into a file
CALLS = [(h5py.Group, 'create_group'), (h5py.Group, 'create_dataset'), (h5py.Group, 'require_group'),
         (h5py.Group, 'require_dataset'), (h5py.Group, '__setitem__'), (h5py.Dataset, '__setitem__'),
         (h5py.AttributeManager, '__setitem__'), (h5py.AttributeManager, 'create'), (h5py.AttributeManager, 'modify')]


class Fault(OSError):
    """An injected storage failure."""


class Storage:
    """Counts the outermost storage calls while armed and makes one of them fail.

    `window` tells whether a call counts: it is given the call's name and arguments.
    """

    def __init__(self, fail_at=None, when='before', error=Fault, window=None, targets=CALLS):
        self.fail_at, self.when, self.error, self.window = fail_at, when, error, window
        self.targets = targets
        self.n, self.depth, self.fired, self.armed, self.calls = 0, 0, None, False, []

    def _wrap(self, cls, name, real):
        def call(obj, *a, **k):
            if not self.armed or self.depth or (self.window is not None and not self.window(name, obj, a)):
                return real(obj, *a, **k)
            i = self.n
            self.n += 1
            what = f'{cls.__name__}.{name}({a[0] if a and isinstance(a[0], str) else ""})'
            self.calls.append(what)
            fire = i == self.fail_at and self.fired is None
            if fire and self.when == 'before':
                self.fired = what
                raise self.error('injected')
            self.depth += 1
            try:
                r = real(obj, *a, **k)
            finally:
                self.depth -= 1
            if fire:
                self.fired = what
                raise self.error('injected')
            return r
        return call

    @contextlib.contextmanager
    def patched(self):
        real = {(c, n): c.__dict__[n] for c, n in self.targets}
        try:
            for (c, n), f in real.items():
                setattr(c, n, self._wrap(c, n, f))
            yield self
        finally:
            for (c, n), f in real.items():
                setattr(c, n, f)
