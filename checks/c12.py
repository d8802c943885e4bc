"""C12: stored decompositions load back exactly, and only as their own type."""
import os
import pathlib

import h5py
import numpy as np
from tenkit.decomposition.decompositions import EvolvingTensor, KruskalTensor, Parafac2Tensor

from vmon.core import Kind
from vmon.record import Sanitised

from .containers import evolving, kruskal, parafac2, parts

PROPERTY = 'C12'
RULE = ('Random containers of the three kinds (2-1200 modes or slices, regular and irregular, several dtypes and layouts, '
        'special values) stored to files and groups and loaded back, also as the wrong type. '
        'Non-trivial: a loaded container was compared with the stored one.')
ASSUMPTIONS = ['arrays are compared by shape, dtype and bytes']
TYPES = [KruskalTensor, EvolvingTensor, Parafac2Tensor]
FLOORS = {f'{t.__name__} loaded': 900 for t in TYPES}
FLOORS.update({f'{a.__name__} as {b.__name__} refused': 500 for a in TYPES for b in TYPES if a is not b})
FLOORS.update({'more than ten modes or slices': 400, 'more than 100 modes or slices': 30, 'special values': 300, 'reconstructions compared': 1500,
               'irregular': 500})


def content(d):
    return [(a.shape, a.dtype.str, np.ascontiguousarray(a).tobytes()) for a in parts(d)]


def equal(mon, got, want, ref, what, **info):
    mon.check(type(got) is type(want), f'{what}: another type', got=type(got).__name__, **info)
    g = content(got)
    mon.check(len(g) == len(ref), f'{what}: another number of matrices', got=len(g), expected=len(ref), **info)
    for i, (a, b) in enumerate(zip(g, ref)):
        mon.check(a == b, f'{what}: matrix {i} differs' if len(g) < 8 else f'{what}: a matrix differs', which=i, got=a[:2], expected=b[:2], **info)
    mon.check(got.rank == want.rank, f'{what}: another rank', **info)
    mon.check([int(s) for s in got.shape] == [int(s) for s in want.shape], f'{what}: another shape', **info)


def spoil(rng, a):
    """Some values that do not survive conversions."""
    b = a.copy()
    flat = b.reshape(-1)
    vals = [np.nan, np.inf, -np.inf, -0.0, 5e-324, 1.7976931348623157e308, 0.1, np.nextafter(1, 2)]
    for _ in range(max(1, flat.size//4)):
        flat[int(rng.integers(flat.size))] = vals[int(rng.integers(len(vals)))]
    return b


def build(rng, mon, kind):
    size = rng.random()
    n = int(rng.integers(1001, 1200)) if size < 0.006 else int(rng.integers(101, 300)) if size < 0.03 else int(rng.integers(11, 40)) if size < 0.2 else None
    special, dtype = False, None
    r = rng.random()
    if r < 0.15:
        special = True
    elif r < 0.35:
        dtype = [np.float32, np.int64, np.int32, np.float16, np.complex128, bool, np.dtype('>f8')][int(rng.integers(7))]

    def tr(a):
        if dtype is not None:
            return a.astype(dtype)
        return spoil(rng, a) if special else a
    if kind is KruskalTensor:
        if n is None:
            d, F, w = kruskal(rng)
        else:
            d, F, w = kruskal(rng, shape=tuple(int(rng.integers(1, 3)) for _ in range(n)), big=0)
        if dtype is not None or special:
            w = tr(w) if special else w
            d = KruskalTensor([tr(f) for f in F], w)
    else:
        dims = None
        if n is not None:
            r_ = int(rng.integers(1, 3))
            dims = (int(rng.integers(1, 4)), [int(rng.integers(r_, r_ + 4)) for _ in range(n)], n)
        warn = [None, True, False][int(rng.integers(3))]
        if kind is EvolvingTensor:
            d, (A, B, C) = evolving(rng, dims, warning=warn, rank=None if n is None else r_)
            if dtype is not None or special:
                kw = {} if warn is None else dict(warning=warn)
                d = EvolvingTensor(tr(A), [tr(b) for b in B], tr(C), **kw)
        else:
            d, (A, B, C, P) = parafac2(rng, dims, warning=warn, rank=None if n is None else r_)
            if dtype is not None or special:
                kw = {} if warn is None else dict(warning=warn)
                d = Parafac2Tensor(tr(A), tr(B), tr(C), [tr(p) for p in P], **kw)
        mon.count('irregular', int(len({s[1] for s in d.slice_shapes}) > 1))
    m = len(parts(d))
    mon.count('more than ten modes or slices', int(m > 13))
    mon.count('more than 100 modes or slices', int(m > 103))
    mon.count('special values', int(special))
    mon.describe(kind=kind.__name__, rank=d.rank, modes_or_slices=n or m, dtype=str(dtype), special=special)
    return d, special or dtype is not None


def reconstruction(d):
    if isinstance(d, KruskalTensor):
        return d.construct_tensor()
    return d.construct_slices()


def tensor(d):
    try:
        return d.construct_tensor()
    except Warning:
        return None


def close(a, b):
    if isinstance(a, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-12*max(np.abs(b).max(initial=0), 1e-300))


def roundtrip(rng, mon, index):
    kind = TYPES[index % 3]
    d, odd = build(rng, mon, kind)
    ref = content(d)
    locks = Sanitised(*[a for a in parts(d)], lock=False) if kind is Parafac2Tensor else Sanitised(*parts(d))
    path = os.path.join(mon.scratch, 'x.h5')
    target = pathlib.Path(path) if rng.random() < 0.3 else path
    if rng.random() < 0.2:  # an existing file is replaced
        other, _ = build(rng, mon, TYPES[int(rng.integers(3))])
        other.store(path)
        mon.count('files replaced')
        mon.describe(kind=kind.__name__)
    d.store(target)
    mon.check(locks.verify() and content(d) == ref, 'storing changed the decomposition')
    got = kind.from_file(target)
    equal(mon, got, d, ref, 'loading from the file', special=odd)
    mon.count(f'{kind.__name__} loaded')
    mon.state(str(ref[0]))
    # the copy lives on without the file, and independently of the original
    os.remove(path)
    if not odd and len(parts(d)) < 40 and np.prod([float(s) for s in d.shape]) < 1e5:
        mon.check(close(reconstruction(got), reconstruction(d)), 'the loaded decomposition reconstructs other data')
        if kind is not KruskalTensor:
            a, b = tensor(got), tensor(d)
            mon.check((a is None) == (b is None), 'the loaded decomposition treats irregular slices differently')
            mon.check(b is None or close(a, b), 'the loaded decomposition reconstructs another tensor')
        mon.count('reconstructions compared')
    got.store(path)
    equal(mon, kind.from_file(path), d, ref, 'loading what was loaded and stored again')
    for t in TYPES:
        if t is kind:
            continue
        try:
            wrong = t.from_file(path)
        except Exception:
            pass
        else:
            mon.check(False, f'a {kind.__name__} was loaded as a {t.__name__}', got=type(wrong).__name__)
        mon.count(f'{kind.__name__} as {t.__name__} refused')


def groups(rng, mon, index):
    """Several decompositions in one file."""
    path = os.path.join(mon.scratch, 'many.h5')
    todo = {}
    n = int(rng.integers(2, 6))
    if rng.random() < 0.5:
        with h5py.File(path, 'w') as h5:
            for i in range(n):
                d, _ = build(rng, mon, TYPES[int(rng.integers(3))])
                todo[f'a/{i}' if i % 2 else f'g{i}'] = (d, content(d))
            for name, (d, _) in todo.items():
                d.store_in_hdf5_group(h5.create_group(name))
    else:
        for i in range(n):
            d, _ = build(rng, mon, TYPES[int(rng.integers(3))])
            todo[f'g{i}'] = (d, content(d))
            with h5py.File(path, 'a') as h5:
                d.store_in_hdf5_group(h5.create_group(f'g{i}'))
    mon.describe(kind='groups', n=n)
    with h5py.File(path, 'r') as h5:
        for i in rng.permutation(len(todo)):
            name, (d, ref) = list(todo.items())[i]
            mon.check(content(d) == ref, 'storing changed a decomposition')
            equal(mon, type(d).load_from_hdf5_group(h5[name]), d, ref, 'loading from a group')
            mon.count(f'{type(d).__name__} loaded')
            for t in TYPES:
                if t is type(d):
                    continue
                try:
                    t.load_from_hdf5_group(h5[name])
                except Exception:
                    pass
                else:
                    mon.check(False, f'a {type(d).__name__} was loaded as a {t.__name__}', group=name)
                mon.count(f'{type(d).__name__} as {t.__name__} refused')


def fitted(rng, mon, index):
    """The containers of fitted models."""
    from .common import cp_case, cp_model, pf2_case, pf2_model
    if index % 2:
        case = pf2_case(rng)
        m = pf2_model(case, max_its=int(rng.integers(0, 4)))
    else:
        case = cp_case(rng)
        m = cp_model(case, max_its=int(rng.integers(0, 4)))
    m.fit(case.X)
    d = m.decomposition
    ref = content(d)
    path = os.path.join(mon.scratch, 'x.h5')
    d.store(path)
    mon.check(content(d) == ref, 'storing changed the decomposition')
    equal(mon, type(d).from_file(path), d, ref, 'loading a fitted decomposition')
    mon.count(f'{type(d).__name__} loaded')
    mon.describe(kind='fitted', pf2=bool(index % 2), rank=case.rank, constraints=case.cons)


KINDS = {'roundtrip': Kind(roundtrip, 4500, 120000), 'groups': Kind(groups, 400, 10000), 'fitted': Kind(fitted, 200, 4000)}
