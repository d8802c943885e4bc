"""C13: containers reconstruct exactly the data their factors define."""
import numpy as np
from tenkit.decomposition.decompositions import EvolvingTensor, KruskalTensor, Parafac2Tensor

from vmon import gen
from vmon.core import Kind

from .containers import ev_slices, evolving, kruskal, padded, parafac2, parts

PROPERTY = 'C13'
RULE = ('Random containers (orders 2-7, regular and irregular slices, weights of all signs, all layouts) reconstructed and '
        'compared entry by entry with the definition; conversions and single components likewise. '
        'Non-trivial: a reconstructed array was compared.')
ASSUMPTIONS = ['entries may differ by rounding relative to the sum of the absolute terms']
FLOORS = {'kruskal tensors': 8000, 'order 2': 1000, 'order 4 and more': 4000, 'evolving tensors': 3000, 'parafac2 tensors': 3000,
          'slices': 60000, 'irregular warned': 4000, 'irregular padded': 2000, 'conversions': 1500, 'component sums': 10000, 'accessors judged': 8000,
          'weights other than one': 6000}
TOL = 1e-13


def compare(mon, got, want, scale, what, **info):
    """Entrywise, relative to the sum of the absolute terms of each entry."""
    mon.check(isinstance(got, np.ndarray) and got.shape == want.shape, f'{what}: the shape differs', got=np.shape(got),
              expected=want.shape, **info)
    bad = ~(np.abs(got - want) <= TOL*10*scale)
    if (scale > 0).any():
        mon.extreme(what, float(np.nanmax(np.where(scale > 0, np.abs(got - want)/np.where(scale > 0, scale, 1), 0))/(TOL*10)))
    mon.check(not bad.any(), what, where=np.argwhere(bad)[:1].tolist(), **info)


def content(d):
    return [(a.shape, np.ascontiguousarray(a).tobytes()) for a in parts(d)]


def kruskal_tensor(rng, mon, index):
    n = [2, 3, 3, 4, 5, 3, 6, 7][index % 8]
    shape = gen.shape(rng, n=n, hi=3 if n > 5 else 7)
    d, F, w = kruskal(rng, shape=shape)
    s = 10.0**rng.uniform(-80, 80, 2) if rng.random() < 0.1 else (1, 1)
    if s[0] != 1:
        F = [F[0]*s[0], F[1]*s[1], *F[2:]]
        d = KruskalTensor([f.copy() for f in F], w.copy())
    elif rng.random() < 0.2:   # integers, with real weights
        F = [rng.integers(-3, 4, f.shape) for f in F]
        d = KruskalTensor([f.copy() for f in F], w.copy())
    before = content(d)
    info = dict(order=n, shape_=shape, rank=d.rank)
    absF, absw = [np.abs(f) for f in F], np.abs(w)
    got = d.construct_tensor()
    want, scale = gen.dense(F, w), gen.dense(absF, absw)
    compare(mon, got, want, scale, 'the reconstruction of a Kruskal tensor differs from its definition', **info)
    mon.check([int(i) for i in d.shape] == list(shape), 'the shape of a Kruskal tensor', **info)
    mon.check(content(d) == before, 'constructing changed the decomposition', **info)
    total = np.zeros(shape)
    for r in range(d.rank):
        c = d.get_single_component_decomposition(r)
        one = c.construct_tensor()
        compare(mon, one, gen.dense([f[:, r:r+1] for f in F], w[r:r+1]), gen.dense([f[:, r:r+1] for f in absF], absw[r:r+1]),
                'a single component of a Kruskal tensor', component=r, **info)
        total += one
    compare(mon, total, want, scale*(1 + d.rank), 'the components of a Kruskal tensor do not add up to it', **info)
    for i, f in enumerate(F):
        mon.check(np.array_equal(d[i], f), 'the factor matrix of a mode', mode=i, **info)
    mon.check(content(d) == before, 'taking components changed the decomposition', **info)
    got += 1   # the result is the caller's own
    mon.check(content(d) == before and np.array_equal(d.construct_tensor() + 1, got), 'the reconstruction is not independent of the factors', **info)
    mon.count('kruskal tensors')
    mon.count('order 2', int(n == 2))
    mon.count('order 4 and more', int(n >= 4))
    mon.count('weights other than one', int((w != 1).any()))
    mon.count('component sums')
    mon.state(want)
    mon.describe(kind='kruskal', **info)


def judge_evolving(mon, d, A, B, C, warns, what, Bscale=None, **info):
    slices = ev_slices(A, B, C)
    scales = ev_slices(np.abs(A), [np.abs(b) for b in B] if Bscale is None else Bscale, np.abs(C))
    irregular = len({b.shape[0] for b in B}) > 1
    before = content(d)
    got = d.construct_slices()
    mon.check(len(got) == len(slices), f'{what}: the number of slices', got=len(got), **info)
    for k in range(len(slices)):
        compare(mon, got[k], slices[k], scales[k], f'{what}: a slice differs from its definition', k=k, **info)
        compare(mon, d.construct_slice(k), slices[k], scales[k], f'{what}: one slice constructed alone', k=k, **info)
        compare(mon, np.asarray(d.B[k]), B[k], (Bscale or [np.abs(b) for b in B])[k], f'{what}: an evolving factor', k=k, **info) if not isinstance(d, Parafac2Tensor) else None
        mon.count('slices')
    mon.check([int(s) for s in d.shape] == [A.shape[0], max(b.shape[0] for b in B), len(B)], f'{what}: its shape', got=d.shape, **info)
    mon.check([tuple(int(j) for j in s) for s in d.slice_shapes] == [s.shape for s in slices], f'{what}: the shapes of its slices', got=d.slice_shapes, **info)
    raised = None
    try:
        tensor = d.construct_tensor()
    except Warning as e:
        raised = e
    if irregular and warns:
        mon.check(raised is not None, f'{what}: an irregular tensor was constructed without a warning', **info)
        mon.count('irregular warned')
    else:
        mon.check(raised is None, f'{what}: a warning was raised', irregular=irregular, **info)
        compare(mon, tensor, padded(slices), padded(scales), f'{what}: the tensor differs from the padded slices', **info)
        if irregular:
            mon.count('irregular padded')
            for k, s in enumerate(slices):
                mon.check(not tensor[:, s.shape[1]:, k].any(), f'{what}: the padding is not zero', k=k, **info)
    mon.check(content(d) == before, f'{what}: constructing changed the decomposition', **info)
    mon.check(d[0] is not None and np.array_equal(d[0], d.A) and np.array_equal(d[2], d.C) and len(d[1]) == len(B), f'{what}: indexing its modes', **info)


def judge_accessors(mon, rng, d, A, B, C, Bscale, what, **info):
    """The views of the evolving mode agree with its factors."""
    mon.check(int(d.num_elements) == sum(A.shape[0]*b.shape[0] for b in B), f'{what}: the number of elements', got=d.num_elements, **info)
    mon.check(bool(d.all_same_size) == (len({b.shape[0] for b in B}) == 1), f'{what}: whether all slices are of the same size', **info)
    mon.check(int(d.rank) == A.shape[1], f'{what}: its rank', got=d.rank, **info)
    compare(mon, d.B_unfolded, np.concatenate(B, axis=0), np.concatenate(Bscale, axis=0), f'{what}: the unfolded evolving factor', **info)
    fm = d.factor_matrices
    mon.check(len(fm) == 3 and np.array_equal(fm[0], A) and np.array_equal(fm[2], C) and len(fm[1]) == len(B), f'{what}: its factor matrices', **info)
    for bad in (3, -1, 7):
        try:
            d[bad]
        except Exception:
            pass
        else:
            mon.check(bad == -1, f'{what}: there is no mode {bad}', **info)
    if isinstance(d, Parafac2Tensor):
        k, r = int(rng.integers(len(B))), int(rng.integers(A.shape[1]))
        j = int(rng.integers(B[k].shape[0]))
        S = Bscale[k]
        compare(mon, d.B[k, :, r], B[k][:, r], S[:, r], f'{what}: a column of an evolving factor', k=k, r=r, **info)
        compare(mon, d.B[k, j], B[k][j], S[j], f'{what}: a row of an evolving factor', k=k, j=j, **info)
        compare(mon, np.asarray(d.B[k, j, r]), B[k][j, r], S[j, r], f'{what}: an entry of an evolving factor', k=k, j=j, r=r, **info)
        compare(mon, d.B[k, j:, :r+1], B[k][j:, :r+1], S[j:, :r+1], f'{what}: a part of an evolving factor', k=k, j=j, r=r, **info)
        compare(mon, d.B[-1], B[-1], Bscale[-1], f'{what}: the last evolving factor', **info)
        listed = d.B.as_list()
        mon.check(len(listed) == len(d.B) == len(B), f'{what}: the number of evolving factors', got=len(listed), **info)
        for i, b in enumerate(listed):
            compare(mon, b, B[i], Bscale[i], f'{what}: a listed evolving factor', k=i, **info)
        D = d.D
        mon.check(D.shape == (A.shape[1], len(C), len(C)), f'{what}: the shape of D', got=D.shape, **info)
        for q in range(A.shape[1]):
            mon.check(np.array_equal(D[q], np.diag(C[:, q])), f'{what}: D holds the columns of C on its diagonals', component=q, **info)
    mon.count('accessors judged')


def evolving_tensor(rng, mon, index):
    warning = [None, True, False][int(rng.integers(3))]
    d, (A, B, C) = evolving(rng, warning=warning)
    info = dict(rank=d.rank, J=[b.shape[0] for b in B], I=A.shape[0], warning=warning)
    judge_evolving(mon, d, A, B, C, warning is not False, 'evolving tensor', **info)
    judge_accessors(mon, rng, d, A, B, C, [np.abs(b) for b in B], 'evolving tensor', **info)
    mon.count('evolving tensors')
    if warning is None:
        judge_evolving(mon, EvolvingTensor.from_factor_matrices([A, B, C]), A, B, C, True, 'evolving tensor from factor matrices', **info)
    mon.describe(kind='evolving', **info)


def parafac2_tensor(rng, mon, index):
    warning = [None, True, False][int(rng.integers(3))]
    d, (A, B, C, P) = parafac2(rng, warning=warning)
    info = dict(rank=d.rank, J=[p.shape[0] for p in P], I=A.shape[0], warning=warning)
    Bs = [p @ B for p in P]
    judge_evolving(mon, d, A, Bs, C, warning is not False, 'PARAFAC2 tensor', Bscale=[np.abs(p) @ np.abs(B) for p in P], **info)
    judge_accessors(mon, rng, d, A, Bs, C, [np.abs(p) @ np.abs(B) for p in P], 'PARAFAC2 tensor', **info)
    total = [0*s for s in ev_slices(A, Bs, C)]
    for r in range(d.rank):
        one = d.get_single_component_decomposition(r)
        judge_evolving(mon, one, A[:, r:r+1], [p @ B[:, r:r+1] for p in P], C[:, r:r+1], warning is not False,
                       'a component of a PARAFAC2 tensor', Bscale=[np.abs(p) @ np.abs(B[:, r:r+1]) for p in P], component=r, **info)
        for t, s in zip(total, one.construct_slices()):
            t += s
    scales = ev_slices(np.abs(A), [np.abs(p) @ np.abs(B) for p in P], np.abs(C))
    for t, s, c in zip(total, ev_slices(A, Bs, C), scales):
        compare(mon, t, s, c*(1 + d.rank), 'the components of a PARAFAC2 tensor do not add up to it', **info)
    mon.count('component sums')
    for k in range(len(P)):
        compare(mon, d.B[k], Bs[k], np.abs(P[k]) @ np.abs(B), 'an evolving factor is not its projection times the blueprint', k=k, **info)
    mon.count('parafac2 tensors')
    mon.describe(kind='parafac2', **info)


def convert(rng, mon, index):
    d, F, w = kruskal(rng, n=3)
    before = content(d)
    e = EvolvingTensor.from_kruskaltensor(d, **([{}, dict(allow_same_class=True), dict(allow_same_class=False)][int(rng.integers(3))]))
    info = dict(rank=d.rank, shape_=[f.shape[0] for f in F])
    mon.check(isinstance(e, EvolvingTensor), 'converting gives an evolving tensor', got=type(e).__name__)
    want, scale = gen.dense(F, w), gen.dense([np.abs(f) for f in F], np.abs(w))
    compare(mon, e.construct_tensor(), want, scale, 'the converted Kruskal tensor describes other data', **info)
    for k, s in enumerate(e.construct_slices()):
        compare(mon, s, want[:, :, k], scale[:, :, k], 'a slice of the converted Kruskal tensor', k=k, **info)
    mon.check(content(d) == before, 'converting changed the Kruskal tensor', **info)
    other, _ = evolving(rng)
    same = EvolvingTensor.from_kruskaltensor(other, allow_same_class=True)
    mon.check(len(same.construct_slices()) == len(other.construct_slices()) and all(
        np.array_equal(a, b) for a, b in zip(same.construct_slices(), other.construct_slices())), 'converting an evolving tensor changes it')
    for n in (2, 4):
        bad, _, _ = kruskal(rng, n=n, hi=4)
        try:
            EvolvingTensor.from_kruskaltensor(bad)
        except Exception:
            pass
        else:
            mon.check(False, 'a Kruskal tensor that is not of third order was converted', order=n)
    mon.count('conversions')
    mon.describe(kind='conversion', **info)


KINDS = {'kruskal': Kind(kruskal_tensor, 16000, 300000), 'evolving': Kind(evolving_tensor, 6000, 100000),
         'parafac2': Kind(parafac2_tensor, 6000, 100000), 'convert': Kind(convert, 3000, 50000)}
