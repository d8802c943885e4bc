"""C04: reported SSE, MSE, RMSE, explained variance and loss match data and model."""
import os

import numpy as np
from tenkit.decomposition.decompositions import KruskalTensor
from tenkit.decomposition.logging.logger import (ExplainedVarianceLogger, LossLogger, MSELogger, RMSELogger, SSELogger)

from vmon import gen
from vmon.core import Kind
from vmon.record import Recorder, snap

from .common import (CP_STRATA, PF2_STRATA, as_target, cmtf_case, cmtf_model, cmtf_sse, cmtf_target, cp_case, cp_model, pf2_case,
                     pf2_model, pf2_start)

PROPERTY = 'C04'
RULE = ('Random call histories (fit, continue, refit on data of another shape, refit from a given start, load a checkpoint) on '
        'one model object; all metrics are read after every iteration and after every call and compared with dense '
        'recomputation; the metric loggers with what was read. Non-trivial: metrics were judged; distinct by description.')
ASSUMPTIONS = ['errors are compared up to 1e-10 (1e-5 for single precision data) of the squared magnitudes of data and '
               'rank-one terms']
FLOORS = {'metrics judged CP': 3000, 'metrics judged PARAFAC2': 1500, 'metrics judged CMTF': 800, 'after continue': 300,
          'after refit': 300, 'after load': 150, 'after changed in place': 150, 'near-perfect reads': 200, 'logger entries judged': 5000}

LOGGERS = {'SSE': SSELogger, 'MSE': MSELogger, 'RMSE': RMSELogger, 'explained_variance': ExplainedVarianceLogger,
           'loss': LossLogger}


def judge(mon, m, name, sse, n, x2, scale, ridge_term, when, tol=1e-10, ev=True):
    got = {k: float(getattr(m, k)) for k in ('SSE', 'MSE', 'RMSE', 'loss')}
    if ev:
        got['explained_variance'] = float(m.explained_variance)
    t = tol*scale
    mon.check(got['SSE'] >= 0, 'the squared error is negative', SSE=got['SSE'], when=when, model=name)
    mon.leq('SSE', abs(got['SSE'] - sse), t, 'the squared error differs from data minus reconstruction', when=when,
            model=name, got=got['SSE'], expected=sse)
    mon.leq('MSE', abs(got['MSE'] - sse/n), t/n, 'the mean squared error does not divide by the number of entries', when=when,
            model=name, got=got['MSE'], expected=sse/n)
    mon.leq('RMSE', abs(got['RMSE']**2 - got['MSE']), 1e-9*got['MSE'] + 1e-300 + tol*1e-3*scale/n, 'RMSE is not the root of MSE', when=when,
            model=name)
    mon.leq('loss', abs(got['loss'] - sse - ridge_term), t + 1e-10*ridge_term, 'the loss is not SSE plus ridge terms', when=when,
            model=name, got=got['loss'], expected=sse + ridge_term)
    if ev:
        mon.leq('explained variance', abs(got['explained_variance'] - (1 - sse/x2)), t/x2 + tol,
                'explained variance is not one minus the share of the error', when=when, model=name)
    mon.count(f'metrics judged {name}')
    mon.count('near-perfect reads', int(sse < 1e-9*x2))
    return got


def tolerance(x):
    """The norm of single precision data is only known to single precision."""
    return 1e-5 if x.dtype == np.float32 else 1e-10


def judge_cp(mon, m, X, ridge, when, tol):
    s = snap(m)
    mon.state(*s.F, s.w)
    R = gen.dense(s.F, s.w)
    comps = np.abs(s.w)*np.prod([np.linalg.norm(f, axis=0) for f in s.F], axis=0)
    x2 = np.linalg.norm(X)**2
    rt = 0 if ridge is None else sum(r*np.linalg.norm(f)**2 for r, f in zip(ridge, s.F))
    return judge(mon, m, 'CP', np.linalg.norm(X - R)**2, X.size, x2, x2 + comps.sum()**2, rt, when, tol)


def judge_loggers(mon, loggers, rec):
    for k, lg in loggers.items():
        mon.check(len(lg.log_metrics) == len(rec) and list(lg.log_iterations) == [r['it'] for r in rec],
                  f'the {k} logger has one entry per iteration', got=list(lg.log_iterations))
        for v, r in zip(lg.log_metrics, rec):
            mon.check(np.isclose(float(v), r[k], rtol=1e-9, atol=1e-12*r['scale']), f'the {k} logger disagrees with the model',
                      got=float(v), expected=r[k])
            mon.count('logger entries judged')


def cp(rng, mon, index):
    case = cp_case(rng, CP_STRATA[index % len(CP_STRATA)])
    exact = index % 4 == 3
    if exact:   # data that can be fitted (nearly) perfectly
        case.raw = case.X = gen.dense(case.start)
    X, lay = gen.layout(rng, case.raw)
    mon.count(f'data of type {X.dtype}')
    tol = tolerance(X)
    cur = {'X': np.asarray(X, dtype=float), 'rows': [], 'tol': tol}
    loggers = {k: c() for k, c in LOGGERS.items()}

    def hook(m, rec):
        g = judge_cp(mon, m, cur['X'], case.ridge, 'in iteration', cur['tol'])
        cur['rows'].append(dict(g, it=rec.its[-1], scale=np.linalg.norm(cur['X'])**2))
    rec = Recorder(keep=False, hook=hook)
    path = os.path.join(mon.scratch, 'c.h5')
    given = exact or rng.random() < 0.4
    m = cp_model(case, loggers=[rec, *loggers.values()], max_its=int(rng.choice([1, 2, 5])),
                 init='precomputed' if given else 'random', checkpoint_path=path, checkpoint_frequency=1)

    def start(shape):
        F = [f.copy() for f in case.start] if shape == case.shape else gen.factors(rng, shape, case.rank)
        if exact and shape == case.shape:
            F = [f + 1e-7*np.abs(rng.standard_normal(f.shape))*np.abs(f).max() for f in F]
        w = np.ones(case.rank)
        if case.ridge is None and rng.random() < 0.5:
            w = gen.weights(rng, case.rank, positive=True)
            F[-1] = F[-1]/w
        return KruskalTensor(F, w)
    m.fit(X, initial_decomposition=start(case.shape) if given else None)
    judge_cp(mon, m, cur['X'], case.ridge, 'after fit', tol)
    hist = ['fit']
    for _ in range(int(rng.integers(1, 5))):
        op = str(rng.choice(['continue', 'refit', 'load', 'load', 'changed in place']))
        if op == 'continue':
            m.continue_fit(max_its=int(m.current_iteration) + int(rng.integers(0, 3)))
        elif op == 'refit':
            shape = case.shape
            if rng.random() < 0.6:
                shape = tuple(max(s, case.rank) if c == 'orth' else int(rng.integers(1, 6)) for s, c in zip(case.shape, case.cons))
                shape = tuple(max(s, 2) for s in shape)
            X2, = gen.typed(rng, [rng.standard_normal(shape)*10.0**rng.choice([-3, 0, 3])], 0.4)[0]
            cur['X'] = X2.astype(float)
            cur['tol'] = tol = tolerance(X2)
            if os.path.exists(path):
                os.remove(path)
            m.fit(X2, max_its=int(rng.integers(0, 4)), initial_decomposition=start(shape) if given else None)
            X = X2
        elif op == 'changed in place':   # another fit on the same array with other entries
            if X.dtype.kind != 'f' or not X.flags.writeable:
                continue
            X[...] = X[::-1]*3 + X.flat[0]
            cur['X'] = X.astype(float)
            if os.path.exists(path):
                os.remove(path)
            m.fit(X, max_its=int(rng.integers(0, 4)), initial_decomposition=start(X.shape) if given else None)
        elif os.path.exists(path):
            m.load_checkpoint(path)
        else:
            continue
        hist.append(op)
        mon.count(f'after {op}')
        judge_cp(mon, m, cur['X'], case.ridge, f'after {op} (history {hist})', tol)
    judge_loggers(mon, loggers, cur['rows'])
    mon.describe(model='CP', shape=case.shape, rank=case.rank, constraints=case.cons, ridge=case.ridge, data=case.data_kind,
                 layout=lay, dtype=str(X.dtype), history=hist)


def judge_pf2(mon, m, X, ridge, when, tol):
    s = snap(m)
    mon.state(*s.F)
    Y = gen.pf2_slices(*s.F, s.P)
    sse = sum(np.linalg.norm(x - y)**2 for x, y in zip(X, Y))
    x2 = sum(np.linalg.norm(x)**2 for x in X)
    comps = np.prod([np.linalg.norm(f, axis=0) for f in s.F], axis=0)
    rt = 0 if ridge is None else sum(r*np.linalg.norm(f)**2 for r, f in zip(ridge, s.F))
    mon.check(len(Y) == len(X), 'the model has as many slices as the data')
    return judge(mon, m, 'PARAFAC2', sse, sum(x.size for x in X), x2, x2 + comps.sum()**2, rt, when, tol)


def pf2(rng, mon, index):
    case = pf2_case(rng, PF2_STRATA[index % len(PF2_STRATA)])
    exact = index % 4 == 3
    if exact:
        case.raw = case.X = gen.pf2_slices(*case.start[0], case.start[1])
    cur = {'X': case.X, 'rows': [], 'tol': max(map(tolerance, case.raw))}
    mon.count(f'data of type {case.raw[0].dtype}')
    loggers = {k: c() for k, c in LOGGERS.items()}

    def hook(m, rec):
        g = judge_pf2(mon, m, cur['X'], case.ridge, 'in iteration', cur['tol'])
        cur['rows'].append(dict(g, it=rec.its[-1], scale=sum(np.linalg.norm(x)**2 for x in cur['X'])))
    rec = Recorder(keep=False, hook=hook)
    path = os.path.join(mon.scratch, 'c.h5')
    given = exact or rng.random() < 0.4
    m = pf2_model(case, loggers=[rec, *loggers.values()], max_its=int(rng.choice([1, 2, 4])),
                  init='precomputed' if given else 'random', checkpoint_path=path, checkpoint_frequency=1)
    data, st = as_target(rng, case)[0], pf2_start(case)
    m.fit(data, initial_decomposition=pf2_start(case) if given else None)
    judge_pf2(mon, m, cur['X'], case.ridge, 'after fit', cur['tol'])
    hist = ['fit']
    for _ in range(int(rng.integers(1, 4))):
        op = str(rng.choice(['continue', 'refit', 'load', 'changed in place']))
        if op == 'continue':
            m.continue_fit(max_its=int(m.current_iteration) + int(rng.integers(0, 3)))
        elif op == 'refit':
            other = pf2_case(rng, case.stratum, dims=gen.pf2_dims(rng, case.rank) + (case.rank,))
            cur['X'], cur['tol'] = other.X, max(map(tolerance, other.raw))
            if os.path.exists(path):
                os.remove(path)
            data, st = as_target(rng, other)[0], pf2_start(other)
            m.fit(data, max_its=int(rng.integers(0, 4)), initial_decomposition=st if given else None)
        elif op == 'changed in place':   # another fit on the same arrays with other entries
            own = [data] if isinstance(data, np.ndarray) else data
            if any(x.dtype.kind != 'f' or not x.flags.writeable for x in own) or len({id(x) for x in own}) < len(own):
                continue
            for x in own:
                x[...] = x[::-1]*3 + x.flat[0]
            cur['X'] = [np.array(x, dtype=float) for x in (np.moveaxis(data, -1, 0) if isinstance(data, np.ndarray) else data)]
            if os.path.exists(path):
                os.remove(path)
            m.fit(data, max_its=int(rng.integers(0, 4)), initial_decomposition=st if given else None)
        elif os.path.exists(path):
            m.load_checkpoint(path)
        else:
            continue
        hist.append(op)
        mon.count(f'after {op}')
        judge_pf2(mon, m, cur['X'], case.ridge, f'after {op} (history {hist})', cur['tol'])
    judge_loggers(mon, loggers, cur['rows'])
    mon.describe(model='PARAFAC2', I=case.I, J=case.J, K=case.K, rank=case.rank, constraints=case.cons, ridge=case.ridge,
                 data=case.data_kind, history=hist)


def judge_cmtf(mon, m, case, when):
    s = snap(m)
    mon.state(*s.F)
    sse = cmtf_sse(case, s)
    x2 = np.linalg.norm(case.X)**2
    comps = np.abs(s.w)*np.prod([np.linalg.norm(f, axis=0) for f in s.F], axis=0)
    scale = x2 + sum(np.linalg.norm(y)**2 for y in case.Y) + comps.sum()**2
    for md, v in zip(case.modes, s.V):
        scale += np.sum(np.linalg.norm(s.F[md], axis=0)*np.linalg.norm(v, axis=0))**2
    n = case.X.size + sum(y.size for y in case.Y)
    return judge(mon, m, 'CMTF', sse, n, x2, scale, 0, when, ev=False)


def coupled(rng, mon, index):
    case = cmtf_case(rng)
    cur = {'rows': [], 'case': case}
    loggers = {k: LOGGERS[k]() for k in ('SSE', 'MSE', 'RMSE', 'loss')}

    def hook(m, rec):
        g = judge_cmtf(mon, m, cur['case'], 'in iteration')
        cur['rows'].append(dict(g, it=rec.its[-1], scale=np.linalg.norm(cur['case'].X)**2))
    rec = Recorder(keep=False, hook=hook)
    m = cmtf_model(case, loggers=[rec, *loggers.values()], max_its=int(rng.choice([1, 2, 5])))
    m.fit(*cmtf_target(rng, case), case.modes)
    judge_cmtf(mon, m, case, 'after fit')
    hist = ['fit']
    for _ in range(int(rng.integers(1, 4))):
        op = str(rng.choice(['continue', 'refit']))
        if op == 'continue':
            m.continue_fit(max_its=int(m.current_iteration) + int(rng.integers(0, 3)))
        else:
            n = len(case.shape)
            other = cmtf_case(rng)
            while len(other.shape) != n:
                other = cmtf_case(rng)
            cur['case'] = other
            m.fit(*cmtf_target(rng, other), other.modes, max_its=int(rng.integers(0, 4)))
        hist.append(op)
        mon.count(f'after {op}')
        judge_cmtf(mon, m, cur['case'], f'after {op} (history {hist})')
    judge_loggers(mon, loggers, cur['rows'])
    mon.describe(model='CMTF', shape=case.shape, rank=case.rank, constraints=case.cons, modes=case.modes, history=hist)


KINDS = {'cp': Kind(cp, 900, 15000), 'pf2': Kind(pf2, 500, 8000), 'coupled': Kind(coupled, 400, 6000)}
