"""C08: fits stop exactly when the documented criteria say so."""
import numpy as np
from tenkit.decomposition.decompositions import KruskalTensor
from tenkit.decomposition.logging.logger import ExplainedVarianceLogger, LossLogger, MSELogger, RMSELogger, SSELogger

from vmon import gen, oracle
from vmon.core import Kind
from vmon.record import Recorder, snap, snap_decomposition

from .common import CP_STRATA, PF2_STRATA, cp_case, cp_model, pf2_case, pf2_model, pf2_start

PROPERTY = 'C08'
RULE = ('A free-running fit (no tolerance) gives the trajectory of monitored errors; then the same fit is run under tolerances '
        'and limits drawn around that trajectory, in one call or continued, and an offline checker compares the observed '
        'iteration trace with the stopping rule evaluated on the trajectory. Trajectories have up to 135 iterations, with tolerances aimed at round iteration numbers too. Non-trivial: a stop was judged.')
ASSUMPTIONS = ['configurations in which a tolerance lies within rounding of a monitored change are drawn again or skipped',
               'PARAFAC2 fits with orthonormal modes are started from orthonormal factors (the first change is then defined)']
FLOORS = {'stops judged': 4000, 'stops at a limit': 800, 'stops by change': 800, 'stops by change, error increasing': 10,
          'stops by relative error': 200, 'stops with default tolerances': 100, 'continued calls judged': 1500,
          'limit already reached': 400, 'fits through a fixed point': 30, 'zero limit': 100}
ROUND = [10, 16, 20, 25, 32, 40, 49, 50, 51, 60, 64, 99, 100, 101, 128]
LIB_LOGGERS = [SSELogger, MSELogger, RMSELogger, LossLogger, ExplainedVarianceLogger]


class Trajectory:
    def __init__(self, errors, noise, x2, cp):
        self.e, self.noise, self.x2, self.cp = errors, noise, x2, cp
        e = np.array(errors)
        with np.errstate(all='ignore'):
            self.rc = np.concatenate([[np.inf], (e[:-1] - e[1:])/e[:-1]])   # rc[i]: change by the i-th iteration
            self.rc_noise = np.concatenate([[0], 4*np.array([max(a, b) for a, b in zip(noise, noise[1:])])/e[:-1]])
        self.rel = e/x2

    def decide(self, i, tol, rel_tol):
        """Whether a fit stops after i iterations: True, False or None (within rounding)."""
        a = abs(self.rc[i])
        by_change = False
        if i > 0:
            if tol <= 0:
                by_change = False   # no change is below a tolerance of zero
            elif not np.isfinite(a) or abs(a - tol) <= self.rc_noise[i] + 1e-9*abs(tol):
                by_change = None
            else:
                by_change = a < tol
        by_rel = False
        if self.cp:
            if abs(self.rel[i] - rel_tol) <= 2*self.noise[i]/self.x2 + 1e-9*abs(rel_tol):
                by_rel = None
            else:
                by_rel = self.rel[i] < rel_tol
        if by_change or by_rel:
            return 'change' if by_change else 'relative error'
        if by_change is None or by_rel is None:
            return None
        return False

    def expected(self, done, limit, tol, rel_tol):
        """(iterations completed after a call with this limit, reason), or None if it depends on rounding."""
        i = done
        while i < limit:
            if i >= len(self.e):
                return None
            d = self.decide(i, tol, rel_tol)
            if d is None:
                return None
            if d:
                return i, d
            i += 1
        return i, 'limit'


def run_configs(rng, mon, tra, make, fit, T, n_configs, observed, what):
    for _ in range(n_configs):
        for _attempt in range(12):
            tol, rel_tol, default = -1.0, -1.0, False
            mode = str(rng.choice(['tol', 'tol', 'tol', 'rel', 'both', 'limit', 'default', 'zero']))
            if mode == 'zero':
                tol = 0.0
            if mode in ('tol', 'both'):
                i = int(rng.integers(1, T))
                if T > 50 and rng.random() < 0.7:   # counts a program may treat specially
                    i = int(rng.choice([n for n in ROUND if n < T]))
                a = abs(tra.rc[i])
                tol = float(a*np.exp(rng.choice([-1, 1])*rng.uniform(0.01, 0.7))) if np.isfinite(a) else 1e-3
                b = abs(tra.rc[i - 1])
                if rng.random() < (0.8 if T > 50 else 0.3) and np.isfinite(a) and b > a > 0:   # the first change below it
                    tol = float(min(a*1.5, np.sqrt(a*b)) if np.isfinite(b) else a*1.5)
            if mode in ('rel', 'both') and tra.cp:
                rel_tol = float(tra.rel[int(rng.integers(0, T))]*np.exp(rng.choice([-1, 1])*rng.uniform(0.001, 0.3)))
            if mode == 'default':
                tol, rel_tol, default = 1e-6, 1e-10, True
            limit = int(rng.integers(0, T + 1)) if rng.random() < 0.8 else T
            if mode in ('tol', 'rel') and rng.random() < 0.6:
                limit = T
            calls = [limit]
            for _c in range(int(rng.integers(0, 3))):
                calls.append(int(rng.integers(0, T + 1)))
            exp, done = [], 0
            for n in calls:
                r = tra.expected(done, n, tol, rel_tol) if n > done else (done, 'already')
                if r is None:
                    break
                exp.append(r)
                done = r[0]
            else:
                break
        else:
            mon.count('only configurations within rounding')
            continue
        kw = {} if default else dict(convergence_tol=tol)
        if tra.cp and not default:
            kw['rel_loss_tol'] = rel_tol
        by = str(rng.choice(['model', 'call', 'call below', 'call above']))
        first = calls[0]
        if by == 'model':
            kw['max_its'], arg = first, None
        else:
            kw['max_its'], arg = {'call': int(rng.integers(0, 30)), 'call below': first + 5, 'call above': max(first - 3, 0)}[by], first
        recs = [Recorder() for _ in range(int(rng.integers(1, 3)))]
        libs = [c() for c in LIB_LOGGERS]
        loggers = [*recs, *libs]
        loggers = [loggers[j] for j in rng.permutation(len(loggers))]
        m = make(loggers=loggers, print_frequency=[None, -1, 3][int(rng.integers(3))] if tra.cp else int(rng.choice([-1, 3])),
                 default=default, **kw)
        done = 0
        own = tra
        for c, n in enumerate(calls):
            if c == 0:
                fit(m, arg)
            elif rng.random() < 0.3:
                m.max_its = n          # the limit of the model itself
                m.continue_fit()
            else:
                if rng.random() < 0.5:
                    m.max_its = int(rng.integers(0, 30))  # overridden by the call
                m.continue_fit(max_its=n)
            snaps = recs[0].snaps
            own = observed([tra.start, *snaps])   # the stopping rule is evaluated on the errors of this very run
            info = dict(tol=tol, rel_tol=rel_tol, limits=calls, call=c, by=by, default=default)
            r = own.expected(done, n, tol, rel_tol) if n > done else (done, 'already')
            if r is None:
                if len(snaps) == n or own.decide(len(snaps), tol, rel_tol) is None:
                    mon.count('stops within rounding, not judged')
                    done = len(snaps)
                    continue
                r = 'more', 'neither a criterion nor the limit was met'
            want, why = r
            for rec in recs:
                mon.check(rec.its == list(range(want)) if want != 'more' else False,
                          f'{what}: the iterations performed differ from the stopping rule',
                          got=rec.its, expected=want, why=why, **info)
            for lg in libs:
                mon.check(list(lg.log_iterations) == list(range(want)) and len(lg.log_metrics) == want,
                          f'{what}: an iteration was not reported once to every logger', got=list(lg.log_iterations), expected=want, **info)
            mon.check(m.current_iteration == want, f'{what}: the iteration count of the model', got=m.current_iteration, **info)
            done = want
            mon.count('stops judged')
            mon.count('continued calls judged', int(c > 0))
            mon.count('zero limit', int(n == 0))
            mon.count('stops with default tolerances', int(default))
            if why == 'already':
                mon.count('limit already reached')
            elif why == 'limit':
                mon.count('stops at a limit')
            else:
                mon.count(f'stops by {why}')
                mon.count('stops by change, error increasing', int(why == 'change' and own.rc[want] < 0))
            for s in snaps:
                mon.state(*s.F)


def cp(rng, mon, index):
    case = cp_case(rng, ['free', 'nn_all', 'ridge', 'orth_one', 'mixed', 'ridge', 'mixed_ridge', 'nn_some'][index % 8],
                   data_kind=[None, None, 'lowrank', 'noise'][index % 4])
    T = int(rng.choice([6, 12, 20])) if index % 6 else int(rng.integers(60, 135))
    exact = rng.random() < 0.25
    if exact:   # nearly exact data: the relative error matters
        case.X = gen.dense(case.start)
        case.X = case.X + 1e-7*np.linalg.norm(case.X)/np.sqrt(case.X.size)*rng.standard_normal(case.shape)
    near = exact and rng.random() < 0.5 or case.ridge is not None and rng.random() < 0.5
    start = case.start
    if near:   # close to a solution; with a ridge penalty the squared error then increases
        if not exact:
            case.X = gen.dense(case.start)
        start = [f if c == 'orth' else f*(1 + 1e-3*rng.standard_normal(f.shape)) for f, c in zip(start, case.cons)]
    init = 'precomputed' if near or rng.random() < 0.6 else 'random'
    seed = int(rng.integers(2**31))

    def make(default=False, **kw):
        m = cp_model(case, init=init, **kw)
        if default:
            from tenkit.decomposition.cp import CP_ALS
            args = dict(case.kw, init=init, **kw)
            m = CP_ALS(case.rank, **args)
        return m

    def fit(m, n):
        np.random.seed(seed)
        m.fit(case.X, max_its=n, initial_decomposition=KruskalTensor([f.copy() for f in start]) if init == 'precomputed' else None)
    m0 = make(max_its=0)
    fit(m0, None)
    rec = Recorder()
    m = make(loggers=[rec], max_its=T)
    fit(m, None)
    mon.check(rec.its == list(range(T)), 'a fit without tolerances runs to its limit', got=rec.its)
    tra = trajectory(case.X, [snap(m0), *rec.snaps])
    tra.start = snap(m0)
    mon.describe(shape=case.shape, rank=case.rank, constraints=case.cons, ridge=case.ridge, data=case.data_kind, init=init,
                 near=near, exact=exact, T=T)
    run_configs(rng, mon, tra, make, fit, T, 4 if T < 50 else 10, lambda snaps: trajectory(case.X, snaps), 'CP')


def trajectory(X, snaps):
    e, noise = [], []
    x2 = np.linalg.norm(X)**2
    for s in snaps:
        e.append(np.linalg.norm(X - gen.dense(s.F, s.w))**2)
        comps = np.abs(s.w)*np.prod([np.linalg.norm(f, axis=0) for f in s.F], axis=0)
        noise.append(1e-13*(x2 + comps.sum()**2))
    return Trajectory(e, noise, x2, True)


def pf2_trajectory(case, snaps):
    x2 = sum(np.linalg.norm(x)**2 for x in case.X)
    e, noise = [], []
    for s in snaps:
        e.append(oracle.pf2_loss(case.X, *s.F, s.P, case.ridge))
        comps = np.prod([np.linalg.norm(f, axis=0) for f in s.F], axis=0)
        noise.append(1e-13*(x2 + comps.sum()**2 + e[-1]))
    return Trajectory(e, noise, x2, False)


def pf2(rng, mon, index):
    case = pf2_case(rng, PF2_STRATA[index % len(PF2_STRATA)])
    T = int(rng.choice([5, 9, 14])) if index % 9 else int(rng.integers(60, 110))
    orth = 'orth' in case.cons
    init = 'precomputed' if orth or rng.random() < 0.6 else 'random'
    seed = int(rng.integers(2**31))

    def make(default=False, **kw):
        if default:
            from tenkit.decomposition.parafac2 import Parafac2_ALS
            return Parafac2_ALS(case.rank, **dict(case.kw, init=init, cp_updates_per_it=case.sweeps, **kw))
        return pf2_model(case, init=init, **kw)

    def fit(m, n):
        np.random.seed(seed)
        m.fit(case.X, max_its=n, initial_decomposition=pf2_start(case) if init == 'precomputed' else None)
    m0 = make(max_its=0)
    fit(m0, None)
    rec = Recorder()
    m = make(loggers=[rec], max_its=T)
    fit(m, None)
    mon.check(rec.its == list(range(T)), 'a fit without tolerances runs to its limit', got=rec.its)
    tra = pf2_trajectory(case, [snap(m0), *rec.snaps])
    tra.start = snap(m0)
    mon.describe(I=case.I, J=case.J, K=case.K, rank=case.rank, constraints=case.cons, ridge=case.ridge, data=case.data_kind,
                 init=init, T=T)
    run_configs(rng, mon, tra, make, fit, T, 3 if T < 50 else 8, lambda snaps: pf2_trajectory(case, snaps), 'PARAFAC2')


def fixed_points(rng, mon, index):
    """A fit whose error does not change any more goes on when the tolerance is zero, and stops with any larger one."""
    T = int(rng.integers(60, 160))
    is_pf2 = index % 2 == 1
    rec = Recorder()
    if is_pf2:
        case = pf2_case(rng, ['free', 'nn_a', 'nn_c'][index//2 % 3], max_rank=1, data_kind='lowrank')
        F, P = case.start
        case.X = case.raw = [x + 0.05*np.linalg.norm(x)/np.sqrt(x.size)*rng.standard_normal(x.shape) for x in gen.pf2_slices(*F, P)]
        kw = dict(init='precomputed', max_its=T, convergence_tol=0, loggers=[rec])
        m = pf2_model(case, **kw)
        start = pf2_start(case)
    else:
        case = cp_case(rng, ['free', 'nn_some', 'ridge'][index//2 % 3], max_rank=1)
        X = gen.dense(case.start)
        case.X = X + 0.05*np.linalg.norm(X)/np.sqrt(X.size)*rng.standard_normal(X.shape)
        kw = dict(init='precomputed', max_its=T, convergence_tol=0, loggers=[rec], rel_loss_tol=[0, -1][int(rng.integers(2))])
        m = cp_model(case, **kw)
        start = KruskalTensor([f.copy() for f in case.start])
    mon.describe(kind='fixed points', pf2=is_pf2, rank=1, constraints=case.cons, ridge=case.ridge, T=T)
    tra = pf2_trajectory(case, [snap_start(case, is_pf2)]) if is_pf2 else trajectory(case.X, [snap_start(case, is_pf2)])
    if tra.rel[0] < 1e-9:
        mon.count('exact data, not judged')
        return
    m.fit(case.X, initial_decomposition=start)
    same_as_before = [all(np.array_equal(a, b) for a, b in zip([*s.F, *(s.P or [])], [*t.F, *(t.P or [])])) for s, t in zip(rec.snaps, rec.snaps[1:])]
    mon.check(rec.its == list(range(T)), 'a fit with a tolerance of zero stopped before its limit', got=len(rec.its), T=T,
              unchanged=sum(same_as_before))
    mon.count('stops judged')
    mon.count('stops at a limit')
    mon.count('fits through a fixed point', int(any(same_as_before)))
    for s in rec.snaps[:5]:
        mon.state(*s.F)


def snap_start(case, is_pf2):
    if is_pf2:
        return snap_decomposition(pf2_start(case))
    return snap_decomposition(KruskalTensor([f.copy() for f in case.start]))


KINDS = {'cp': Kind(cp, 900, 30000), 'pf2': Kind(pf2, 500, 12000), 'fixed_points': Kind(fixed_points, 160, 3000)}
