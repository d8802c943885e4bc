"""C25: progress reports come when they are due, tell the truth and change nothing."""
import contextlib
import io
import os
import re

import numpy as np
from tenkit.decomposition import logging  # noqa: F401
from tenkit.decomposition.decompositions import KruskalTensor

from vmon import gen
from vmon.core import Kind
from vmon.record import Interrupt, Recorder, distance, snap

from .common import (CP_STRATA, PF2_STRATA, cmtf_case, cmtf_model, cmtf_sse, cmtf_target, cp_case, cp_model, pf2_case, pf2_model, pf2_start,
                     share)

PROPERTY = 'C25'
RULE = ('Standard output of fits, continued, interrupted and resumed fits is captured together with snapshots of the model after every '
        'iteration; the lines must be those of the due iterations, once each and in order, and their numbers must agree with a dense '
        'recomputation from the snapshots. Silent fits must write nothing. Reported and silent fits must agree. Non-trivial: a line '
        'was read or a silent fit performed iterations.')
ASSUMPTIONS = ['a line starts with the number of the iteration and gives mean squared error, loss and improvement in this order',
               'a frequency of zero is outside the scope', 'numbers below the rounding level of the data are not compared']
FLOORS = {'lines read': 9000, 'silent fits': 700, 'reports compared with silent fits': 500, 'frequency > 1': 500,
          'improvements compared': 7500, 'losses compared': 8500, 'ridge losses': 600, 'continued': 280, 'resumed': 90, 'interrupted': 120,
          'negative improvements': 10, 'CP starts': 5}
NUMBER = re.compile(r'(?<![\w.])[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf|nan)(?![\w])', re.I)


def parse(mon, text, **info):
    """The reports in a text: [(iteration, mse, loss, improvement)]."""
    out = []
    for line in text.splitlines():
        nums = NUMBER.findall(line)
        mon.check(len(nums) == 4, 'a line of output is not a report of iteration, error, loss and improvement', line=line, **info)
        mon.check(re.fullmatch(r'\d+', nums[0]) is not None, 'a report does not start with its iteration', line=line, **info)
        out.append((int(nums[0]), *map(float, nums[1:])))
    return out


class Problem:
    def __init__(self, rng, which, index):
        self.which = which
        if which == 'cp':
            self.case = c = cp_case(rng, CP_STRATA[index % len(CP_STRATA)], max_rank=4, big=0.05)
            self.data = [gen.layout(rng, c.raw)[0]]
            self.parts = [c.X]
        elif which == 'pf2':
            self.case = c = pf2_case(rng, PF2_STRATA[index % len(PF2_STRATA)])
            self.data = [gen.layout(rng, x)[0] for x in c.raw]
            if rng.random() < 0.5:
                self.data = share(self.data)
            self.parts = c.X
        else:
            self.case = c = cmtf_case(rng)
            X, Y = cmtf_target(rng, c)
            self.data = [X, *Y]
            self.parts = [c.X, *c.Y]
        self.x2 = sum(np.linalg.norm(x)**2 for x in self.parts)
        self.size = sum(x.size for x in self.parts)
        inits = ['precomputed', 'precomputed', 'random']
        if which != 'cmtf' and 'nn' not in c.cons and c.dtype != 'float32' and c.rank <= (c.I if which == 'pf2' else min(c.shape)):
            inits.append('svd')
            if which == 'pf2' and len(set(c.J)) == 1:
                inits += ['cp', 'cp']
        self.init = str(rng.choice(inits))
        self.seed = int(rng.integers(2**31))

    def model(self, **kw):
        args = dict(init=self.init)
        args.update(kw)
        return dict(cp=cp_model, pf2=pf2_model, cmtf=cmtf_model)[self.which](self.case, **args)

    def fit(self, m, its=None, start=None):
        if start is None and self.init == 'precomputed':
            start = pf2_start(self.case) if self.which == 'pf2' else KruskalTensor([f.copy() for f in self.case.start])
        kw = dict(max_its=its, initial_decomposition=start)
        np.random.seed(self.seed)
        if self.which == 'cp':
            m.fit(self.data[0], **kw)
        elif self.which == 'pf2':
            m.fit(list(self.data), **kw)
        else:
            m.fit(self.data[0], list(self.data[1:]), list(self.case.modes), **kw)

    def sse(self, s):
        c = self.case
        if self.which == 'pf2':
            return sum(np.linalg.norm(x - y)**2 for x, y in zip(c.X, gen.pf2_slices(*s.F, s.P)))
        if self.which == 'cp':
            return np.linalg.norm(c.X - gen.dense(s.F, s.w))**2
        return cmtf_sse(c, s)

    def loss(self, s):
        r = getattr(self.case, 'ridge', None)
        return self.sse(s) + (sum(p*np.linalg.norm(f)**2 for p, f in zip(r, s.F)) if r else 0)

    def level(self, s):
        """What rounding may do to a squared error."""
        terms = np.prod([np.linalg.norm(f, axis=0) for f in s.F], axis=0)
        if s.w is not None:
            terms = terms*s.w
        extra = sum(np.linalg.norm(v*np.linalg.norm(s.F[m], axis=0))**2 for v, m in zip(s.V, self.case.modes)) if s.V else 0
        return 1e-12*(self.x2 + np.sum(np.abs(terms))**2 + extra)*(1e6 if self.case.dtype in ('float32',) else 1)


def captured(fn):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fn()
    return out.getvalue()


def judge(mon, p, text, rec, f, start=None, first=0, **info):
    """The text against the snapshots of the iterations it should report. start: snapshot before the first of them."""
    lines = parse(mon, text, frequency=f, **info)
    due = [i for i in rec.its if i % f == 0] if f is not None and f > 0 else []
    mon.check([x[0] for x in lines] == due, 'other iterations are reported than are due', frequency=f, reported=[x[0] for x in lines], due=due, **info)
    if f is None or f < 0:
        if rec.its:
            mon.count('silent fits')
        return
    if f > 1:
        mon.count('frequency > 1', len(lines))
    by_it = {s.it: s for s in rec.snaps}
    monitored = p.loss if p.which == 'pf2' else p.sse
    for it, mse, loss, change in lines:
        s = by_it[it]
        mon.count('lines read')
        lev = p.level(s)
        sse = p.sse(s)
        mon.leq('mean squared error', abs(mse - sse/p.size), 6e-6*abs(mse) + lev/p.size, 'the reported mean squared error is another one', it=it,
                reported=mse, recomputed=sse/p.size, **info)
        want = p.loss(s)
        mon.leq('loss', abs(loss - want), 6e-6*abs(loss) + lev, 'the reported loss is another one', it=it, reported=loss, recomputed=want, **info)
        mon.count('losses compared')
        if getattr(p.case, 'ridge', None) and abs(want - sse) > 1e-4*want:
            mon.count('ridge losses')
        before = by_it.get(it - 1, start if it == first else None)
        if before is None:
            continue
        e0, e1 = monitored(before), monitored(s)
        lev = max(lev, p.level(before))
        if not (e0 > 1e3*lev and np.isfinite(e0)):
            mon.count('improvements at rounding level')
            continue
        want = (e0 - e1)/e0
        mon.leq('improvement', abs(change - want), 6e-6*abs(change) + 4*lev/e0*max(1, abs(want)), 'the reported improvement is another one',
                it=it, reported=change, recomputed=want, **info)
        mon.count('improvements compared')
        if want < -1e-9:
            mon.count('negative improvements')
        mon.state(f'{it} {mse} {loss} {change}')


def frequency(rng):
    r = rng.random()
    if r < 0.4:
        return 1
    if r < 0.75:
        return int(rng.integers(2, 6))
    if r < 0.8:
        return int(rng.integers(6, 40))
    return None if rng.random() < 0.5 else -int(rng.integers(1, 4))


def begin(rng, mon, index, which):
    p = Problem(rng, which, index)
    f = frequency(rng)
    its = int(rng.integers(1, 13))
    info = dict(model=which, rank=p.case.rank, constraints=p.case.cons, init=p.init, dtype=p.case.dtype)
    mon.describe(frequency=f, its=its, **info)
    return p, f, its, info


def zero(p):
    """The starting point, as the fit sees it."""
    m = p.model(print_frequency=-1)
    p.fit(m, its=0)
    return snap(m)


def start_of(p):
    # Orthonormal modes of PARAFAC2 starts are changed before the first iteration, CMTF adds uncoupled factors to the start
    return zero(p) if p.which == 'cp' or (p.which == 'pf2' and 'orth' not in p.case.cons) else None


def whole(rng, mon, index, which):
    p, f, its, info = begin(rng, mon, index, which)
    s0 = start_of(p)
    rec = Recorder()
    m = p.model(loggers=[rec], print_frequency=f)
    text = captured(lambda: p.fit(m, its=its))
    judge(mon, p, text, rec, f, s0, **info)
    if p.init == 'cp':
        mon.count('CP starts')
    if f is not None and f > 0:   # the same fit in silence
        rec2 = Recorder()
        silent = p.model(loggers=[rec2], print_frequency=None if rng.random() < 0.5 else -1)
        text = captured(lambda: p.fit(silent, its=its))
        judge(mon, p, text, rec2, None, **info)
        mon.check(rec2.its == rec.its, 'reporting changed the iterations', reported=rec.its, silent=rec2.its, **info)
        d = max([distance(a, b) for a, b in zip(rec.snaps[:3], rec2.snaps[:3])], default=0)
        mon.leq('difference', d, 1e-6, 'reporting changed the fit', **info)
        mon.count('reports compared with silent fits')


def tolerant(rng, mon, index, which):
    """Fits which stop early by their tolerances: what is printed stops with them."""
    p, f, its, info = begin(rng, mon, index, which)
    rec = Recorder()
    m = p.model(loggers=[rec], print_frequency=f, convergence_tol=float(10.0**rng.uniform(-5, -1)))
    s0 = start_of(p)
    text = captured(lambda: p.fit(m, its=60))
    judge(mon, p, text, rec, f, s0, **info)


def histories(rng, mon, index):
    """Continued, interrupted, resumed and repeated fits: every iteration is reported when it is performed."""
    which = ['cp', 'pf2', 'cp', 'pf2', 'cmtf'][index % 5]
    p, f, its, info = begin(rng, mon, index, which)
    path = os.path.join(mon.scratch, 'check.h5')
    rec = Recorder(stop_at=int(rng.integers(its)) if rng.random() < 0.3 else None)
    m = p.model(loggers=[rec], print_frequency=f)
    if which != 'cmtf':
        m.checkpoint_path = path
        m.checkpoint_frequency = int(rng.integers(1, 4))
    s0 = start_of(p)

    def run():
        try:
            p.fit(m, its=its)
        except Interrupt:
            mon.count('interrupted')
    judge(mon, p, captured(run), rec, f, s0, **info)
    if rec.stop_at is None:
        for _ in range(int(rng.integers(1, 3))):
            last = snap(m)
            first = len(rec.its)
            rec.its, rec.snaps = [], []
            if rng.random() < 0.3:
                f = m.print_frequency = int(rng.integers(1, 4))
            its += int(rng.integers(0, 5))
            text = captured(lambda: m.continue_fit(max_its=its))
            judge(mon, p, text, rec, f, last if which != 'cmtf' else None, first=rec.its[0] if rec.its else 0, **info)
            mon.count('continued')
    if which != 'cmtf' and os.path.exists(path) and rng.random() < 0.6:
        rec2 = Recorder()
        r = p.model(loggers=[rec2], print_frequency=f, init=path)
        text = captured(lambda: p.fit(r, its=its + int(rng.integers(1, 6)), start=None) if p.init != 'precomputed'
                        else fit_from(p, r, its + int(rng.integers(1, 6))))
        judge(mon, p, text, rec2, f, **info)
        mon.check(not rec2.its or rec2.its[0] > 0, 'the resumed fit did not count on', its=rec2.its, **info)
        mon.count('resumed')
    # another fit of the same model
    rec3 = Recorder()
    m.loggers, m.checkpoint_path = [rec3], None
    f = frequency(rng)
    m.print_frequency = -1 if f is None else f
    text = captured(lambda: p.fit(m, its=int(rng.integers(0, 5))))
    judge(mon, p, text, rec3, f, s0, **info)


def fit_from(p, m, its):
    if p.which == 'pf2':
        m.fit(list(p.data), max_its=its)
    else:
        m.fit(p.data[0], max_its=its)


def kind(which, fn):
    def run(rng, mon, index):
        fn(rng, mon, index, which)
    return run


KINDS = {'cp': Kind(kind('cp', whole), 500, 6000), 'pf2': Kind(kind('pf2', whole), 400, 5000), 'cmtf': Kind(kind('cmtf', whole), 200, 2500),
         'tolerant_cp': Kind(kind('cp', tolerant), 200, 2500), 'tolerant_pf2': Kind(kind('pf2', tolerant), 200, 2500),
         'histories': Kind(histories, 500, 6000)}
