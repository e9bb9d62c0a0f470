"""C39: calls in several threads do not interfere.

Threads run public functions under a scheduler that attaches to the line events of glass
and hands control from thread to thread at (seeded) random source lines, so that one call
is suspended in the middle of another one.  Every result must be what the same call gives
alone.
"""

import threading
import time
import warnings

import numpy as np

from .. import catalog as C
from .. import core, datapath
from ..core import Inconclusive, case
from .c30 import floats, outcome, tol  # noqa: F401

PID = "C39"
NAMES = sorted(n for n, s in C.ENTRIES.items())
SAMPLERS = sorted(n for n, s in C.ENTRIES.items() if s.rng)
ME = threading.local()


class Scheduler:
    """One thread runs at a time; at a line of glass, another one may be chosen."""

    def __init__(self, seed, prob):
        self.r, self.prob = np.random.default_rng(seed), prob
        self.live, self.sems = [], {}
        self.clock = self.switches = self.stalls = 0
        self.path = 0
        self.mutex = threading.Lock()

    def add(self, k):
        self.sems[k] = threading.Semaphore(0)
        self.live.append(k)

    def hand_over(self, k):
        """Called by thread k (running): let another one run, and wait for the next turn."""
        other = self.live[int(self.r.integers(len(self.live)))]
        if other == k:
            return
        self.switches += 1
        self.sems[other].release()
        self.wait(k)

    def wait(self, k):
        while not self.sems[k].acquire(timeout=1.0):
            with self.mutex:
                now = self.clock
            time.sleep(0.5)
            if now == self.clock:
                # the running thread is blocked (on a lock of the code under test): go on without waiting
                self.stalls += 1
                return

    def line(self, code, line):
        k = getattr(ME, "k", None)
        if k is None:
            return
        self.clock += 1
        if self.r.random() < self.prob:
            self.path = hash((self.path, k, code.co_name, line))
            self.hand_over(k)

    def done(self, k):
        self.live.remove(k)
        if self.live:
            self.sems[self.live[int(self.r.integers(len(self.live)))]].release()


class Lockstep(Scheduler):
    """Two threads advance in turns, one (or a few) source lines each, the second one some lines behind."""

    def __init__(self, seed, lag, stride):
        super().__init__(seed, 1.0)
        self.lag, self.stride, self.turn = lag, stride, 0

    def line(self, code, line):
        k = getattr(ME, "k", None)
        if k is None:
            return
        self.clock += 1
        if self.lag > 0:  # let the first thread get ahead
            self.lag -= 1
            return
        self.turn += 1
        if self.turn % self.stride == 0:
            others = [i for i in self.live if i != k]
            if not others:
                return
            self.path = hash((self.path, k, code.co_name, line))
            self.switches += 1
            self.sems[others[0]].release()
            self.wait(k)


def together(c, jobs, prob, sched=None):
    """Run lists of calls in threads; returns results by thread."""
    sched = sched or Scheduler(int(c.r.integers(1 << 30)), prob)
    results = [[] for _ in jobs]

    def work(k):
        sched.wait(k)
        ME.k = k
        try:
            for job in jobs[k]:
                try:
                    results[k].append(job())
                except Exception as e:  # noqa: BLE001
                    results[k].append(("error", type(e).__name__, str(e)[:200]))
        finally:
            ME.k = None
            sched.done(k)

    threads = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(len(jobs))]
    for k in range(len(jobs)):
        sched.add(k)
    old, core.MON.hook = core.MON.hook, sched.line
    try:
        for t in threads:
            t.start()
        sched.sems[0].release()
        for t in threads:
            t.join(timeout=60)
            if t.is_alive():
                raise Inconclusive("threads did not end")
    finally:
        core.MON.hook = old
    c.event("context_switches", sched.switches)
    c.event("scheduler_stalls", sched.stalls)
    return results, sched


def judge(c, reqs, prob, sched=None):
    """reqs: requests by thread."""
    warnings.simplefilter("ignore")
    alone = {}
    for req in {r for rs in reqs for r in rs}:
        alone[req] = outcome(*req)
    results, sched = together(c, [[(lambda req=req: outcome(*req)) for req in rs] for rs in reqs], prob, sched)
    for rs, outs in zip(reqs, results):
        c.check(len(rs) == len(outs), "calls got lost")
        for req, out in zip(rs, outs):
            d = C.same(out, alone[req], **tol(req[0]))
            c.check(d is None, f"{req[0]}: in several threads, the result differs from the one of the call alone ({d})", request=req, threads=[[q[0] for q in x] for x in reqs])
            c.event("concurrent_calls")
    c.key(sched.path, *[r[0] for rs in reqs for r in rs][:4])
    c.note(entries=sorted({r[0] for rs in reqs for r in rs}), switches=sched.switches)


def request(c, name, subs, shs):
    sp = C.ENTRIES[name]
    bk = ["np", "np", "strict"][int(c.r.integers(3))]
    if bk not in sp.backends:
        bk = "np"
    seed = [None, 1, 2][int(c.r.integers(3))] if sp.rng else None
    return (name, bk, subs[int(c.r.integers(len(subs)))], shs[int(c.r.integers(len(shs)))], seed)


@case(PID, q=len(NAMES) * 2, t=len(NAMES) * 60, backends=("np",))
def same_function(c):
    """One function in all threads, with arguments of equal and of different shapes."""
    datapath.make([4], 1)
    name = NAMES[c.idx % len(NAMES)]
    subs = [int(v) for v in c.r.integers(2**31, size=4)]
    shs = [int(v) for v in c.r.integers(2**31, size=1 + c.idx // len(NAMES) % 2)]
    reqs = [[request(c, name, subs, shs) for _ in range(3)] for _ in range(int(c.r.integers(2, 5)))]
    judge(c, reqs, float(c.r.choice([0.05, 0.2, 0.5])))


@case(PID, q=len(NAMES) * 5, t=len(NAMES) * 60, backends=("np",))
def lockstep(c):
    """Two calls of one function with other data of the same shape, line by line in turns."""
    datapath.make([4], 1)
    name = NAMES[c.idx % len(NAMES)]
    sh = [int(c.r.integers(2**31))]
    # the first round goes exactly in step; the others with an offset
    lag = 0 if c.idx < len(NAMES) else int(c.r.integers(1, 12))
    stride = 1 if c.idx < len(NAMES) else int(c.r.choice([1, 2, 3, 7]))
    a = request(c, name, [int(c.r.integers(2**31))], sh)
    b = (a[0], a[1], int(c.r.integers(2**31)), a[3], a[4])
    judge(c, [[a], [b]], 1.0, Lockstep(0, lag, stride))


@case(PID, q=60, t=3000, backends=("np",))
def different_functions(c):
    datapath.make([4], 1)
    names = [NAMES[int(i)] for i in c.r.choice(len(NAMES), size=3, replace=False)]
    subs = [int(v) for v in c.r.integers(2**31, size=2)]
    shs = [int(v) for v in c.r.integers(2**31, size=2)]
    reqs = [[request(c, names[int(c.r.integers(3))], subs, shs) for _ in range(5)] for _ in range(int(c.r.integers(2, 5)))]
    judge(c, reqs, float(c.r.choice([0.02, 0.1, 0.4])))


@case(PID, q=40, t=2000, backends=("np",))
def separate_instances(c):
    """Objects used by one thread each: lensing, catalogues of shells, generators."""
    import glass
    import glass.rng

    from ..cosmo import Cosmo

    r = c.r
    n = int(r.integers(2, 5))

    def lensing(seed):
        def go():
            g = np.random.default_rng(seed)
            m = glass.MultiPlaneConvergence(Cosmo(float(g.uniform(0.2, 0.4)), 0.0, 0.7, xp=None))
            out = []
            for w in C.windows(g, g, 4):
                m.add_window(g.normal(size=6), w)
                out.append(C.freeze((m.kappa, m.zsrc, m.wlens, m.delta)))
            return ("seq", *out)

        return go

    def stream(seed):
        def go():
            g = np.random.default_rng(seed)
            cls, nf, nl = C.spectra(g, g)
            it = glass.generate([glass.grf.Lognormal(0.8)] * nf, cls, 2, rng=glass.rng.Generator(seed=seed, xp=np))
            return ("seq", *[C.freeze(x) for x in it])

        return go

    def catalogue(seed):
        def go():
            g = np.random.default_rng(seed)
            rng = glass.rng.Generator(seed=seed, xp=np)
            out = []
            for lon, lat, cnt in glass.positions_from_delta(60 / 148510660.0, g.uniform(-0.5, 0.5, size=48), batch=20, rng=rng):
                z = glass.redshifts(lon.size, C.windows(g, g, 1)[0], rng=rng)
                eps = glass.ellipticity_gaussian(lon.size, 0.3, rng=rng, xp=np)
                out.append(C.freeze((lon, lat, cnt, z, eps)))
            return ("seq", *out)

        return go

    kinds = [lensing, stream, catalogue]
    pick = [kinds[int(r.integers(3))] for _ in range(n)] if c.idx % 2 else [kinds[c.idx // 2 % 3]] * n
    jobs = [[k(int(r.integers(1000))) for _ in range(2)] for k in pick]
    alone = [[j() for j in js] for js in jobs]
    results, sched = together(c, jobs, float(r.choice([0.05, 0.3])))
    for k, a, b in zip(pick, alone, results):
        c.check(len(a) == len(b), "calls got lost")
        for x, y in zip(a, b):
            d = C.same(y, x, rtol=1e-12, atol=1e-13, where=k.__name__)
            c.check(d is None, f"{k.__name__}: in several threads, the result differs from the one alone ({d})")
            c.event("concurrent_calls")
    c.key(sched.path, [k.__name__ for k in pick])


@case(PID, q=24, t=600, backends=("np",))
def free_running(c):
    """The same without the scheduler: whatever the interpreter does with a tiny switching interval."""
    import sys

    datapath.make([4], 1)
    name = NAMES[int(c.r.integers(len(NAMES)))]
    subs = [int(v) for v in c.r.integers(2**31, size=3)]
    reqs = [[request(c, name, subs, subs[:1]) for _ in range(4)] for _ in range(4)]
    alone = {q: outcome(*q) for rs in reqs for q in rs}
    results = [[] for _ in reqs]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        threads = [threading.Thread(target=lambda k=k: results[k].extend(outcome(*q) for q in reqs[k]), daemon=True) for k in range(4)]
        for t in threads:
            t.start()
        for t in threads:
            t.join(timeout=60)
            if t.is_alive():
                raise Inconclusive("threads did not end")
    finally:
        sys.setswitchinterval(old)
    for rs, outs in zip(reqs, results):
        c.check(len(rs) == len(outs), f"{name}: calls in a thread failed")
        for req, out in zip(rs, outs):
            d = C.same(out, alone[req], **tol(name))
            c.check(d is None, f"{name}: in several threads, the result differs from the one of the call alone ({d})", request=req)
            c.event("concurrent_calls")
    c.key(name)
