"""C30: reproducible results, no hidden state.

Replay monitor.  Every call can be repeated in a *pristine* process, forked off before the
worker has made any glass call: what a call returns after an arbitrary history, with the
global random state disturbed, must be what the pristine process returns.
"""

import os
import pickle
import random
import struct

import numpy as np

from .. import catalog as C
from .. import core, datapath
from ..core import Inconclusive, Violation, backend, case, run_case  # noqa: F401
from ..rngs import RecRNG

PID = "C30"
NAMES = sorted(C.ENTRIES)
SAMPLERS = sorted(n for n, s in C.ENTRIES.items() if s.rng)


# ------------------------------------------------------------ pristine process


class Zygote:
    """Forks a fresh child for every request, so that no request sees the traces of another."""

    def __init__(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.owner = os.getpid()
        self.memo = {}
        if os.fork() == 0:
            os.close(w1)
            os.close(r2)
            try:
                self.serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    @staticmethod
    def recv(fd):
        head = b""
        while len(head) < 8:
            got = os.read(fd, 8 - len(head))
            if not got:
                return None
            head += got
        n = struct.unpack("<Q", head)[0]
        buf = bytearray()
        while len(buf) < n:
            got = os.read(fd, min(1 << 16, n - len(buf)))
            if not got:
                return None
            buf += got
        return pickle.loads(bytes(buf))

    @staticmethod
    def send(fd, obj):
        data = pickle.dumps(obj)
        data = struct.pack("<Q", len(data)) + data
        while data:
            data = data[os.write(fd, data) :]

    def serve(self, r, w):
        while True:
            req = self.recv(r)
            if req is None:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    self.send(w, outcome(*req))
                except BaseException as e:  # noqa: BLE001
                    self.send(w, ("error", type(e).__name__, str(e)))
                os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, *req):
        if req not in self.memo:
            self.send(self.w, req)
            got = self.recv(self.r)
            if got is None:
                raise Inconclusive("the pristine process is gone")
            self.memo[req] = got
        return self.memo[req]


ZYGOTE = None


def pristine(*req):
    global ZYGOTE
    if ZYGOTE is None or ZYGOTE.owner != os.getpid():
        ZYGOTE = Zygote()
    return ZYGOTE.ask(*req)


def prepare():
    """Everything that is set up before the pristine process splits off."""
    datapath.make([4], 1)
    backend("strict")
    global ZYGOTE
    if ZYGOTE is None or ZYGOTE.owner != os.getpid():
        ZYGOTE = Zygote()


def generator(name, bk, seed):
    if seed is None:
        return None
    if name == "hp_randang":
        return np.random.default_rng(seed)
    if bk == "jax":
        import glass.jax

        return glass.jax.Generator(seed)
    if bk == "strict" and seed % 2:
        import glass.rng

        return glass.rng.Generator(seed=seed, xp=backend(bk))
    return RecRNG(seed)


def outcome(name, bk, sub, sh, seed):
    """Frozen result of a call (or the error)."""
    sp = C.ENTRIES[name]
    call = sp.build(np.random.default_rng(sub), np.random.default_rng(sh))
    rng = generator(name, bk, seed) if sp.rng else None
    try:
        _, _, out = C.run(call, bk, rng)
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        return ("error", type(e).__name__, "")
    return C.freeze(out)


def tol(name):
    sp = C.ENTRIES[name]
    return dict(rtol=max(1e-12, sp.rtol * 1e-3), atol=max(1e-13, sp.atol * 1e-3))


def floats(f):
    """Floating-point content of a frozen result."""
    if isinstance(f, tuple):
        return np.concatenate([np.zeros(0), *[floats(x) for x in f[1:]]])
    if isinstance(f, (list, float)):
        return np.ravel(np.asarray(f, dtype=float)) if not isinstance(f, list) or all(isinstance(v, float) for v in f) else np.zeros(0)
    if isinstance(f, np.ndarray) and f.dtype.kind in "fc":
        return f.astype(complex).ravel().view(float)
    return np.zeros(0)


def disturb(k):
    np.random.seed(k)
    random.seed(k)
    np.random.normal(size=k % 7)


class GlobalState:
    def __init__(self):
        self.np = np.random.get_state()
        self.py = random.getstate()

    def same(self):
        now = np.random.get_state()
        return (
            now[0] == self.np[0] and np.array_equal(now[1], self.np[1]) and now[2:] == self.np[2:] and random.getstate() == self.py
        )


def watched(c, name, *rest):
    """Run a call with disturbed global random state and see that it is left alone."""
    disturb(int(c.r.integers(2**31)))
    g = GlobalState()
    out = outcome(name, *rest)
    c.check(g.same(), f"{name} changes the global random state", args=rest)
    c.event("calls_watched")
    return out


# ----------------------------------------------------------------------- cases


@case(PID, q=len(SAMPLERS) * 12, t=len(SAMPLERS) * 400, backends=("np", "strict"))
def seeds(c):
    """Equal states give identical results, different states different ones, no generator a fixed one."""
    prepare()
    name = SAMPLERS[(c.idx // 2) % len(SAMPLERS)]
    if c.bk not in C.ENTRIES[name].backends:
        c.check(True, "skipped")
        return
    sub, sh = int(c.r.integers(2**31)), int(c.r.integers(2**31))
    s1, s2 = (int(v) for v in c.r.choice(1000, size=2, replace=False))
    a = watched(c, name, c.bk, sub, sh, s1)
    b = watched(c, name, c.bk, sub, sh, s2)
    a2 = watched(c, name, c.bk, sub, sh, s1)
    d = C.same(a, a2, **tol(name))
    c.check(d is None, f"{name}: generators in equal states give different results ({d})", seed=s1)
    if floats(a).size >= 3 and floats(b).size >= 3:
        c.check(C.same(a, b) is not None, f"{name}: generators in different states give identical results", seeds=(s1, s2))
        c.event("different_seeds_compared")
    n1 = watched(c, name, c.bk, sub, sh, None)
    watched(c, name, c.bk, sub + 1, sh + 1, None)
    n2 = watched(c, name, c.bk, sub, sh, None)
    d = C.same(n1, n2, **tol(name))
    c.check(d is None, f"{name}: without a generator, repeated calls differ ({d})")
    d = C.same(n1, pristine(name, c.bk, sub, sh, None), **tol(name))
    c.check(d is None, f"{name}: without a generator, the result depends on earlier calls ({d})")
    c.key(name, c.bk)
    c.note(entry=name)


@case(PID, q=len(SAMPLERS), t=len(SAMPLERS) * 2, backends=("np",))
def seeds_jax(c):
    import glass.jax

    name = SAMPLERS[c.idx % len(SAMPLERS)]
    if "jax" not in C.ENTRIES[name].backends or (C.ENTRIES[name].heavy and c.tier == "quick"):
        c.check(True, "skipped")
        return
    sub, sh = int(c.r.integers(2**31)), c.idx
    for seed in (3, None):
        a = watched(c, name, "jax", sub, sh, seed)
        watched(c, name, "jax", sub + 1, sh, 4)
        b = watched(c, name, "jax", sub, sh, seed)
        d = C.same(a, b, **tol(name))
        c.check(d is None, f"{name} on jax: equal states, different results ({d})", seed=seed)
        if seed is not None and floats(a).size >= 3:
            other = watched(c, name, "jax", sub, sh, 5)
            c.check(C.same(a, other) is not None, f"{name} on jax: different states give identical results")
    c.key(name)


@case(PID, q=100, t=3000, backends=("np",))
def histories(c):
    """Random sequence of calls with colliding arguments; each result is that of a pristine process."""
    prepare()
    pool = [NAMES[int(i)] for i in c.r.choice(len(NAMES), size=4, replace=False)]
    subs = [int(v) for v in c.r.integers(2**31, size=3)]
    shs = [int(v) for v in c.r.integers(2**31, size=3)]
    trace = []
    for _ in range(16):
        name = pool[int(c.r.integers(4))]
        sp = C.ENTRIES[name]
        bk = ["np", "strict"][int(c.r.integers(2))]
        if bk not in sp.backends:
            bk = "np"
        req = (name, bk, subs[int(c.r.integers(3))], shs[int(c.r.integers(3))], [None, 1, 2][int(c.r.integers(3))] if sp.rng else None)
        trace.append(req[:2])
        out = watched(c, *req)
        ref = pristine(*req)
        d = C.same(out, ref, **tol(name))
        c.check(d is None, f"{name}: the result depends on what was called before ({d})", request=req, history=trace[-12:])
        c.event("compared_with_pristine")
    c.key(*sorted(set(trace)))
    c.note(history=trace)


@case(PID, q=len(NAMES) * 2, t=len(NAMES) * 30, backends=("np",))
def same_entry_again(c):
    """One entry called many times with arguments that differ in few places."""
    prepare()
    name = NAMES[c.idx % len(NAMES)]
    sp = C.ENTRIES[name]
    subs = [int(v) for v in c.r.integers(2**31, size=2)]
    shs = [int(v) for v in c.r.integers(2**31, size=4)]
    for _ in range(8):
        bk = sp.backends[int(c.r.integers(len(sp.backends)))]
        bk = bk if bk != "jax" else "np"
        req = (name, bk, subs[int(c.r.integers(2))], shs[int(c.r.integers(4))], int(c.r.integers(2)) if sp.rng else None)
        out = watched(c, *req)
        d = C.same(out, pristine(*req), **tol(name))
        c.check(d is None, f"{name}: the result depends on earlier calls of it ({d})", request=req)
        c.event("compared_with_pristine")
    c.key(name)


@case(PID, q=len(NAMES) * 2, t=len(NAMES) * 30, backends=("np",))
def recycled_arguments(c):
    """The caller changes its own arrays between two calls: the second call must see the new values."""
    prepare()
    name = NAMES[c.idx % len(NAMES)]
    sp = C.ENTRIES[name]
    sh = int(c.r.integers(2**31))
    subs = [int(v) for v in c.r.integers(2**31, size=2)]
    calls = [sp.build(np.random.default_rng(s), np.random.default_rng(sh)) for s in subs]
    leaf = C.converter("np")
    args, kw = C.walk(list(calls[0].args), leaf), C.walk(dict(calls[0].kw), leaf)
    new_args, new_kw = C.walk(list(calls[1].args), leaf), C.walk(dict(calls[1].kw), leaf)

    def go(fn, args, kw, seed):
        k2 = dict(kw)
        if sp.rng:
            k2["rng"] = generator(name, "np", seed)
        return C.freeze(C.invoke(fn, args, k2))

    go(calls[0].fn, args, kw, 1)
    old, new = list(C.arrays_of([args, kw])), list(C.arrays_of([new_args, new_kw]))
    if [p for p, _ in old] != [p for p, _ in new] or any(a.shape != b.shape or a.dtype != b.dtype for (_, a), (_, b) in zip(old, new)):
        c.check(True, "shapes depend on values here")
        return
    for (_, a), (_, b) in zip(old, new):
        a[...] = b
    # everything that is not an array comes from the second call
    merged, mkw = graft(new_args, args), graft(new_kw, kw)
    got = go(calls[1].fn, merged, mkw, 2)
    want = go(calls[1].fn, new_args, new_kw, 2)
    d = C.same(got, want, **tol(name))
    c.check(d is None, f"{name}: reused argument arrays give the result of their former content ({d})")
    c.event("recycled_calls")
    c.key(name)


def graft(shape, arrays):
    """The tree ``shape`` with the array objects of ``arrays``."""
    import glass

    if isinstance(shape, np.ndarray):
        return arrays
    if isinstance(shape, glass.RadialWindow):
        return glass.RadialWindow(arrays.za, arrays.wa, shape.zeff)
    if isinstance(shape, (tuple, list)):
        return type(shape)(graft(x, y) for x, y in zip(shape, arrays))
    if isinstance(shape, dict):
        return {k: graft(v, arrays[k]) for k, v in shape.items()}
    return shape


def big_calls(r):
    """Samplers with sizes beyond the catalogue's, by name."""
    import glass
    import glass.grf  # noqa: F401

    n = int(r.choice([600, 1500, 5000, 20000]))
    z = np.linspace(0, 2, 21)
    nz = r.uniform(0.1, 1, size=21)
    w = glass.RadialWindow(z, nz, 1.0)
    zt = r.uniform(0.3, 1.5, size=n)
    kap, g1, g2 = r.uniform(-0.1, 0.1, size=(3, 12 * 16 * 16))
    delta = r.uniform(-1, 1, size=12 * 16 * 16)
    arr = r.integers(0, n, size=3)
    cls = [1e-2 * np.exp(-np.arange(60) / 20.0)]
    return dict(
        redshifts=lambda g: glass.redshifts(n, w, rng=g),
        redshifts_from_nz=lambda g: glass.redshifts_from_nz(n, z, nz, warn=False, rng=g),
        redshifts_from_nz_array=lambda g: glass.redshifts_from_nz(arr, z, nz, warn=False, rng=g),
        ellipticity_intnorm=lambda g: glass.ellipticity_intnorm(n, 0.3, rng=g, xp=np),
        ellipticity_gaussian=lambda g: glass.ellipticity_gaussian(n, 0.3, rng=g, xp=np),
        ellipticity_ryden04=lambda g: glass.ellipticity_ryden04(-1.85, 0.89, 0.222, 0.056, size=n, rng=g, xp=np),
        gaussian_phz=lambda g: glass.gaussian_phz(zt, 0.05, lower=0.2, rng=g),
        positions=lambda g: list(glass.positions_from_delta(n / 148510660.0, delta, batch=1000, rng=g))[0],
        uniform=lambda g: list(glass.uniform_positions(n / 148510660.0, rng=g, xp=np))[0],
        fields=lambda g: list(glass.generate([glass.grf.Lognormal(1.0)], cls, 32, rng=g)),
        galaxy_shear=lambda g: glass.galaxy_shear(r.uniform(0, 360, 0), r.uniform(0, 1, 0), np.zeros(0), kap, g1, g2),
    )


@case(PID, q=33, t=1200, backends=("np",))
def large_samples(c):
    """The same with thousands of samples: no global state is read or changed, equal states agree exactly."""
    calls = big_calls(c.r)
    name = sorted(calls)[c.idx % len(calls)]
    fn = calls[name]
    seed = int(c.r.integers(1 << 30))
    gen = [RecRNG, np.random.default_rng][(c.idx // len(calls)) % 2]
    outs = []
    for mode in range(3):
        disturb(int(c.r.integers(2**31)))
        g = GlobalState()
        g0 = gen(seed)
        outs.append((C.freeze(fn(g0)), g0.random()))
        c.check(g.same(), f"{name} changes the global random state")
        c.event("calls_watched")
    for out, nxt in outs[1:]:
        d = C.same(outs[0][0], out, rtol=1e-13, atol=1e-14, where=name)
        c.check(d is None, f"{name}: generators in equal states give different large samples ({d})")
        c.check(nxt == outs[0][1], f"{name}: the generator is left in different states")
    c.key(name, seed)
    c.note(entry=name)


ITER = {}


def iterator(fn):
    ITER[fn.__name__] = fn
    return fn


@iterator
def it_generate(r, seed):
    import glass

    cls, n, nl = C.spectra(r, r)
    return glass.generate([glass.grf.Lognormal(0.8)] * n, cls, 2, ncorr=int(r.integers(0, n)), rng=RecRNG(seed))


@iterator
def it_generate_default(r, seed):
    import glass

    cls, n, nl = C.spectra(r, r)
    return glass.generate([glass.grf.Normal()] * n, cls, 2)


@iterator
def it_positions(r, seed):
    import glass

    ngal, delta, kw = C.delta_args(r, r)
    return glass.positions_from_delta(ngal, delta, rng=RecRNG(seed) if seed % 2 else None, **kw)


@iterator
def it_uniform(r, seed):
    import glass

    return glass.uniform_positions((30.0 / 148510660) * r.uniform(0.5, 2, size=(2, 2)), rng=RecRNG(seed) if seed % 2 else None, xp=np)


@iterator
def it_iternorm(r, seed):
    import glass

    call = C.ENTRIES["iternorm"].build(r, r)
    return glass.iternorm(call.args[0])


@iterator
def it_cls2cov(r, seed):
    import glass

    cls, n, nl = C.spectra(r, r)
    return (x.copy() for x in glass.cls2cov(cls, nl, n, int(r.integers(0, n))))


@iterator
def it_planes(r, seed):
    import glass

    m = glass.MultiPlaneConvergence(C.cosmo(r))
    ws = C.windows(r, r, 4)
    ds = [r.normal(size=3) for _ in ws]

    def gen():
        for w, d in zip(ws, ds):
            m.add_window(d, w)
            yield (m.kappa.copy(), m.zsrc, m.wlens)

    return gen()


@iterator
def it_grid(r, seed):
    import glass.arraytools as at

    d = r.uniform(0, 1, size=(3, 2))
    return (at.cumulative_trapezoid(r.normal(size=5), np.arange(5.0)) for _ in d)


@case(PID, q=120, t=6000, backends=("np",))
def interleaved_iterators(c):
    """Two or three iterators advanced in arbitrary order behave as if alone."""
    names = [sorted(ITER)[int(i)] for i in c.r.integers(len(ITER), size=int(c.r.integers(2, 4)))]
    if c.idx % 2:
        names = [names[0]] * len(names)
    specs = [(n, int(c.r.integers(2**31)), int(c.r.integers(1000))) for n in names]

    def fresh(n, sub, seed):
        return ITER[n](np.random.default_rng(sub), seed)

    alone = [[C.freeze(x) for x in fresh(*s)] for s in specs]
    its = [fresh(*s) for s in specs]
    got = [[] for _ in its]
    order = []
    live = set(range(len(its)))
    while live:
        k = sorted(live)[int(c.r.integers(len(live)))]
        try:
            got[k].append(C.freeze(next(its[k])))
            order.append(k)
        except StopIteration:
            live.discard(k)
        if c.r.random() < 0.2:
            disturb(int(c.r.integers(1000)))
    for k, s in enumerate(specs):
        d = C.same(("seq", *got[k]), ("seq", *alone[k]), rtol=1e-12, atol=1e-13, where=s[0])
        c.check(d is None, f"{s[0]} depends on other iterators running at the same time ({d})", iterators=names, order=order)
    c.event("interleaved_steps", len(order))
    c.key(*names, *order)
    c.note(iterators=names, order=order)
