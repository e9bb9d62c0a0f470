"""C42: faults surface unchanged and leave nothing behind.

Two kinds of faults are injected.  User-supplied callables (generators,
transformations, bias models, weight and shift functions, cosmologies) raise at
their k-th call; and a call is interrupted at its k-th executed line of the
library.  Lines that themselves establish or undo a protection (`with` and `try`
headers, `finally` and `except` blocks) are never interrupted, because no Python
code can protect itself there.
"""

import ast
import os
import types
import warnings

import numpy as np

from .. import catalog as C
from .. import datapath
from ..core import MON, case, to_np
from ..cosmo import Cosmo
from ..rngs import RecRNG
from .c30 import GlobalState, disturb
from .c31 import changed, snap

PID = "C42"
NAMES = sorted(n for n, s in C.ENTRIES.items() if s.bad is None)
SAMPLERS = [n for n in NAMES if C.ENTRIES[n].rng]


class Interrupt(BaseException):
    """Stands for an interruption by the user."""


class Boom(Exception):
    """An error no library knows."""


KINDS = [Boom, ValueError, TypeError, KeyError, IndexError, AttributeError, NotImplementedError, ZeroDivisionError, RuntimeError, FloatingPointError, LookupError, OSError, AssertionError, np.linalg.LinAlgError, Interrupt]


# ------------------------------------------------------------ settings monitor


def open_files():
    """Catalogues of this check that are open."""
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            out.append(os.readlink(f"/proc/self/fd/{f}"))
        except OSError:
            pass
    return sorted(f for f in out if os.path.basename(f).startswith("c42."))


class Settings:
    """Process-wide settings a library call has no business changing."""

    def __init__(self):
        self.now = self.look()
        self.rand = GlobalState()

    @staticmethod
    def look():
        return dict(
            seterr=np.geterr(),
            errcall=np.geterrcall(),
            print=repr(sorted(np.get_printoptions().items(), key=str)),
            filters=list(warnings.filters),
            showwarning=warnings.showwarning,
            environ=dict(os.environ),
            cwd=os.getcwd(),
            files=open_files(),
        )

    def check(self, c, what):
        new = self.look()
        for k, v in self.now.items():
            c.check(v == new[k], f"{what}: {k} is not what it was before the call", before=repr(v)[:200], after=repr(new[k])[:200])
        c.check(self.rand.same(), f"{what}: global random state changed")


def peculiar(r):
    """Unusual but harmless settings, so that a reset to defaults would be noticed."""
    np.seterr(divide=str(r.choice(["ignore", "warn"])), over=str(r.choice(["ignore", "warn"])), under=str(r.choice(["ignore", "warn"])), invalid=str(r.choice(["ignore", "warn"])))
    warnings.filterwarnings("ignore", message=f"peculiar{int(r.integers(1000))}")
    disturb(int(r.integers(2**31)))


# -------------------------------------------------------------- line injection

_UNSAFE = {}


def unsafe(filename):
    """Lines that establish or undo protections."""
    if filename not in _UNSAFE:
        out = set()
        with open(filename) as f:
            tree = ast.parse(f.read())
        for node in ast.walk(tree):
            if isinstance(node, (ast.With, ast.AsyncWith)):
                out.update(range(node.lineno, node.body[0].lineno))
                out.add(node.lineno)
            if isinstance(node, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                out.update(range(node.lineno, node.body[0].lineno))
                for part in (*node.handlers, *node.finalbody, *node.orelse):
                    out.update(range(part.lineno, part.end_lineno + 1))
                if node.finalbody or node.handlers:
                    # the keywords themselves
                    out.update(range(node.body[-1].end_lineno + 1, node.end_lineno + 1))
            if isinstance(node, ast.ClassDef):
                out.add(node.lineno)
        _UNSAFE[filename] = out
    return _UNSAFE[filename]


class Injector:
    """Counts the interruptible lines of a call; raises at the k-th."""

    def __init__(self, at=None, exc=None):
        self.at, self.exc, self.n, self.where = at, exc, 0, None

    def __call__(self, code, line):
        if code.co_name == "<module>" or line in unsafe(code.co_filename):
            return
        self.n += 1
        if self.n == self.at:
            self.where = (os.path.basename(code.co_filename), line)
            raise self.exc

    def __enter__(self):
        MON.hook = self
        return self

    def __exit__(self, *a):
        MON.hook = None


def build(c, name, bk, sub, sh):
    sp = C.ENTRIES[name]
    call = sp.build(np.random.default_rng(sub), np.random.default_rng(sh))
    leaf = C.converter(bk)
    return call.fn, C.walk(list(call.args), leaf), C.walk(dict(call.kw), leaf)


def generator(name, bk, seed):
    if not C.ENTRIES[name].rng:
        return {}
    if bk == "jax" and name != "hp_randang":  # documented to need a NumPy generator
        import glass.jax

        return dict(rng=glass.jax.Generator(seed))
    return dict(rng=np.random.default_rng(seed) if name == "hp_randang" else RecRNG(seed))


def caught(c, fn, exc, what):
    """Run something that has to raise exactly this exception."""
    try:
        fn()
    except BaseException as e:  # noqa: BLE001
        c.check(e is exc, f"{what}: {type(exc).__name__} arrived as {type(e).__name__}: {e}")
        return
    c.check(False, f"{what}: {type(exc).__name__} was swallowed")


def interrupted(c, name, bk, fixed):
    sp = C.ENTRIES[name]
    r = c.r
    sub, seed = int(r.integers(2**31)), int(r.integers(1000))
    sh = c.idx % 3 if fixed else int(r.integers(2**31))
    fn, args, kw = build(c, name, bk, sub, sh)
    before = snap([args, kw])
    with warnings.catch_warnings(), np.errstate():
        peculiar(r)
        # the undisturbed call, once to warm up and once to count
        want = C.freeze(C.invoke(fn, args, {**kw, **generator(name, bk, seed)}))
        with Injector() as count:
            C.invoke(fn, args, {**kw, **generator(name, bk, seed)})
        if count.n == 0:
            return
        for _ in range(4 if not sp.heavy else 2):
            k = int(r.integers(1, count.n + 1)) if r.random() < 0.7 else int(r.integers(1, min(count.n, 12) + 1))
            exc = (Interrupt if r.random() < 0.5 else Boom)(f"at line event {k}")
            disturb(int(r.integers(2**31)))
            peculiar(r)
            state = Settings()
            inj = Injector(k, exc)

            def go():
                with inj:
                    C.invoke(fn, args, {**kw, **generator(name, bk, seed)})

            caught(c, go, exc, f"{name} interrupted at line event {k} of {count.n}")
            what = f"{name} interrupted at {inj.where}"
            c.note(entry=name, where=inj.where, k=k)
            state.check(c, what)
            if sp.copies:
                d = changed(before, snap([args, kw]))
                c.check(d is None, f"{what}: its argument was left changed ({d})")
            c.event("interruptions")
            c.key(name, bk, *inj.where)
        got = C.freeze(C.invoke(fn, args, {**kw, **generator(name, bk, seed)}))
        d = C.same(want, got, rtol=1e-12, atol=1e-13, where=name)
        c.check(d is None, f"{name}: after interrupted calls, the same call gives another result ({d})")


@case(PID, q=len(NAMES) * 3, t=len(NAMES) * 60, backends=("np",))
def lines_numpy(c):
    datapath.make([4], 1)
    name = NAMES[c.idx % len(NAMES)]
    if "np" in C.ENTRIES[name].backends:
        interrupted(c, name, "np", False)


@case(PID, q=len(NAMES), t=len(NAMES) * 20, backends=("strict",))
def lines_strict(c):
    datapath.make([4], 1)
    name = NAMES[c.idx % len(NAMES)]
    if "strict" in C.ENTRIES[name].backends:
        interrupted(c, name, "strict", False)


@case(PID, q=40, t=len(NAMES) * 3, backends=("jax",))
def lines_jax(c):
    datapath.make([4], 1)
    names = [n for n in NAMES if "jax" in C.ENTRIES[n].backends and not C.ENTRIES[n].heavy]
    interrupted(c, names[(c.idx * 7) % len(names)], "jax", True)


# ------------------------------------------------------- user-supplied faults


class Fault:
    """Raises at the k-th use."""

    def __init__(self, k, exc):
        self.k, self.exc, self.n = k, exc, 0

    def __call__(self):
        self.n += 1
        if self.n == self.k:
            raise self.exc


class FaultyRNG(RecRNG):
    def __init__(self, seed, fault):
        super().__init__(seed)
        self.fault = fault

    def _rec(self, *a, **k):
        self.fault()
        return super()._rec(*a, **k)


@case(PID, q=len(SAMPLERS) * 12, t=len(SAMPLERS) * 300, backends=("np", "strict", "np"))
def generator_fails(c):
    """The generator raises at its k-th draw."""
    name = SAMPLERS[c.idx % len(SAMPLERS)]
    sp = C.ENTRIES[name]
    if c.bk not in sp.backends or name == "hp_randang":
        return
    r = c.r
    datapath.make([4], 1)
    sub, sh, seed = (int(v) for v in r.integers(2**31, size=3))
    fn, args, kw = build(c, name, c.bk, sub, sh)
    wrap = (lambda g: g) if r.random() < 0.6 else None
    if wrap is None:
        import glass.rng

        wrap = lambda g: glass.rng.Generator(rng=g, xp=c.xp)
    count = Fault(0, None)
    with warnings.catch_warnings(), np.errstate():
        peculiar(r)
        want = C.freeze(C.invoke(fn, args, dict(kw, rng=wrap(FaultyRNG(seed, count)))))
        if count.n == 0:
            return
        before = snap([args, kw])
        for _ in range(2):
            k = int(r.integers(1, count.n + 1))
            exc = KINDS[int(r.integers(len(KINDS)))](f"draw {k}")
            peculiar(r)
            state = Settings()
            caught(c, lambda: C.invoke(fn, args, dict(kw, rng=wrap(FaultyRNG(seed, Fault(k, exc))))), exc, f"{name}: generator fails at draw {k} of {count.n}")
            state.check(c, f"{name}: generator failed at draw {k}")
            d = changed(before, snap([args, kw])) if sp.copies else None
            c.check(d is None, f"{name}: generator failed at draw {k}, argument left changed ({d})")
            c.event("faults")
            c.key(name, c.bk, k, type(exc).__name__)
        got = C.freeze(C.invoke(fn, args, dict(kw, rng=wrap(FaultyRNG(seed, Fault(0, None))))))
        d = C.same(want, got, rtol=1e-12, atol=1e-13, where=name)
        c.check(d is None, f"{name}: after failed calls, the same call gives another result ({d})")


class FaultyCosmo(Cosmo):
    def __init__(self, fault, **kw):
        super().__init__(**kw)
        self.fault = fault

    def _tick(self, name):
        self.fault()
        super()._tick(name)


def transformation(fault):
    import glass.grf as grf

    class T:
        """User-defined transformation that behaves like a lognormal field."""

        t = grf.Lognormal(0.7)

        def __call__(self, x, var, /):
            fault()
            return self.t(x, var)

        def corr(self, other, x, /):
            fault()
            return grf.corr(self.t, self.t, x)

        def icorr(self, other, x, /):
            fault()
            return grf.icorr(self.t, self.t, x)

        def dcorr(self, other, x, /):
            fault()
            return grf.dcorr(self.t, self.t, x)

    return T()


def shells_of(c, n=3):
    import glass

    return glass.linear_windows(c.a(np.linspace(0.0, 1.0, n + 2)), 0.1)


def u_generate(c, fault):
    import glass

    n = int(c.r.integers(1, 4))
    gls = [c.a(0.01 * np.ones(4) if i == j else np.zeros(4)) for i in range(n) for j in range(i, -1, -1)]
    T = transformation(fault)
    return lambda: [np.array(to_np(m)) for m in glass.generate([T] * n, gls, 2, rng=RecRNG(3))]


def u_solve(c, fault):
    import glass.grf as grf

    cl = c.a(0.02 * (np.arange(12) + 1.0) ** -2)
    T = transformation(fault)
    return lambda: [to_np(v) for v in grf.solve(cl, T, pad=int(5), maxiter=6)]


def u_corr(c, fault):
    import glass.grf as grf

    x = c.a(np.linspace(0, 0.3, 5))
    T = transformation(fault)
    f = [grf.corr, grf.icorr, grf.dcorr][int(c.r.integers(3))]
    other = grf.Normal()
    return (lambda: to_np(f(T, other, x))) if c.r.random() < 0.5 else (lambda: to_np(f(other, T, x)))


def u_gaussian_spectra(c, fault):
    import glass

    T = transformation(fault)
    cls = [c.a(0.02 * (np.arange(9) + 1.0) ** -2) for _ in range(3)]
    if c.r.random() < 0.5:
        return lambda: [to_np(v) for v in glass.solve_gaussian_spectra([T, T], cls)]
    return lambda: [to_np(v) for v in glass.compute_gaussian_spectra([T, T], [np.asarray(to_np(x)) for x in cls])]


def u_bias(c, fault):
    import glass

    def model(delta, bias):
        fault()
        return glass.linear_bias(delta, bias)

    k = int(c.r.integers(1, 4))
    delta = c.r.uniform(-0.5, 0.5, (k, 48))
    return lambda: [np.array(np.concatenate([np.ravel(to_np(v)) for v in p])) for p in glass.positions_from_delta(c.a(np.full(k, 0.001)), c.a(delta), c.a(np.ones(k)), bias_model=model, rng=RecRNG(2))]


def u_fields(c, fault):
    import glass

    shells = shells_of(c)

    def shift(z):
        fault()
        return 0.1 + z

    return lambda: np.array([f.lamda for f in glass.lognormal_fields(shells, shift)])


def u_windows(c, fault):
    import glass

    f = [glass.tophat_windows, glass.linear_windows, glass.cubic_windows][int(c.r.integers(3))]
    grid = c.a(np.linspace(0.0, 1.0, 6))

    def weight(z):
        fault()
        return z * z + 1

    return lambda: [(to_np(w.za), to_np(w.wa), w.zeff) for w in f(grid, 0.05, weight=weight)]


def u_distances(c, fault):
    import glass

    cosmo = FaultyCosmo(fault, xp=c.xp)
    return lambda: to_np(glass.distance_grid(cosmo, 0.1, 1.0, num=7))


def u_weights(c, fault):
    import glass

    cosmo = FaultyCosmo(fault, xp=c.xp)
    w = [glass.DistanceWeight, glass.VolumeWeight, glass.DensityWeight][int(c.r.integers(3))](cosmo)
    z = c.a(np.linspace(0.1, 1.0, 5))
    return lambda: to_np(w(z))


def u_planes(c, fault):
    import glass

    def go():
        m = glass.MultiPlaneConvergence(FaultyCosmo(fault, xp=c.xp))
        out = []
        for i, w in enumerate(shells_of(c, 4)):
            m.add_window(c.a(np.cos(np.arange(12.0) + i)), w)
            out.append(np.array(to_np(m.kappa)))
        return out

    return go


def u_plane_matrix(c, fault):
    import glass

    s = shells_of(c, 4)
    w = c.a(c.r.uniform(0, 1, 4))
    if c.r.random() < 0.5:
        return lambda: to_np(glass.multi_plane_matrix(s, FaultyCosmo(fault, xp=c.xp)))
    return lambda: to_np(glass.multi_plane_weights(w, s, FaultyCosmo(fault, xp=c.xp)))


def u_catalog(c, fault):
    """The body of the context fails between the writes; the next catalogue is complete."""
    import fitsio
    import glass

    fn = os.path.join(os.environ["TMPDIR"], f"c42.{os.getpid()}.fits")

    def go():
        with glass.write_catalog(fn) as out:
            for i in range(4):
                out.write(RA=np.arange(3.0) + i, DEC=np.ones(3) * i)
                fault()
        return np.array([list(x) for x in fitsio.read(fn)])

    return go


USERS = [u_generate, u_solve, u_corr, u_gaussian_spectra, u_bias, u_fields, u_windows, u_distances, u_weights, u_planes, u_plane_matrix, u_catalog]


def equal(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return np.allclose(a, b, rtol=1e-12, atol=1e-14, equal_nan=True)


@case(PID, q=len(USERS) * 15, t=len(USERS) * 400, backends=("np", "np", "strict", "np", "np", "np", "np"))
def callables_fail(c):
    """Transformations, bias models, weights, shifts, cosmologies and catalogue writers that raise at their k-th use."""
    r = c.r
    make = USERS[c.idx % len(USERS)]
    state0 = r.bit_generator.state

    def job(fault):
        r.bit_generator.state = state0  # the same call every time
        return make(c, fault)

    count = Fault(0, None)
    with warnings.catch_warnings(), np.errstate():
        g = c.gen(1)
        peculiar(g)
        want = job(count)()
        for _ in range(3):
            if count.n == 0:
                return
            k = int(g.integers(1, count.n + 1))
            exc = KINDS[int(g.integers(len(KINDS)))](f"use {k}")
            fault = Fault(k, exc)
            go = job(fault)
            peculiar(g)
            state = Settings()
            caught(c, go, exc, f"{make.__name__}: failing at use {k} of {count.n}")
            state.check(c, f"{make.__name__} failed at use {k}")
            c.event("faults")
            c.key(make.__name__, c.bk, k, type(exc).__name__)
            if g.random() < 0.5:
                # the very same job, now that the fault is over
                c.check(equal(go(), want), f"{make.__name__}: repeating the failed call gives another result")
        c.check(equal(job(Fault(0, None))(), want), f"{make.__name__}: after failed calls, the same call gives another result")
    c.note(job=make.__name__)


@case(PID, q=60, t=1000, backends=("np", "strict"))
def abandoned_iterators(c):
    """Iterators that are closed, thrown into or dropped half-way; what follows is unaffected."""
    r = c.r
    names = [n for n in NAMES if c.bk in C.ENTRIES[n].backends]
    its = []
    sub, sh, seed = (int(v) for v in r.integers(2**31, size=3))
    for name in names:
        if name in ("generate", "iternorm", "positions_from_delta", "uniform_positions"):
            its.append(name)
    c.check(len(its) > 2, "iterators in the catalogue")
    name = its[c.idx // 2 % len(its)]
    fn, args, kw = build(c, name, c.bk, sub, sh)
    before = snap([args, kw])
    gen = lambda: generator(name, c.bk, seed)
    with warnings.catch_warnings(), np.errstate():
        peculiar(r)
        want = C.freeze(C.invoke(fn, args, {**kw, **gen()}))
        n = len(want) - 1
        state = Settings()
        it = fn(*args, **{**kw, **gen()})
        k = int(r.integers(0, n + 1))
        for i in range(k):
            d = C.same(want[1 + i], C.freeze(next(it)), rtol=1e-12, atol=1e-13, where=name)
            c.check(d is None, f"{name}: item {i} differs between runs ({d})")
        how = int(r.integers(0, 3))
        if isinstance(it, types.GeneratorType):
            if how == 0:
                it.close()
            elif how == 1:
                exc = Boom("thrown in")
                caught(c, lambda: it.throw(exc), exc, f"{name}: exception thrown into the iterator")
            if how < 2:
                c.check(next(it, None) is None, f"{name}: closed iterator goes on")
        del it
        state.check(c, f"{name} abandoned after {k} of {n} items")
        d = changed(before, snap([args, kw]))
        c.check(d is None, f"{name}: abandoned iterator left its argument changed ({d})")
        got = C.freeze(C.invoke(fn, args, {**kw, **gen()}))
        d = C.same(want, got, rtol=1e-12, atol=1e-13, where=name)
        c.check(d is None, f"{name}: after an abandoned iterator, the same call gives another result ({d})")
    c.event("abandoned")
    c.key(name, c.bk, k, how)


@case(PID, q=20, t=300, backends=("jax",))
def jax_generator_fails(c):
    """A draw that fails (unusable arguments) leaves the JAX generator usable, and no key is used twice."""
    import glass.jax as gj

    r = c.r
    g, ref = gj.Generator(c.idx), gj.Generator(c.idx)
    seen = set()
    for _ in range(6):
        k = int(r.integers(0, 4))
        try:
            if k == 0:
                g.uniform(c.a(np.zeros(3)), c.a(np.ones(2)), 4)
            elif k == 1:
                g.normal(c.a(np.zeros(3)), 1.0, 4)
            elif k == 2:
                g.random("seven")
            else:
                g.poisson(c.a(np.zeros(3)), (2, 2, 2))
            c.event("accepted")
        except (TypeError, ValueError):
            c.event("faults")
        v = to_np(g.random(4))
        c.check(v.tobytes() not in seen, "the same numbers twice after a failed draw")
        seen.add(v.tobytes())
    c.key(c.idx)
