"""C31: inputs are never modified, and earlier results survive later calls.

Every catalogue entry is run with snapshots of all its inputs (values, layout, identity
of list elements, the untouched gaps of strided buffers) taken before the call; the same
objects are then reused for a second call, and results collected earlier in the history
are compared with their snapshots after every later call.
"""

import numpy as np

from .. import catalog as C
from .. import datapath
from ..core import Inconclusive, Violation, backend_name, case
from ..rngs import RecRNG

PID = "C31"
NAMES = sorted(C.ENTRIES)


def rng_for(name, sp, seed):
    if not sp.rng:
        return None
    return np.random.default_rng(seed) if name == "hp_randang" else RecRNG(seed)


def snap(tree):
    """Everything observable about an input tree."""
    import glass

    if isinstance(tree, glass.RadialWindow):
        return ("window", snap(tree.za), snap(tree.wa), tree.zeff, id(tree.za), id(tree.wa))
    if isinstance(tree, (list, tuple)):
        return (type(tree).__name__, [id(t) for t in tree], [snap(t) for t in tree])
    if isinstance(tree, dict):
        return ("dict", [(k, id(v), snap(v)) for k, v in tree.items()])
    bk = backend_name(tree)
    if bk == "np" and isinstance(tree, np.ndarray):
        base = tree
        while isinstance(base.base, np.ndarray):
            base = base.base
        return ("np", tree.dtype.str, tree.shape, tree.strides, tree.tobytes(), base.tobytes(), tree.flags.writeable)
    if bk in ("strict", "jax"):
        a = np.array(tree)
        return (bk, a.dtype.str, a.shape, a.tobytes())
    return ("other", repr(tree)[:200])


def changed(a, b, where="argument"):
    """Place of the first difference of two snapshots."""
    if a == b:
        return None
    if type(a) is not type(b) or (isinstance(a, (tuple, list)) and len(a) != len(b)):
        return where
    if isinstance(a, (tuple, list)):
        if a and a[0] in ("np", "strict", "jax"):
            x, y = np.frombuffer(a[-3] if a[0] == "np" else a[-1], dtype=a[1]), np.frombuffer(b[-3] if b[0] == "np" else b[-1], dtype=b[1])
            if a[1:3] != b[1:3]:
                return f"{where}: dtype or shape {a[1:3]} -> {b[1:3]}"
            if x.size == y.size and x.size:
                i = int(np.argmax(x != y))
                return f"{where}: flat element {i}: {x[i]!r} -> {y[i]!r}"
            return where
        for i, (x, y) in enumerate(zip(a, b)):
            d = changed(x, y, f"{where}.{i}")
            if d:
                return d
    return where


def run_one(c, name, bk, layout, history, fixed=False):
    sp = C.ENTRIES[name]
    sub = int(c.r.integers(2**31))
    shapes = np.random.default_rng(c.idx % 3 if fixed else int(c.r.integers(2**31)))
    call = sp.build(np.random.default_rng(sub), shapes)
    leaf = C.converter(bk, layout)
    args = C.walk(list(call.args), leaf)
    kw = C.walk(dict(call.kw), leaf)
    before = snap([args, kw])
    outs, arrived, prints = [], [], []
    for rep in range(2):
        seed = sub % 1000
        k2 = dict(kw)
        if sp.rng:
            k2["rng"] = rng_for(name, sp, seed)
        seen = []
        out = C.invoke(call.fn, args, k2, seen)
        after = snap([args, kw])
        d = changed(before, after)
        c.check(d is None, f"{name} changes its input ({d})", entry=name, layout=layout, backend=bk)
        outs.append(out)
        fz = C.freeze(out)
        if not sp.shares:
            # what an iterator handed out must not change when it is advanced
            if seen:
                d = C.same(("seq", *seen), fz, where=name)
                c.check(d is None, f"{name}: an item handed out earlier changed while iterating ({d})", entry=name)
            arrived.append(fz)
            history.append((name, out, fz))
        prints.append(fz)
    d = C.same(prints[0], prints[1], where=name)
    c.check(d is None, f"{name}: the same objects passed twice give different results ({d})", layout=layout, backend=bk)
    c.event("calls_watched", 2)
    c.event("input_arrays_compared", 2 * len(list(C.arrays_of([args, kw]))))
    c.key(name, bk, layout)


def recheck(c, history):
    for name, out, fz in history:
        d = C.same(fz, C.freeze(out), where=name)
        c.check(d is None, f"a result of {name} was changed by a later call ({d})", later=[h[0] for h in history][-6:])
        c.event("old_results_rechecked")


@case(PID, q=len(NAMES) * 4, t=len(NAMES) * 80, backends=("np",))
def every_entry_numpy(c):
    """All layouts of one entry, each followed by a look at all earlier results."""
    datapath.make([4], 1)
    name = NAMES[c.idx % len(NAMES)]
    history = []
    for layout in ("C", "F", "strided", "reversed"):
        run_one(c, name, "np", layout, history)
    recheck(c, history)
    c.note(entry=name)


@case(PID, q=len(NAMES) * 3, t=len(NAMES) * 40, backends=("np",))
def every_entry_strict(c):
    datapath.make([4], 1)
    name = NAMES[c.idx % len(NAMES)]
    if "strict" not in C.ENTRIES[name].backends:
        c.check(True, "skipped")
        return
    history = []
    for _ in range(2):
        run_one(c, name, "strict", "C", history)
    recheck(c, history)


@case(PID, q=120, t=4000, backends=("np",))
def mixed_history(c):
    """Random sequence of different calls; every earlier result stays as it was."""
    datapath.make([4], 1)
    history = []
    for _ in range(12):
        name = NAMES[int(c.r.integers(len(NAMES)))]
        bk = ["np", "strict"][int(c.r.integers(2))]
        if bk not in C.ENTRIES[name].backends:
            bk = "np"
        run_one(c, name, bk, ["C", "F", "strided", "reversed"][int(c.r.integers(4))] if bk == "np" else "C", history)
    recheck(c, history)
    c.note(calls=[h[0] for h in history[::2]])


@case(PID, q=len(NAMES) * 2, t=len(NAMES) * 40, backends=("np",))
def read_only_inputs(c):
    """Inputs that cannot be written: functions that do not modify them must accept them."""
    datapath.make([4], 1)
    name = NAMES[c.idx % len(NAMES)]
    sp = C.ENTRIES[name]
    sub, sh = int(c.r.integers(2**31)), int(c.r.integers(2**31))
    outs = []
    for frozen in (False, True):
        call = sp.build(np.random.default_rng(sub), np.random.default_rng(sh))

        def leaf(a, base=C.converter("np"), frozen=frozen):
            a = base(a)
            if frozen and isinstance(a, np.ndarray):
                a.flags.writeable = False
            return a

        args, kw = C.walk(list(call.args), leaf), C.walk(dict(call.kw), leaf)
        if sp.rng:
            kw["rng"] = rng_for(name, sp, 5)
        try:
            outs.append(C.freeze(C.invoke(call.fn, args, kw)))
        except ValueError as e:
            if frozen and "read-only" in str(e):
                raise Violation(f"{name} writes to its input: {e}") from e
            raise
    d = C.same(outs[0], outs[1], where=name)
    c.check(d is None, f"{name}: write-protected inputs change the result ({d})")
    c.event("read_only_calls")
    c.key(name)


class Stored:
    """A user's object that hands out arrays of its own: cached, write-protected, or the very input."""

    def __init__(self, c, fn):
        self.c, self.fn, self.store, self.prints = c, fn, {}, {}

    def __call__(self, x, *args):
        key = (snap(x), repr(args))
        if key not in self.store:
            y = self.fn(x, *args)
            self.store[key] = y
            if isinstance(y, np.ndarray) and y is not x:
                y.flags.writeable = False
            self.prints[key] = snap(y)
        return self.store[key]

    def intact(self, what):
        for k, y in self.store.items():
            d = changed(self.prints[k], snap(y), what)
            self.c.check(d is None, f"array owned by the {what} was changed ({d})")
        self.c.event("owned_arrays", len(self.store))


@case(PID, q=40, t=800, backends=("np", "strict", "np"))
def callables(c):
    """Arrays that come from the user's functions belong to the user as well."""
    import glass

    r = c.r
    xp = c.xp
    # weight functions
    z = np.cumsum(r.uniform(0.05, 0.4, int(r.integers(3, 7))))
    z[0] = 0
    for build in (glass.tophat_windows, glass.linear_windows, glass.cubic_windows):
        for f in (lambda z: z, lambda z: z * z + 1, lambda z: xp.ones_like(z)):
            w = Stored(c, f)
            one = C.freeze(build(c.a(z), 0.03, weight=w))
            two = C.freeze(build(c.a(z), 0.03, weight=w))
            w.intact("weight function")
            ref = C.freeze(build(c.a(z), 0.03, weight=lambda z: f(xp.asarray(z, copy=True))))
            for got in (one, two):
                d = C.same(ref, got, where=build.__name__)
                c.check(d is None, f"weight function that keeps its arrays: other windows ({d})")
    # bias models
    n = 12
    delta, vis = c.a(r.uniform(-0.5, 1, n)), c.a(r.uniform(0, 1, n))
    for f in (lambda d, b: d, lambda d, b: b * d):
        for mono in (True, False):
            m = Stored(c, f)
            before = snap([delta, vis])
            outs = []
            for model in (m, m, lambda d, b: xp.asarray(f(d, b), copy=True)):
                outs.append(C.freeze(list(glass.positions_from_delta(c.a(np.float64(1e-6)), delta, c.a(np.float64(0.8)), vis, bias_model=model, remove_monopole=mono, rng=RecRNG(5)))))
            m.intact("bias model")
            c.check(changed(before, snap([delta, vis])) is None, "positions_from_delta changes the maps it was given")
            c.check(C.same(outs[2], outs[0]) is None and C.same(outs[2], outs[1]) is None, "bias model that keeps its arrays: other positions")
    # transformations
    if c.bk == "np":
        base = [glass.grf.Normal(), glass.grf.Lognormal(float(r.uniform(0.5, 2)))][int(r.integers(0, 2))]
        cl = 0.1 * np.exp(-np.arange(20) / 6)

        class Field:
            def __init__(self):
                self.parts = {k: Stored(c, lambda x, _, k=k: np.array(getattr(base, k)(base, x))) for k in ("corr", "icorr", "dcorr")}

            def __call__(self, x, var):
                return base(x, var)

            def corr(self, other, x):
                return self.parts["corr"](x, 0)

            def icorr(self, other, x):
                return self.parts["icorr"](x, 0)

            def dcorr(self, other, x):
                return self.parts["dcorr"](x, 0)

        t = Field()
        for call in (lambda t: glass.grf.compute(cl, t), lambda t: glass.grf.solve(cl, t, pad=7), lambda t: glass.grf.solve(cl, t, monopole=0.0)):
            ref = C.freeze(call(base))
            for _ in range(2):
                d = C.same(ref, C.freeze(call(t)), 1e-12, 1e-15)
                c.check(d is None, f"transformation that keeps its arrays: other spectra ({d})")
        for s in t.parts.values():
            s.intact("transformation")
    c.key(c.bk, z.size, c.idx)
