"""C28: the JAX generator is thread-safe and never repeats a key.

Histories of concurrent calls are recorded at the caller's side and searched for a
sequential order that explains every result (linearizability against the sequential
generator).  Delays are injected at ``jax.random.split``, the only collaborator between
reading and writing the key.
"""

import itertools
import sys
import threading
import time

import numpy as np

from ..core import Inconclusive, Violation, case

PID = "C28"

OPS = {
    "random": lambda g: g.random(),
    "normal": lambda g: g.normal(1.0, 2.0),
    "standard_normal": lambda g: g.standard_normal(),
    "uniform": lambda g: g.uniform(2.0, 5.0),
    "random3": lambda g: g.random(3),
    "poisson": lambda g: g.poisson(50.0, (4,)),
    "multinomial": lambda g: g.multinomial(1000, np.array([0.2, 0.3, 0.5])),
    "split": lambda g: g.split(),
    "split2": lambda g: g.split(2),
    "spawn1": lambda g: g.spawn(1),
    "spawn3": lambda g: g.spawn(3),
}
FAST = [o for o in OPS if o != "multinomial"]  # compiled anew for every call
DRAWS = ["random", "normal", "standard_normal", "uniform", "random3"]


def plain(v):
    """Hashable image of a result."""
    import jax

    if isinstance(v, list):
        return tuple(plain(x.key) for x in v)
    if jax.dtypes.issubdtype(v.dtype, jax.dtypes.prng_key):
        return np.asarray(jax.random.key_data(v)).tobytes()
    return np.asarray(v).tobytes()


class Delays:
    """Sleeps around jax.random.split, on a deterministic pattern per thread."""

    def __init__(self, r, prob, span):
        self.r, self.prob, self.span, self.hits = np.random.default_rng(int(r.integers(1 << 30))), prob, span, 0
        self.mutex = threading.Lock()
        self.inside, self.overlaps = 0, 0

    def __enter__(self):
        import jax.random

        self.mod, self.orig = jax.random, jax.random.split

        def split(*a, **k):
            with self.mutex:
                before, after = (self.r.random(2) < self.prob) * self.r.random(2) * self.span
                self.hits += 1
                self.inside += 1
                self.overlaps += self.inside > 1
            time.sleep(before)
            try:
                return self.orig(*a, **k)
            finally:
                time.sleep(after)
                with self.mutex:
                    self.inside -= 1

        self.mod.split = split
        return self

    def __exit__(self, *exc):
        self.mod.split = self.orig


def run_threads(gen, scripts):
    """Run scripts of operations concurrently; returns results per thread."""
    res = [[] for _ in scripts]
    errs = []
    bar = threading.Barrier(len(scripts))

    def body(i):
        try:
            bar.wait(30)
            for op in scripts[i]:
                t0 = time.monotonic_ns()
                v = OPS[op](gen)
                t1 = time.monotonic_ns()
                res[i].append((op, v, t0, t1))
        except Exception as e:  # noqa: BLE001
            errs.append(e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(scripts))]
        for t in ts:
            t.start()
        end = time.monotonic() + 100
        for t in ts:
            t.join(max(0.1, end - time.monotonic()))
        if any(t.is_alive() for t in ts):
            if all(len(x) == 0 for x in res) and not errs:
                raise Inconclusive("no thread made progress")
            raise Violation("threads sharing a generator are stuck", done=[len(x) for x in res])
    finally:
        sys.setswitchinterval(old)
    if errs:
        raise Violation(f"concurrent call failed: {type(errs[0]).__name__}: {errs[0]}")
    return res


class Model:
    """Sequential generator: state -> result and next state, memoised."""

    def __init__(self):
        import glass.jax as gj

        self.G, self.memo = gj.Generator, {}

    def step(self, key, op):
        k = (plain(key), op)
        if k not in self.memo:
            g = self.G.from_key(key)
            v = plain(OPS[op](g))
            self.memo[k] = (v, g.key)
        return self.memo[k]


def linearize(key, hist):
    """Depth-first search for a sequential order explaining all results and real-time order."""
    model = Model()
    n = len(hist)
    stack = [(tuple([0] * n), key, ())]
    seen = set()
    best = ()
    while stack:
        pos, key, order = stack.pop()
        if len(order) > len(best):
            best = order
        if all(p == len(h) for p, h in zip(pos, hist)):
            return order, best
        state = (pos, plain(key))
        if state in seen:
            continue
        seen.add(state)
        # an operation may come next only if nothing pending ended before it began
        ends = [h[p][3] for p, h in zip(pos, hist) if p < len(h)]
        for i in range(n):
            if pos[i] < len(hist[i]):
                op, v, t0, _ = hist[i][pos[i]]
                if min(ends) < t0:
                    continue
                want, nxt = model.step(key, op)
                if want == v:
                    stack.append((pos[:i] + (pos[i] + 1,) + pos[i + 1 :], nxt, order + (i,)))
    return None, best


def start(r):
    import glass.jax as gj

    import jax

    seed = int(r.integers(0, 1 << 31))
    g = gj.Generator(seed) if r.random() < 0.6 else gj.Generator.from_key(jax.random.key(seed))
    return g, gj.Generator.from_key(g.key), seed


@case(PID, q=48, t=700, backends=("jax",))
def linearizable(c):
    r = c.r
    g, twin, seed = start(r)
    n = int(r.integers(2, 7))
    kinds = FAST + ["multinomial"] * (r.random() < 0.1) if r.random() < 0.6 else DRAWS if r.random() < 0.5 else ["split", "split2", "spawn1", "spawn3", "random"]
    scripts = [[str(r.choice(kinds)) for _ in range(int(r.integers(1, 8)))] for _ in range(n)]
    with Delays(r, float(r.choice([0.0, 0.5, 1.0])), float(r.choice([0.0005, 0.003]))) as d:
        res = run_threads(g, scripts)
    hist = [[(op, plain(v), t0, t1) for op, v, t0, t1 in th] for th in res]
    total = sum(map(len, scripts))
    c.event("concurrent_calls", total)
    c.event("injected_delays", d.hits)
    order, best = linearize(twin.key, hist)
    c.check(order is not None, f"results of {total} concurrent calls match no sequential order (longest explained prefix {len(best)})", scripts=scripts, seed=seed)
    # every value is one of its own
    by_op = {}
    for th in hist:
        for op, v, _, _ in th:
            by_op.setdefault(op, []).append(v)
    for op, vs in by_op.items():
        c.check(len(set(vs)) == len(vs), f"repeated result of {op} in concurrent calls", scripts=scripts)
    switches = sum(a != b for a, b in zip(order, order[1:]))
    c.event("thread_switches", switches)
    c.note(scripts=scripts, order="".join(map(str, order)))
    c.key("".join(map(str, order)))


@case(PID, q=24, t=400, backends=("jax",))
def multiset(c):
    """Identical draws in all threads: the values are those of the sequential stream, each once."""
    r = c.r
    g, twin, seed = start(r)
    n, m = int(r.integers(2, 9)), int(r.integers(3, 12))
    op = str(r.choice(DRAWS + ["split", "spawn1"]))
    with Delays(r, 0.7, 0.001) as d:
        res = run_threads(g, [[op] * m for _ in range(n)])
    got = sorted(plain(v) for th in res for _, v, _, _ in th)
    want = sorted(plain(OPS[op](twin)) for _ in range(n * m))
    c.check(len(set(got)) == n * m, f"{n * m - len(set(got))} values drawn more than once", op=op, threads=n)
    c.check(got == want, "values drawn differ from the sequential ones", op=op, threads=n)
    c.check(plain(g.key) == plain(twin.key), "final state differs from the sequential one")
    c.event("concurrent_calls", n * m)
    c.event("injected_delays", d.hits)
    c.key(op, n, m)


@case(PID, q=60, t=1200, backends=("jax",))
def distinct_keys(c):
    """Keys split, children spawned and the parent's future never coincide."""
    r = c.r
    g, twin, seed = start(r)
    seen = {plain(g.key): "initial"}
    gens = [g]
    trace = []

    def see(key, what):
        k = plain(key)
        c.check(k not in seen, f"key of {what} coincides with {seen.get(k)}", trace=trace)
        seen[k] = what

    vals = {}
    for i in range(int(r.integers(4, 12))):
        j = int(r.integers(0, len(gens)))
        h = gens[j]
        op = str(r.choice(["spawn1", "spawn3", "split", "split2", "random", "normal"]))
        trace.append(f"{j}.{op}")
        v = OPS[op](h)
        if op.startswith("spawn"):
            c.check(isinstance(v, list) and len(v) == int(op[-1]) and all(isinstance(x, type(g)) for x in v), "spawned children")
            for x in v:
                see(x.key, f"child of {j} at step {i}")
            gens += v
        elif op.startswith("split"):
            c.check(v.shape == ((2,) if op == "split2" else ()), "shape of split keys")
            for k in np.ravel(np.arange(v.size)):
                see(v.reshape(-1)[int(k)], f"split of {j} at step {i}")
        else:
            b = plain(v)
            c.check(b not in vals, f"value of step {i} repeats that of step {vals.get(b)}", trace=trace)
            vals[b] = i
        see(h.key, f"state of {j} after step {i}")
        c.event("operations")
    if r.random() < 0.3:
        many = int(r.integers(20, 150))
        fam = g.spawn(many)
        c.check(len(fam) == many, "number of children")
        for x in fam:
            see(x.key, "one of many children")
        see(g.key, "state after many children")
        for x in g.split(many):
            see(x, "one of many split keys")
        see(g.key, "state after many split keys")
    # all generators give different numbers
    nxt = [plain(h.random()) for h in gens]
    c.check(len(set(nxt)) == len(nxt), "two generators give the same number", trace=trace)
    c.check(not set(nxt) & set(vals), "a number already given is repeated")
    c.note(trace=trace)
    c.key(" ".join(trace))


@case(PID, q=30, t=300, backends=("jax",))
def seeds(c):
    """Equal seeds give equal sequences; different seeds and later draws do not."""
    import glass.jax as gj

    import jax

    r = c.r
    s = int(r.integers(0, 1 << 31)) if r.random() < 0.6 else int(r.integers(1 << 31, 1 << 62))
    script = [str(r.choice(FAST)) for _ in range(6)] + (["multinomial"] if r.random() < 0.1 else [])
    far = gj.Generator(s ^ (1 << 33))
    c.check(plain(far.random(8)) != plain(gj.Generator(s).random(8)), "seeds that differ in a high bit give the same values", seed=s)
    a, b, k, o = gj.Generator(s), gj.Generator(s), gj.Generator.from_key(jax.random.key(s)), gj.Generator(s + 1)
    ra, rb, rk, ro = ([plain(OPS[op](x)) for op in script] for x in (a, b, k, o))
    c.check(ra == rb, "equal seeds give different sequences", script=script)
    c.check(ra == rk, "generator from a key differs from the one from its seed", script=script)
    c.check(not any(x == y for x, y in zip(ra, ro) if len(x) >= 8), "different seeds give the same values", script=script)
    if c.idx % 3 == 0:
        impl = ["threefry2x32", "rbg", "unsafe_rbg"][c.idx // 3 % 3]
        i, j = gj.Generator(s, impl=impl), gj.Generator.from_key(jax.random.key(s, impl=impl))
        c.check(str(jax.random.key_impl(i.key)) == str(jax.random.key_impl(j.key)), "another implementation than the one asked for", impl=impl)
        c.check(plain(i.random(8)) == plain(j.random(8)), "generator with another implementation differs from the one of its key", impl=impl)
    c.raises(ValueError, lambda: gj.Generator.from_key(jax.numpy.asarray([1, 2])), "array that is no key")
    shape = [(2, 3), (0,), 4, (1,)][int(r.integers(0, 4))]
    ks = a.split(shape)
    c.check(ks.shape == ((shape,) if isinstance(shape, int) else shape), "shape of split keys")
    flat = [plain(x) for x in ks.reshape(-1)] if ks.size else []
    c.check(len(set(flat)) == len(flat), "split keys coincide")
    c.key(s)


@case(PID, q=12, t=150, backends=("jax",))
def spawned_in_threads(c):
    """Children used by their own threads give the same numbers as when used one after the other."""
    r = c.r
    g, twin, seed = start(r)
    n, m = int(r.integers(2, 6)), 5
    kids, kt = g.spawn(n), twin.spawn(n)
    out = [None] * n

    def body(i):
        out[i] = [plain(kids[i].random()) for _ in range(m)]

    with Delays(r, 0.7, 0.001):
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(100)
    want = [[plain(x.random()) for _ in range(m)] for x in kt]
    c.check(out == want, "children disturb each other")
    flat = list(itertools.chain(*want))
    c.check(len(set(flat)) == len(flat), "children give the same numbers")
    c.check(plain(g.random()) == plain(twin.random()), "parent disturbed by its children")
    c.key(seed)
