"""C29: random generators honour shapes, ranges and parameters."""

import numpy as np
from scipy import stats

from ..core import case
from ..fits import uniform_fit
from ..rngs import RecRNG

PID = "C29"
P = 1e-9
B = ("np", "strict", "np", "strict")


def make(c, seed, kind=None):
    """A generator under test for this backend."""
    import glass.rng

    if c.bk == "jax":
        import glass.jax as gj

        k = int(c.r.integers(0, 3)) if kind is None else kind
        if k == 0:
            return gj.Generator(seed)
        if k == 1:
            return glass.rng.Generator(seed=seed, xp=c.xp)
        return glass.rng.default_rng(seed=seed, xp=c.xp)
    k = int(c.r.integers(0, 3)) if kind is None else kind
    if k == 0:
        return glass.rng.Generator(rng=np.random.default_rng(seed), xp=c.xp)
    if k == 1:
        return glass.rng.Generator(seed=seed, xp=c.xp)
    return glass.rng.default_rng(seed=seed, xp=c.xp)


SIZES = [None, 3, (), (4,), (2, 3), (0,), (2, 1, 2), (1, 3, 1, 2), (2, 1, 1, 1, 3), (1,), (1, 1)]
JSIZES = [None, 3, (2, 3), (1, 2, 1, 3)]


def size(c):
    s = SIZES if c.bk != "jax" else JSIZES
    return s[int(c.r.integers(0, len(s)))]


def tup(s):
    return () if s is None else (s,) if isinstance(s, int) else tuple(s)


def arr(c, x):
    return c.a(np.asarray(x))


def kind_of(c, x, kind, msg):
    c.is_backend(x, msg) if np.ndim(c.n(x)) or c.bk != "np" else None
    dt = c.n(x).dtype
    c.check(dt.kind == kind, f"data type {dt}: {msg}")


@case(PID, q=400, t=8000, backends=B * 8 + ("jax",))
def no_parameters(c):
    """random() and standard_normal(): shape, range, type, precision."""
    r = c.r
    g = make(c, int(r.integers(1 << 30)))
    s = size(c)
    f32 = bool(r.random() < 0.3)
    for m in ("random", "standard_normal"):
        fn = getattr(g, m)
        kw = {"dtype": c.xp.float32} if f32 else {}
        x = fn(s, **kw) if r.random() < 0.5 else fn(size=s, **kw)
        v = c.n(x)
        c.check(v.shape == tup(s), f"{m}: shape {v.shape} instead of {tup(s)}")
        if s is not None or c.bk != "np":  # numpy itself hands out Python floats otherwise
            c.check(v.dtype == (np.float32 if f32 else np.float64), f"{m}: data type {v.dtype}", f32=f32)
        if v.ndim or c.bk != "np":
            c.is_backend(x, m)
        c.check(np.all(np.isfinite(v)), f"{m}: not finite")
        if m == "random":
            c.check(np.all((v >= 0) & (v < 1 + (1e-7 if f32 else 0))), "random: out of range")
        y = c.n(fn(s, **kw))
        c.check(v.size == 0 or not np.array_equal(v, y), f"{m}: consecutive draws are equal")
    c.key(c.bk, s, f32)


def broadcastable(c, r, n):
    """Shapes of n parameters that broadcast together."""
    full = [(), (3,), (2, 3), (1,)][int(r.integers(0, 4))] if c.bk != "jax" else [(), (3,)][int(r.integers(0, 2))]
    out = []
    for _ in range(n):
        k = int(r.integers(0, 3))
        out.append(full if k < 2 else () if k == 2 else full)
    return out, np.broadcast_shapes(*out)


@case(PID, q=500, t=10000, backends=B * 8 + ("jax",))
def with_parameters(c):
    """Shapes follow sizes and parameters; every element follows its own parameters."""
    r = c.r
    g = make(c, int(r.integers(1 << 30)))
    m = str(r.choice(["normal", "uniform", "poisson"]))
    shp, bc = broadcastable(c, r, 2 if m != "poisson" else 1)
    s = None if r.random() < 0.5 else bc if bc or r.random() < 0.3 else size(c)
    out_shape = tup(s) if s is not None else bc

    def param(x):
        return float(x) if np.ndim(x) == 0 and r.random() < 0.8 else arr(c, x)

    # parameters separated by far more than their widths
    base = 1000.0 * r.permutation(max(1, int(np.prod(shp[0])))).reshape(shp[0]) + 500
    if m == "normal":
        sc = r.uniform(0.1, 3, shp[1])
        x = g.normal(param(base), param(sc), s) if r.random() < 0.7 else g.normal(loc=param(base), scale=param(sc), size=s)
        lo, hi = base - 12 * sc, base + 12 * sc
    elif m == "uniform":
        wd = r.uniform(0.1, 3, shp[1])
        top = base + wd
        x = g.uniform(param(base), param(top), s) if r.random() < 0.7 else g.uniform(low=param(base), high=param(top), size=s)
        lo, hi = base, top
    else:
        x = g.poisson(param(base), s) if r.random() < 0.7 else g.poisson(lam=param(base), size=s)
        lo, hi = base - 13 * np.sqrt(base) - 30, base + 13 * np.sqrt(base) + 30
    v = c.n(x)
    c.check(v.shape == out_shape, f"{m}: shape {v.shape} instead of {out_shape}", s=s, shp=shp)
    if v.ndim or c.bk != "np":
        c.is_backend(x, m)
    c.check(v.dtype.kind == ("i" if m == "poisson" else "f"), f"{m}: data type {v.dtype}")
    c.check(np.all((v >= np.broadcast_to(lo, v.shape)) & (v <= np.broadcast_to(hi, v.shape))), f"{m}: element does not follow its own parameters", base=base, got=v)
    if m != "poisson":
        c.check(np.unique(v).size == v.size, f"{m}: repeated values")
    c.key(c.bk, m, s, tuple(shp))


@case(PID, q=250, t=4000, backends=B * 8 + ("jax",))
def multinomial(c):
    r = c.r
    g = make(c, int(r.integers(1 << 30)))
    k = int(r.integers(2, 6)) if c.bk != "jax" else 3
    batch = [(), (4,), (2, 3)][int(r.integers(0, 3))] if c.bk != "jax" else [(), (4,)][int(r.integers(0, 2))]
    p = r.uniform(0, 1, batch + (k,)) * (r.random(batch + (k,)) < 0.7)
    p[..., 0] += (p.sum(-1) == 0) * 1.0
    p /= p.sum(-1, keepdims=True)
    n = int(r.choice([0, 1, 7, 100]))
    s = None if r.random() < 0.5 else batch or [(4,), (4,), (2, 3)][int(r.integers(0, 3))]
    if s is None and r.random() < 0.4:
        # a number of trials for each row
        batch = batch or (4,)
        n = r.choice([0, 1, 7, 100], size=batch)
    m = n if np.ndim(n) == 0 else c.a(n)
    x = g.multinomial(m, arr(c, p), s) if s is not None else g.multinomial(m, arr(c, p))
    v = c.n(x)
    want = (tup(s) if s is not None else batch) + (k,)
    c.check(v.shape == want, f"shape {v.shape} instead of {want}")
    c.is_backend(x, "multinomial")
    c.check(v.dtype.kind == "i", f"data type {v.dtype}")
    c.check(np.all(v >= 0) and np.all(v.sum(-1) == n), "counts do not add up to n", n=n, got=v)
    c.check(np.all((v == 0) | (np.broadcast_to(p, v.shape) > 0)), "impossible outcome drawn")
    c.key(c.bk, str(n), s, batch, k)


@case(PID, q=24, t=300, backends=("np", "strict", "jax"))
def distributions(c):
    """Goodness of fit of every method, element by element."""
    r = c.r
    g = make(c, int(r.integers(1 << 30)))
    n = 20000

    def ks(x, cdf, msg):
        p = {"uniform": lambda t: t, "norm": stats.norm.cdf}.get(cdf, cdf) if isinstance(cdf, str) else cdf
        uniform_fit(c, p(x), f"{msg}: distribution")
        rho = np.corrcoef(x[:-1], x[1:])[0, 1]
        c.check(abs(rho) * np.sqrt(x.size) < 6.5, f"{msg}: successive values are correlated")

    ks(c.n(g.random(n)), "uniform", "random")
    ks(c.n(g.standard_normal((n,))), "norm", "standard_normal")
    loc, sc = r.normal(size=2) * 3, r.uniform(0.1, 4, 2)
    ones = np.ones((n, 2))
    v = c.n(g.normal(arr(c, loc * ones), arr(c, sc * ones)))
    u = c.n(g.uniform(arr(c, loc * ones), arr(c, (loc + sc) * ones)))
    for j in range(2):
        ks(v[:, j], stats.norm(loc[j], sc[j]).cdf, "normal")
        ks(u[:, j], stats.uniform(loc[j], sc[j]).cdf, "uniform")
    c.check(abs(np.corrcoef(v.T)[0, 1]) * np.sqrt(n) < 6.5, "columns are correlated")
    ks(c.n(g.normal(float(loc[0]), float(sc[0]), n)), stats.norm(loc[0], sc[0]).cdf, "normal with scalars")
    ks(c.n(g.uniform(float(loc[0]), float(loc[0] + sc[0]), n)), stats.uniform(loc[0], sc[0]).cdf, "uniform with scalars")
    ks(c.n(g.normal(size=n)), "norm", "normal by default")
    ks(c.n(g.uniform(size=n)), "uniform", "uniform by default")
    lam = np.array([0.0, 0.3, 40.0])
    w = c.n(g.poisson(arr(c, lam * np.ones((n, 3)))))
    c.check(np.all(w[:, 0] == 0) and np.all(w >= 0), "Poisson counts for zero mean")
    for j in (1, 2):
        x = w[:, j]
        top = int(stats.poisson(lam[j]).ppf(1 - 1e-4)) + 1
        low = int(stats.poisson(lam[j]).ppf(1e-4))
        obs = np.array([(x <= low).sum()] + [(x == k).sum() for k in range(low + 1, top)] + [(x >= top).sum()])
        pk = stats.poisson(lam[j])
        ex = n * np.array([pk.cdf(low)] + [pk.pmf(k) for k in range(low + 1, top)] + [pk.sf(top - 1)])
        ok = ex > 5
        chi = ((obs - ex)[ok] ** 2 / ex[ok]).sum()
        c.check(stats.chi2.sf(chi, ok.sum()) > P, "Poisson counts", lam=lam[j])
        c.event("chi2_tests")
    p = np.array([[0.1, 0.2, 0.7], [0.6, 0.4, 0.0]])
    reps = 40 if c.bk == "jax" else 400
    tot = c.n(g.multinomial(50, arr(c, np.repeat(p, reps, axis=0)))).reshape(2, reps, 3).sum(axis=1)
    for j in range(2):
        live = p[j] > 0
        e = p[j][live] * 50 * reps
        chi = ((tot[j][live] - e) ** 2 / e).sum()
        c.check(stats.chi2.sf(chi, live.sum() - 1) > P, "multinomial counts", tot=tot)
    c.key(c.bk, c.idx)


@case(PID, q=80, t=1500, backends=("np", "strict") * 6 + ("jax",))
def streams(c):
    """Equal seeds give equal streams, whatever the sequence of methods; other seeds give others."""
    r = c.r
    seed = int(r.integers(1 << 30))
    names = [str(r.choice(["random", "normal", "standard_normal", "uniform", "poisson", "multinomial"])) for _ in range(6)]
    if c.bk == "jax":
        names = [n for n in names if n != "multinomial"]

    def draw(g, m):
        if m == "poisson":
            return c.n(g.poisson(1e6, (3,)))
        if m == "multinomial":
            return c.n(g.multinomial(100000, arr(c, [0.3, 0.7])))
        return c.n(getattr(g, m)(size=(3,)))

    kinds = [0, 1, 2] if c.bk == "jax" else [0, 1, 2]
    runs = [[draw(g, m) for m in names] for g in (make(c, seed, k) for k in kinds)]
    for other in runs[1:]:
        for m, a, b in zip(names, runs[0], other):
            c.same(b, a, f"equal seeds give different streams ({m})", names=names)
    oth = [draw(g, m) for g in [make(c, seed + 1, 1)] for m in names]
    c.check(not all(np.array_equal(a, b) for a, b in zip(runs[0], oth)) and not any(np.array_equal(a, b) for m, a, b in zip(names, runs[0], oth) if m not in ("poisson", "multinomial")), "different seeds give equal draws", names=names)
    c.key(c.bk, seed)


@case(PID, q=60, t=600, backends=("np", "strict", "np", "strict", "jax"))
def conflicts(c):
    """Explicit shapes that conflict with the parameters are refused."""
    r = c.r
    g = make(c, 1)
    a3, b2 = arr(c, np.ones(3)), arr(c, np.ones(2))
    err = (ValueError, TypeError)
    c.raises(err, lambda: g.normal(a3, 1.0, (2,)), "normal: size against loc")
    c.raises(err, lambda: g.normal(a3, 1.0, 4), "normal: size against loc")
    c.raises(err, lambda: g.normal(0.0, a3, (3, 2)), "normal: size against scale")
    c.raises(err, lambda: g.normal(a3, b2), "normal: loc against scale")
    c.raises(err, lambda: g.uniform(a3, 2.0, (2,)), "uniform: size against low")
    c.raises(err, lambda: g.uniform(0.0, a3, (3, 2)), "uniform: size against high")
    c.raises(err, lambda: g.uniform(a3, b2 + 1), "uniform: low against high")
    c.raises(err, lambda: g.poisson(a3, (2,)), "poisson: size against lam")
    n, m = int(r.integers(2, 5)), int(r.integers(2, 4))
    an, nm = arr(c, np.ones(n)), arr(c, np.ones((n, m)))
    for s, v in (((n, 1), an), ((m * n,), nm), ((1,), an), ((), an), ((n + 1, m), nm)) + ((((m, n), nm),) if m != n else ()):
        c.raises(err, lambda: g.normal(v, 1.0, s), "normal: size of other dimensions than loc")
        c.raises(err, lambda: g.normal(0.0, v, s), "normal: size of other dimensions than scale")
        c.raises(err, lambda: g.uniform(v, 2.0, s), "uniform: size of other dimensions than low")
        c.raises(err, lambda: g.uniform(0.0, v, s), "uniform: size of other dimensions than high")
        c.raises(err, lambda: g.poisson(v, s), "poisson: size of other dimensions than lam")
    c.key(c.bk, int(r.integers(100)))


@case(PID, q=80, t=1000, backends=("np", "strict"))
def wrapped(c):
    """The wrapper hands the generator's numbers on, in order and unchanged."""
    import glass.rng

    r = c.r
    seed = int(r.integers(1 << 30))
    rec = RecRNG(seed)
    g = glass.rng.Generator(rng=rec, xp=c.xp)
    outs = []
    for _ in range(8):
        m = str(r.choice(["random", "normal", "standard_normal", "uniform", "poisson"]))
        s = size(c)
        if m == "poisson":
            outs.append((m, g.poisson(3.0, s)))
        else:
            outs.append((m, getattr(g, m)(size=s)))
    c.check(len(rec.log) == len(outs), "number of calls of the wrapped generator")
    for (m, x), (rm, _, rx) in zip(outs, rec.log):
        c.check(m == rm, f"{m}() calls {rm}()")
        c.same(x, np.asarray(rx), f"numbers of {m}()")
    c.key(c.bk, c.idx)


@case(PID, q=24, t=300, backends=("np", "strict", "np", "strict", "jax"))
def large_numbers(c):
    """Counts and parameters beyond 32 bits."""
    r = c.r
    g = make(c, int(r.integers(1 << 30)))
    lam = 10.0 ** r.uniform(8, 15, 5)
    v = c.n(g.poisson(arr(c, lam)))
    c.check(v.dtype.kind == "i" and np.all(np.abs(v - lam) < 12 * np.sqrt(lam)), "large Poisson counts", lam=lam, got=v)
    v = c.n(g.poisson(float(lam[0]), (3,)))
    c.check(np.all(np.abs(v - lam[0]) < 12 * np.sqrt(lam[0])), "large Poisson counts", lam=lam[0], got=v)
    n = int(10.0 ** r.uniform(9.5, 14))
    v = c.n(g.multinomial(n, arr(c, np.array([0.25, 0.75]))))
    c.check(v.sum() == n and abs(v[0] - n / 4) < 12 * np.sqrt(n), "large multinomial counts", n=n, got=v)
    s = float(10.0 ** r.uniform(-250, 250))
    for m, kw in (("normal", dict(loc=0.0, scale=s)), ("uniform", dict(low=-s, high=s))):
        v = c.n(getattr(g, m)(size=(200,), **kw)) / s
        c.check(np.all(np.isfinite(v)) and 0.2 < np.std(v) < 2 and np.unique(v).size == 200, f"{m}: extreme scale", s=s)
    c.key(c.bk, c.idx)


@case(PID, q=5, t=20, backends=("jax",))
def jax_sizes(c):
    """Explicit and implied sizes of every rank."""
    r = c.r
    g = make(c, int(r.integers(1 << 30)))
    batch, size = [((), (2, 3)), ((2, 3), None), ((2, 3), (2, 3)), ((), (2, 1, 2)), ((), None)][c.idx % 5]
    want = size or batch
    p = r.uniform(0.1, 1, (*batch, 3))
    p /= p.sum(-1, keepdims=True)
    v = c.n(g.multinomial(20, arr(c, p), size) if size else g.multinomial(20, arr(c, p)))
    c.check(v.shape == (*want, 3), f"multinomial: shape {v.shape} instead of {(*want, 3)}")
    c.check(np.all(v.sum(-1) == 20), "counts do not add up to n", got=v)
    if v[..., 0].size > 5:
        c.check(np.unique(v.reshape(-1, 3), axis=0).shape[0] > 1, "rows repeat the same counts", got=v)
    lam = r.uniform(5, 50, batch)
    for x, what in (
        (g.poisson(arr(c, lam), size) if size else g.poisson(arr(c, lam)), "poisson"),
        (g.normal(arr(c, lam), 1.0, size) if size else g.normal(arr(c, lam)), "normal"),
        (g.uniform(arr(c, lam), arr(c, lam + 1), size) if size else g.uniform(arr(c, lam), arr(c, lam + 1)), "uniform"),
    ):
        x = c.n(x)
        c.check(x.shape == want, f"{what}: shape {x.shape} instead of {want}")
        if what == "uniform":
            c.check(np.all((x >= lam) & (x <= lam + 1)) and np.unique(x).size == x.size, "uniform: range or repetition", got=x)
    c.key(batch, size)
