"""C16: photometric redshifts are Gaussian, bounded and aligned."""

import numpy as np
from scipy import stats

from ..core import case, to_np
from ..fits import uniform_fit
from ..rngs import Scripted

PID = "C16"
P = 1e-9


def bounds(r, c, shape):
    """Lower and upper bounds and how they are given."""
    lo_k, up_k = str(r.choice(["none", "scalar", "array"])), str(r.choice(["none", "scalar", "array"]))
    if shape == ():
        lo_k, up_k = lo_k.replace("array", "scalar"), up_k.replace("array", "scalar")
    lo = {"none": None, "scalar": float(r.uniform(0.0, 0.5)), "array": r.uniform(0.0, 0.5, shape)}[lo_k]
    up = {"none": None, "scalar": float(r.uniform(1.0, 2.0)), "array": r.uniform(1.0, 2.0, shape)}[up_k]
    return lo, up


def shapes(r):
    return [((), ()), ((9,), ()), ((), (5,)), ((6,), (6,)), ((3, 1), (4,)), ((2, 3), ()), ((1,), ()), ((0,), ())][int(r.integers(0, 8))]


@case(PID, q=400, t=10000, backends=("np", "strict", "np", "np", "jax"), steps=5_000_000)
def history(c):
    """Each element keeps the first admissible value served for it; width and mean are its own."""
    import glass

    r = c.r
    zs, ss = shapes(r)
    shape = np.broadcast_shapes(zs, ss)
    # blueshifts are redshifts as well
    top = 2.5 if r.random() < 0.6 else float(r.choice([6.0, 30.0, 1100.0]))
    z = np.round(r.uniform(-0.3 if r.random() < 0.3 else 0.1, top, zs), 6)
    s0 = np.round(r.uniform(0.01, 0.3, ss), 6)
    lo, up = bounds(r, c, shape)
    L = np.broadcast_to(0.0 if lo is None else lo, shape)
    U = np.broadcast_to(np.inf if up is None else up, shape)
    Z, S = np.broadcast_to(z, shape), np.broadcast_to((1 + z) * s0, shape)
    scripts, rejects = {}, 0
    for i in np.ndindex(shape):
        s = []
        for _ in range(int(r.choice([0, 0, 1, 2, 7]))):
            low = L[i] - 10.0 ** r.uniform(-9, 0)
            high = U[i] + 10.0 ** r.uniform(-9, 0)
            s.append(float(low if not np.isfinite(U[i]) or r.random() < 0.5 else high))
            rejects += 1
        k = r.random()
        hi = U[i] if np.isfinite(U[i]) else L[i] + 2
        v = L[i] if k < 0.1 else (U[i] if k < 0.2 and np.isfinite(U[i]) else L[i] + (hi - L[i]) * r.uniform(0.01, 0.99))
        s.append(float(v))
        s.append(float(L[i] + (hi - L[i]) * 0.37))  # other admissible values, never to be used
        scripts[(round(float(Z[i]), 9), round(float(S[i]), 9))] = s
    rng = Scripted(scripts)
    kw = {}
    if lo is not None:
        kw["lower"] = c.a(lo) if np.ndim(lo) else lo
    if up is not None:
        kw["upper"] = c.a(up) if np.ndim(up) else up
    scal = zs == () and ss == ()
    za = c.a(z) if zs or r.random() < 0.5 or scal else float(z)
    sa = c.a(s0) if ss or (c.bk == "np" and r.random() < 0.5) else float(s0)
    got = glass.gaussian_phz(za, sa, rng=rng, **kw)
    c.is_backend(got, "redshifts")
    x = c.n(got)
    c.check(not rng.unknown, "normal drawn with another mean or width", drawn=rng.unknown[:2], expected=list(scripts)[:2])
    c.check(x.shape == shape, f"shape {x.shape} instead of {shape}")
    for i in np.ndindex(shape):
        k = (round(float(Z[i]), 9), round(float(S[i]), 9))
        c.check(L[i] <= x[i] <= U[i], "redshift outside of its own bounds", x=x[i], lower=L[i], upper=U[i])
        first = next((v for v in rng.served.get(k, []) if L[i] <= v <= U[i]), None)
        if list(scripts).count(k) == 1 and len(scripts) == int(np.prod(shape)):
            c.check(first is not None and abs(x[i] - first) < 1e-12, "not the first admissible value of the element's own draws", x=x[i], first=first, served=rng.served.get(k))
    c.event("elements", x.size)
    c.event("rejections", rejects)
    c.note(zs=zs, ss=ss, lo=lo, up=up)
    c.key(c.bk, zs, ss, np.ndim(lo) if lo is not None else -1, np.ndim(up) if up is not None else -1, rejects)


@case(PID, q=40, t=600, backends=("np", "np", "strict"))
def distribution(c):
    """Truncated normal, element by element."""
    import glass

    r = c.r
    m = 4000
    z = r.uniform(0.0, 1.5, 3)
    s0 = float(r.choice([0.03, 0.2, 0.6]))
    lo, up = [(None, None), (0.2, None), (None, 1.2), (0.3, 1.0)][c.idx % 4]
    kw = {k: v for k, v in (("lower", lo), ("upper", up)) if v is not None}
    # widths so that most bounds are reachable
    z = np.clip(z, (lo or 0.0) - s0, (up or 9.0) + s0)
    x = c.n(glass.gaussian_phz(c.a(np.repeat(z, m)), s0, rng=np.random.default_rng(int(r.integers(1 << 30))), **kw)).reshape(3, m)
    for k in range(3):
        sd = (1 + z[k]) * s0
        a, b = ((0.0 if lo is None else lo) - z[k]) / sd, ((np.inf if up is None else up) - z[k]) / sd
        if stats.norm.cdf(b) - stats.norm.cdf(a) < 1e-3:
            continue
        p = stats.kstest(x[k], stats.truncnorm(a, b, loc=z[k], scale=sd).cdf).pvalue
        c.check(p > P, f"photometric redshifts do not follow the truncated normal distribution (KS p = {p:.1e})", z=z[k], sigma=sd, lower=lo, upper=up)
        c.event("ks_tests")
    c.key(c.bk, s0, lo, up, c.idx)


@case(PID, q=60, t=600, backends=("np", "strict"), steps=200_000)
def refusals(c):
    import glass

    r = c.r
    z = r.uniform(0.2, 1, 4)
    kind = c.idx % 6
    f = lambda **kw: glass.gaussian_phz(c.a(z), 0.05, rng=np.random.default_rng(0), **kw)
    v = float(r.uniform(0.2, 1))
    if kind == 0:
        c.raises(ValueError, lambda: f(lower=v + float(r.choice([0, 0.1])), upper=v), "lower >= upper")
    elif kind == 1:
        lo, up = np.full(4, 0.1), np.full(4, 1.5)
        k = int(r.integers(0, 4))
        lo[k], up[k] = 1.5, 1.5 - float(r.choice([0, 0.3]))
        c.raises(ValueError, lambda: f(lower=c.a(lo), upper=c.a(up)), "lower >= upper for one element")
    elif kind == 2:
        c.raises(ValueError, lambda: f(lower=c.a(np.zeros(3)), upper=c.a(np.full(3, 3.0))), "bounds of another shape")
    elif kind == 3:
        c.raises(ValueError, lambda: f(upper=-v), "upper below the default lower bound")
    elif kind == 4:
        c.raises(ValueError, lambda: f(lower=0.0, upper=c.a(np.full((2, 4), 3.0))), "one bound of another shape")
    else:
        c.raises(ValueError, lambda: f(lower=c.a(np.zeros(3))), "one bound of another shape")
    c.key(kind, c.bk)


@case(PID, q=4, t=60, backends=("np", "strict", "np", "np"))
def large_and_small(c):
    """Half a million redshifts at once; and thousands of calls for one or a few redshifts."""
    import glass

    r = c.r
    s0 = float(r.uniform(0.1, 0.5))
    z0 = float(r.uniform(0.0, 1.0))
    lo, up = [(None, None), (0.2, 1.1), (0.1, None), (None, 1.0)][c.idx % 4]
    kw = {k: v for k, v in (("lower", lo), ("upper", up)) if v is not None}
    sd = (1 + z0) * s0
    a, b = ((0.0 if lo is None else lo) - z0) / sd, ((np.inf if up is None else up) - z0) / sd
    cdf = stats.truncnorm(a, b, loc=z0, scale=sd).cdf
    rng = np.random.default_rng(int(r.integers(1 << 30)))
    big = c.n(glass.gaussian_phz(c.a(np.full(500_000, z0)), s0, rng=rng, **kw))
    one, few = [], []
    for _ in range(1500):
        one.append(float(glass.gaussian_phz(c.a(np.asarray(z0)), s0, rng=rng, **kw)))
        few.append(c.n(glass.gaussian_phz(c.a(np.full(2, z0)), s0, rng=rng, **kw)))
    few = np.stack(few)
    for x, what in ((big, "large sample"), (np.array(one), "many scalar calls"), (few[:, 0], "first of two"), (few[:, 1], "second of two")):
        uniform_fit(c, cdf(x), f"{what}: not the truncated normal distribution", z=z0, sigma=sd, lower=lo, upper=up)
    c.check(abs(np.corrcoef(few.T)[0, 1]) * np.sqrt(len(few)) < 6.5, "redshifts of one call are correlated")
    c.key(c.bk, lo, up, c.idx)


@case(PID, q=8, t=80, backends=("np", "np", "strict", "np"), steps=40_000_000)
def narrow_bounds(c):
    """Bounds that accept few of the draws."""
    import glass

    r = c.r
    n = 400
    z = float(r.uniform(0.0, 1.0))
    s0 = float(r.uniform(0.1, 0.5))
    sd = (1 + z) * s0
    lo = max(0.0, z + sd * float(r.uniform(-1.5, 1.5)))
    up = lo + sd * 10.0 ** float(r.uniform(-2.0, -1.0))
    x = c.n(glass.gaussian_phz(c.a(np.full(n, z)), s0, lower=lo, upper=up, rng=np.random.default_rng(int(r.integers(1 << 30)))))
    c.check(np.all((x >= lo) & (x <= up)), "redshift outside of narrow bounds", lower=lo, upper=up, outside=x[(x < lo) | (x > up)][:3])
    p = stats.kstest(x, stats.truncnorm((lo - z) / sd, (up - z) / sd, loc=z, scale=sd).cdf).pvalue
    c.check(p > P, f"narrow bounds: not the truncated normal distribution (KS p = {p:.1e})", lower=lo, upper=up)
    c.event("ks_tests")
    c.key(c.bk, c.idx)
