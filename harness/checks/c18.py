"""C18: resampled shapes keep the intended variance relation."""

import numpy as np
from scipy import stats

from ..core import case

PID = "C18"
P = 1e-9


def sample(r, shape):
    k = int(r.integers(0, 5))
    n = int(np.prod(shape))
    if k == 4:  # nothing says that moduli are below one
        m = r.uniform(0, 1, n) * float(r.choice([0.3, 0.9]))
        m[int(r.integers(0, n))] = float(r.uniform(1.0, 1.5))
    elif k == 0:
        m = r.uniform(0, 1, n)
    elif k == 1:
        m = np.full(n, float(r.uniform(0.01, 0.9)))
    elif k == 2:
        m = np.minimum(np.abs(r.normal(size=n)) * 0.26, 1)
    else:
        m = r.uniform(0, 1, n) * (r.random(n) < 0.7)
        m[0] = 0.5
    ph = r.uniform(0, 2 * np.pi, n) if r.random() < 0.5 else np.full(n, 0.3)
    return (m * np.exp(1j * ph)).reshape(shape)


def common_factor(c, e, out):
    """The one factor between old and new moduli."""
    a, b = np.abs(e).ravel(), np.abs(out).ravel()
    c.check(np.all(b[a == 0] < 1e-12), "zero modulus became non-zero")
    live = a > 1e-9
    f = b[live] / a[live]
    c.check(np.all(np.isfinite(f)), "non-finite result")
    c.check(np.ptp(f) <= 1e-9, "moduli not scaled by one common factor", spread=np.ptp(f))
    return float(f.mean())


@case(PID, q=600, t=15000, backends=("np", "strict", "np", "np", "jax"))
def relation(c):
    import glass

    r = c.r
    shape = [(1,), (7,), (300,), (5, 6), (2, 3, 4)][int(r.integers(0, 5))] if c.bk != "jax" else (300,)
    e = sample(r, shape)
    V = float(np.mean(np.abs(e) ** 2))
    kind = str(r.choice(["none", "varg", "vargamma"]))
    frac = float(r.choice([0.0, 1e-9, 0.01, 0.3, 0.9, 1 - 1e-6]))
    v = V * frac
    kw = {} if kind == "none" else {kind: v}
    if r.random() < 0.05:  # moduli of powers of two: the sample's variance is an exact number
        e = 2.0 ** -int(r.integers(0, 4)) * np.array([1, -1, 1j, -1j])[r.integers(0, 4, shape)]
        V = v = float(np.abs(e.ravel()[0])) ** 2
        kind, frac = str(r.choice(["varg", "vargamma"])), 1.0
        kw = {kind: v}
    if c.bk == "jax":
        import glass.jax as gj

        rng = gj.Generator(c.idx)
    else:
        rng = np.random.default_rng(int(r.integers(1 << 30)))
    out = glass.resample_shapes(c.a(e), rng=rng, **kw)
    c.is_backend(out, "shapes")
    out = c.n(out)
    c.check(out.shape == shape and out.dtype.kind == "c", f"shape {out.shape} instead of {shape}")
    f = common_factor(c, e, out)
    c.check(f >= 0 and f <= 1 + 1e-9, "factor outside of [0, 1]", f=f)
    new2, new4 = float(np.mean(np.abs(out) ** 2)), float(np.mean(np.abs(out) ** 4))
    if kind == "none" or v == 0:
        c.check(abs(f - 1) < 1e-9, "moduli changed without shear variance", f=f, kind=kind)
    elif kind == "vargamma":
        c.close(np.float64(new2 + v), np.float64(V), "variance after adding the shear", rtol=1e-9, frac=frac)
    else:
        # reduced shear to second order: <|e'|^2> = (1 - 2 v) <|e|^2> + v <|e|^4> + v
        c.close(np.float64((1 - 2 * v) * new2 + v * new4 + v), np.float64(V), "variance after adding the reduced shear", rtol=1e-7, frac=frac, V=V)
    c.note(shape=shape, kind=kind, frac=frac)
    c.key(c.bk, shape, kind, frac)


@case(PID, q=40, t=600, backends=("np", "strict", "np"))
def orientations(c):
    """Fresh, isotropic orientations, independent of the old ones and of the moduli."""
    import glass

    r = c.r
    e = sample(r, (5000,))
    e = e[np.abs(e) > 1e-6]
    seed = int(r.integers(1 << 30))
    a = c.n(glass.resample_shapes(c.a(e), rng=np.random.default_rng(seed)))
    b = c.n(glass.resample_shapes(c.a(e), rng=np.random.default_rng(seed + 1)))
    for x in (a, b):
        ph = np.angle(x) / (2 * np.pi) % 1
        c.check(stats.kstest(ph, "uniform").pvalue > P, "orientations are not isotropic")
        d = (np.angle(x) - np.angle(e)) / (2 * np.pi) % 1
        c.check(stats.kstest(d, "uniform").pvalue > P, "orientations depend on the input's")
        rho = stats.spearmanr(np.abs(x), ph)[0]
        c.check(not np.isfinite(rho) or abs(rho) * np.sqrt(x.size) < 6.5, "orientations depend on the moduli")
        s = np.corrcoef(ph[:-1], ph[1:])[0, 1]
        c.check(abs(s) * np.sqrt(x.size) < 6.5, "orientations of neighbours are correlated")
        c.event("ks_tests", 2)
    c.check(np.mean(np.abs(a - b) < 1e-12) < 0.01, "another seed gives the same orientations")
    c.key(c.bk, seed)


@case(PID, q=20, t=200)
def by_simulation(c):
    """Adding a random shear of the given variance brings the variance back to the input's."""
    import glass

    r = c.r
    n = 400_000
    e = sample(r, (n,))
    e *= 0.6
    V = np.mean(np.abs(e) ** 2)
    v = float(V * r.uniform(0.01, 0.05))
    kind = str(r.choice(["varg", "vargamma"]))
    x = glass.resample_shapes(e, rng=np.random.default_rng(c.idx), **{kind: v})
    g = c.gen(1)
    s = np.sqrt(v / 2) * (g.normal(size=n) + 1j * g.normal(size=n))
    y = x + s if kind == "vargamma" else (x + s) / (1 + np.conj(s) * x)
    got = np.mean(np.abs(y) ** 2)
    err = np.std(np.abs(y) ** 2) / np.sqrt(n)
    c.check(abs(got - V) < 7 * err + 4 * v**2, "variance with shear is not the input's", got=got, want=V, err=err, v=v, kind=kind)
    c.key(kind, c.idx)


@case(PID, q=60, t=600, backends=("np", "strict", "jax"))
def refusals(c):
    import glass

    r = c.r
    e = sample(r, (20,))
    V = float(np.mean(np.abs(e) ** 2))
    g = None if c.bk == "jax" else np.random.default_rng(1)
    big = V * (1 + float(r.choice([1e-6, 0.5, 10])))
    c.raises(ValueError, lambda: glass.resample_shapes(c.a(e), varg=big, rng=g), "varg larger than the sample's variance")
    c.raises(ValueError, lambda: glass.resample_shapes(c.a(e), vargamma=big, rng=g), "vargamma larger than the sample's variance")
    c.raises(ValueError, lambda: glass.resample_shapes(c.a(e), varg=V / 2, vargamma=V / 2, rng=g), "both variances")
    c.raises(ValueError, lambda: glass.resample_shapes(c.a(e), varg=0.0, vargamma=0.0, rng=g), "both variances")
    c.key(c.bk, c.idx)


@case(PID, q=4, t=60, backends=("np", "strict", "np", "np"))
def orientations_pooled(c):
    """Small samples in many calls, and one large sample, are isotropic as well."""
    import glass

    r = c.r
    rng = np.random.default_rng(int(r.integers(1 << 30)))
    e = c.a(sample(r, (3,)) * 0 + np.array([0.3, 0.2j, -0.1 + 0.1j]))
    kw = [{}, {"varg": 0.01}, {"vargamma": 0.01}][c.idx % 3]
    x = np.stack([c.n(glass.resample_shapes(e, rng=rng, **kw)) for _ in range(2500)])
    full = c.gen(2).uniform(0.1, 0.5, 600_000) + 0.0j
    big = c.n(glass.resample_shapes(c.a(full), rng=rng, **kw))
    ph = np.angle(x) / (2 * np.pi) % 1
    for j in range(3):
        c.check(stats.kstest(ph[:, j], "uniform").pvalue > P, "small samples: orientations are not isotropic")
    for i, j in ((0, 1), (1, 2)):
        c.check(stats.kstest((ph[:, i] - ph[:, j]) % 1, "uniform").pvalue > P, "small samples: orientations are not independent")
    t = np.angle(big) / (2 * np.pi) % 1
    c.check(stats.kstest(t, "uniform").pvalue > P, "large sample: orientations are not isotropic")
    c.check(stats.kstest((t[1:] - t[:-1]) % 1, "uniform").pvalue > P, "large sample: orientations are not independent")
    m = np.abs(big) / np.abs(full)
    c.check(np.ptp(m) <= 1e-12 and np.all(np.isfinite(m)), "large sample: moduli not scaled by one common factor", spread=np.ptp(m))
    c.event("ks_tests", 7)
    # every element of an array has its own orientation
    shape = [(40, 50), (10, 20, 30), (4, 3, 5, 20), (1, 500)][int(r.integers(0, 4))]
    a = sample(r, shape)
    x = c.n(glass.resample_shapes(c.a(a), rng=rng, **({k: v * float(np.mean(np.abs(a) ** 2)) for k, v in kw.items()})))
    live = np.abs(x) > 1e-9
    c.check(np.unique(np.angle(x[live])).size == live.sum(), "orientations are shared between elements", shape=shape)
    for ax in range(len(shape)):
        if shape[ax] > 1:
            d = np.diff(np.where(live, np.angle(x), np.nan), axis=ax).ravel() / (2 * np.pi) % 1
            d = d[np.isfinite(d)][:2000]
            c.check(d.size < 100 or stats.kstest(d, "uniform").pvalue > P, f"orientations are related along axis {ax}", shape=shape)
    c.key(c.bk, c.idx)
