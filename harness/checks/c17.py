"""C17: ellipticity samples follow their stated distributions."""

import numpy as np
from scipy import stats

from ..core import case
from ..fits import uniform_fit
from ..rngs import RecRNG, Scripted

PID = "C17"
P = 1e-9


def silhouette(zeta, xi, ct, phi):
    """Axis ratio of the projection of an ellipsoid with semi-axes (1, zeta, xi) along a direction, from 3-d geometry."""
    st = np.sqrt(1 - ct**2)
    n = np.stack([st * np.cos(phi), st * np.sin(phi), ct], -1)
    D = np.zeros(n.shape[:-1] + (3, 3))
    D[..., 0, 0], D[..., 1, 1], D[..., 2, 2] = 1, zeta, xi
    # the semi-axes of the silhouette are the singular values; the smaller one from the area, which does not cancel
    major = np.linalg.svd(D @ (np.eye(3) - n[..., :, None] * n[..., None, :]), compute_uv=False)[..., 0]
    area = np.sqrt((zeta * xi * n[..., 0]) ** 2 + (xi * n[..., 1]) ** 2 + (zeta * n[..., 2]) ** 2)
    return area / major**2


def shapes_of(r):
    a = [(), (3,), (2, 1), (1,)][int(r.integers(0, 4))]
    b = [(), (3,), (3,), (1, 3)][int(r.integers(0, 4))]
    return a, b


@case(PID, q=200, t=4000, backends=("np", "strict", "np", "np"))
def projections(c):
    import glass

    r = c.r
    sa, sb = shapes_of(r)
    zeta = r.uniform(0.05, 1, sa)
    xi = r.uniform(0.02, 1, sb) * zeta.min(initial=1) if r.random() < 0.6 else r.uniform(0.02, 1, sb)
    if r.random() < 0.15:
        zeta = np.ones(sa)
    flat = r.random() < 0.15  # discs
    if flat:
        xi = xi * float(r.choice([0.0, 1e-12, 1e-8, 1e-4]))
    elif r.random() < 0.15:  # needles
        thin = 10.0 ** r.uniform(-12, -2)
        zeta, xi = zeta * thin, xi * thin
    full = np.broadcast_shapes(sa, sb)
    size = None
    if r.random() < 0.5:
        size = (int(r.integers(1, 60)),) + full
        if full == () and r.random() < 0.5:
            size = int(size[0])
    rng = RecRNG(int(r.integers(1 << 30)))
    q = glass.triaxial_axis_ratio(c.a(zeta), c.a(xi), size=size, rng=rng)
    c.is_backend(q, "axis ratios")
    q = c.n(q)
    shape = full if size is None else (size if isinstance(size, tuple) else (size,))
    c.check(q.shape == shape, f"shape {q.shape} instead of {shape}")
    c.check(np.all((q > 0 if not flat else q >= 0) & (q <= 1 + 1e-12)), "axis ratio outside of (0, 1]", q=q)
    lo = np.broadcast_to(np.minimum(np.minimum(zeta, xi), 1) / np.maximum(1, np.maximum(zeta, xi)), shape)
    c.check(np.all(q >= lo * (1 - 1e-6)), "axis ratio below the smallest possible one", q=q)
    calls = rng.calls("uniform")
    if len(calls) == 2 and np.all(calls[0][0]["low"] == -1) and np.all(calls[0][0]["high"] == 1) and np.allclose(calls[1][0]["high"], 2 * np.pi):
        ct, phi = np.reshape(calls[0][1], shape), np.reshape(calls[1][1], shape)
        want = silhouette(np.broadcast_to(zeta, shape), np.broadcast_to(xi, shape), ct, phi)
        c.close(q, want, "axis ratio is not that of the silhouette", rtol=1e-6, atol=1e-10, zeta=zeta, xi=xi)
        c.event("silhouettes", q.size)
    c.key(c.bk, sa, sb, size if isinstance(size, int) else (size or ())[:1])


@case(PID, q=16, t=200, backends=("np", "np", "strict"))
def projection_statistics(c):
    """Axis ratios over isotropic directions (independent of how the directions are drawn)."""
    import glass

    r = c.r
    zeta, xi = float(r.uniform(0.3, 1)), float(r.uniform(0.1, 0.9))
    n = 20000
    q = c.n(glass.triaxial_axis_ratio(c.a(zeta), c.a(xi), size=n, rng=np.random.default_rng(int(r.integers(1 << 30)))))
    g = c.gen(3)
    v = g.normal(size=(60000, 3))
    v /= np.linalg.norm(v, axis=1)[:, None]
    ref = silhouette(np.full(60000, zeta), np.full(60000, xi), v[:, 2], np.arctan2(v[:, 1], v[:, 0]))
    p = stats.ks_2samp(q, ref).pvalue
    c.event("ks_tests")
    c.check(p > P, f"axis ratios do not follow isotropic projection (KS p = {p:.1e})", zeta=zeta, xi=xi)
    c.key(c.bk, round(zeta, 1), round(xi, 1))


def populations(r, top, big):
    """Counts and widths with broadcastable shapes."""
    ca, cb = shapes_of(r)
    counts = r.integers(0, 8, ca) if not big else r.choice([0, 1, big], ca)
    sigma = r.uniform(0.02, top, cb)
    if r.random() < 0.15:  # nearly round
        sigma = sigma * 10.0 ** r.uniform(-8, -1)
    return counts, sigma, np.broadcast_shapes(np.shape(counts), np.shape(sigma))


def isotropic(c, e, what):
    e = e[np.abs(e) > 1e-12]
    if e.size >= 50:
        ph = np.angle(e) / (2 * np.pi) % 1
        p = stats.kstest(ph, "uniform").pvalue
        c.event("ks_tests")
        c.check(p > P, f"{what}: orientation not isotropic (KS p = {p:.1e})")
        rho = stats.spearmanr(np.abs(e), ph)[0]
        c.check(abs(rho) * np.sqrt(e.size) < 6.5, f"{what}: modulus and orientation are correlated")


@case(PID, q=200, t=4000, backends=("np", "strict", "np", "np"))
def gaussian(c):
    import glass

    r = c.r
    big = int(r.choice([0, 3000, 3000, 30000]))
    counts, sigma, full = populations(r, float(r.choice([0.3, 1.0, 3.0])), big)
    rng = RecRNG(int(r.integers(1 << 30)))
    e = glass.ellipticity_gaussian(c.a(counts) if np.ndim(counts) else int(counts), c.a(sigma), rng=rng)
    c.is_backend(e, "ellipticities")
    e = c.n(e)
    N, S = np.broadcast_to(counts, full), np.broadcast_to(sigma, full)
    c.check(e.shape == (int(N.sum()),) and e.dtype.kind == "c", f"shape {e.shape} instead of ({N.sum()},)")
    c.check(np.all(np.abs(e) <= 1), "modulus above one", e=e[np.abs(e) > 1][:2])
    at = 0
    for k in np.ndindex(full):
        x = e[at : at + int(N[k])]
        at += int(N[k])
        if x.size >= 50:
            s = S[k]
            uniform_fit(c, rayleigh(s)(np.abs(x)), f"population {k} does not follow its truncated Gaussian", sigma=s)
            isotropic(c, x, f"population {k}")
    c.check(np.unique(e).size == e.size, "ellipticities are repeated")
    c.event("ellipticities", e.size)
    c.key(c.bk, np.shape(counts), np.shape(sigma), big)


@case(PID, q=200, t=4000, backends=("np", "strict", "np", "np"))
def intnorm(c):
    import glass

    r = c.r
    big = int(r.choice([0, 3000]))
    counts, sigma, full = populations(r, 0.69, big)
    if r.random() < 0.2:
        sigma = sigma * 0
    rng = RecRNG(int(r.integers(1 << 30)))
    e = glass.ellipticity_intnorm(c.a(counts) if np.ndim(counts) else int(counts), c.a(sigma), rng=rng)
    c.is_backend(e, "ellipticities")
    e = c.n(e)
    N, S = np.broadcast_to(counts, full), np.broadcast_to(sigma, full)
    c.check(e.shape == (int(N.sum()),) and e.dtype.kind == "c", f"shape {e.shape} instead of ({N.sum()},)")
    c.check(np.all(np.abs(e) <= 1), "modulus above one")
    at = 0
    for k in np.ndindex(full):
        x = e[at : at + int(N[k])]
        at += int(N[k])
        s = S[k]
        if s == 0:
            c.check(np.all(x == 0), "zero width, but non-zero ellipticity")
            continue
        if x.size >= 50:
            # intrinsic normal: |eta| = 2 artanh |eps| is Rayleigh
            se = s * np.sqrt((8 + 5 * s**2) / (2 - 4 * s**2))
            p = stats.kstest(np.abs(x), lambda t: -np.expm1(-((2 * np.arctanh(np.minimum(t, 1 - 1e-16))) ** 2) / 2 / se**2)).pvalue
            c.event("ks_tests")
            c.check(p > P or s > 0.66, f"population {k} is not intrinsic-normal (KS p = {p:.1e})", sigma=s)
            sd = np.sqrt(np.mean(np.abs(x) ** 2) / 2)
            # the standard deviation is sigma to 0.4 %
            err = np.std(np.abs(x) ** 2) / np.sqrt(x.size) / (4 * s)
            c.check(abs(sd - s) < 0.005 * s + 7 * err, "per-component standard deviation", sd=sd, sigma=s)
            isotropic(c, x, f"population {k}")
    nz = e[e != 0]
    c.check(np.unique(nz).size == nz.size, "ellipticities are repeated")
    c.event("ellipticities", e.size)
    c.key(c.bk, np.shape(counts), np.shape(sigma), big)


@case(PID, q=60, t=600, backends=("np", "strict"))
def refusals(c):
    import glass

    r = c.r
    bad = float(r.choice([-0.01, -1.0, 0.5**0.5, 0.7072, 1.0, 2.0]))
    if r.random() < 0.5:
        s = c.a(bad)
    else:
        v = r.uniform(0.1, 0.5, 4)
        v[int(r.integers(0, 4))] = bad
        s = c.a(v)
    c.raises(ValueError, lambda: glass.ellipticity_intnorm(5, s, rng=np.random.default_rng(0)), f"width {bad}")
    c.key(bad, c.bk, s.shape)


@case(PID, q=60, t=800, backends=("np", "np", "strict", "np"), steps=5_000_000)
def ryden(c):
    """Triaxial populations: size, bounds, isotropy; two-sample comparison with an independent simulation."""
    import glass

    r = c.r
    k = int(r.integers(1, 4))
    mu, sg = r.uniform(-3, -0.7, k), r.uniform(0.1, 1.0, k)
    ga, gs = r.uniform(0.1, 0.6, k), r.uniform(0.05, 0.3, k)
    if r.random() < 0.4:  # values have to be rejected many times over
        mu, sg = r.uniform(-1, 1.5, k), r.uniform(0.5, 1.5, k)
        ga, gs = r.uniform(-1, 2, k), r.uniform(0.5, 4, k)
    if r.random() < 0.3:
        mu, sg = np.float64(mu[0]), np.float64(sg[0])
    kind = int(r.integers(0, 3))
    size = None
    shape = np.broadcast_shapes(np.shape(mu), np.shape(ga))
    if kind == 0:
        shape = size = (int(r.integers(1, 9)),) + shape
    elif kind == 1:
        shape = size = (4000,) + shape
    e = glass.ellipticity_ryden04(c.a(mu), c.a(sg), c.a(ga), c.a(gs), size=size, rng=np.random.default_rng(int(r.integers(1 << 30))))
    c.is_backend(e, "ellipticities")
    e = c.n(e)
    c.check(e.shape == shape, f"shape {e.shape} instead of {shape}")
    c.check(np.all(np.abs(e) <= 1) and np.all(np.isfinite(e)), "modulus above one")
    if kind == 1:
        g = c.gen(5)
        for j in range(k):
            m, s = np.broadcast_to(mu, k)[j], np.broadcast_to(sg, k)[j]
            n = 12000
            eps = stats.truncnorm(-np.inf, (0 - m) / s, loc=m, scale=s).rvs(n, random_state=g)
            gam = stats.truncnorm((0 - ga[j]) / gs[j], (1 - ga[j]) / gs[j], loc=ga[j], scale=gs[j]).rvs(n, random_state=g)
            B = 1 - np.exp(eps)
            v = g.normal(size=(n, 3))
            v /= np.linalg.norm(v, axis=1)[:, None]
            q = silhouette(B, (1 - gam) * B, v[:, 2], np.arctan2(v[:, 1], v[:, 0]))
            p = stats.ks_2samp(np.abs(e[:, j]), (1 - q) / (1 + q)).pvalue
            c.event("ks_tests")
            c.check(p > P, f"population {j} does not follow Ryden (2004) (KS p = {p:.1e})", mu=m, sigma=s, gamma=ga[j], sigma_gamma=gs[j])
            isotropic(c, e[:, j], f"population {j}")
    c.event("ellipticities", e.size)
    c.key(c.bk, kind, shape)


@case(PID, q=80, t=1600, backends=("np", "np", "strict"))
def ryden_history(c):
    """Every element keeps the first admissible values served for its own parameters."""
    import glass

    r = c.r
    full = [(int(r.integers(1, 6)),), (2, 3), (3, 1), (2, 2, 2)][int(r.integers(0, 4)) if r.random() < 0.5 else 0]
    n = int(np.prod(full))

    def pair(a, b):
        """Mean and width, either of which may be broadcast."""
        k = r.random()
        if len(full) > 1 and k < 0.3:  # rows by columns
            x, y = a[: full[0]].reshape((full[0],) + (1,) * (len(full) - 1)), b[: n // full[0]].reshape(full[1:])
        elif len(full) > 1 and k < 0.4:
            x, y = a.reshape(full), b[: full[-1]]
        else:
            x, y = a.reshape(full), b.reshape(full)
        return x, y

    mu_, sg_ = pair(np.round(r.uniform(-3, 1, n), 6), np.round(r.uniform(0.1, 1, n), 6))
    ga_, gs_ = pair(np.round(r.uniform(-1, 2, n), 6), np.round(r.uniform(1.1, 3, n), 6))  # other widths than the first
    mu, sg, ga, gs = (np.broadcast_to(x, full).ravel() for x in (mu_, sg_, ga_, gs_))
    scripts, first = {}, {}
    for what, loc, width, lo, hi in (("eps", mu, sg, -8.0, 0.0), ("gam", ga, gs, 0.0, 1.0)):
        for i in range(n):
            s = []
            for _ in range(int(r.choice([0, 0, 1, 3, 6]))):
                low = lo - 10.0 ** r.uniform(-9, 0)
                high = hi + 10.0 ** r.uniform(-9, 0)
                s.append(float(high if what == "eps" or r.random() < 0.5 else low))
            k = r.random()
            edge = 10.0 ** r.uniform(-5 if r.random() < 0.7 else -10, -1)
            v = hi - edge if k < 0.4 else (edge if k < 0.7 and what == "gam" else lo + (hi - lo) * r.uniform(0.05, 0.95))
            if what == "eps" and r.random() < 0.1:  # almost spheres
                v = -float(r.uniform(8, 300))
            s += [float(v), lo + (hi - lo) * 0.37]
            scripts[(round(float(loc[i]), 9), round(float(width[i]), 9))] = s
            first[what, i] = v
    rng = Scripted(scripts)
    kw = {"size": full} if r.random() < 0.3 else {}
    e = c.n(glass.ellipticity_ryden04(c.a(mu_), c.a(sg_), c.a(ga_), c.a(gs_), rng=rng, **kw))
    c.check(not rng.unknown, "normal drawn with another mean or width", drawn=rng.unknown[:2], expected=list(scripts)[:2])
    c.check(e.shape == full, f"shape {e.shape} instead of {full}")
    e = e.ravel()
    calls = rng.calls("uniform")
    if len(calls) >= 2 and np.all(calls[0][0]["low"] == -1) and np.all(calls[0][0]["high"] == 1) and np.allclose(calls[1][0]["high"], 2 * np.pi):
        B = np.array([-np.expm1(first["eps", i]) for i in range(n)])
        gam = np.array([first["gam", i] for i in range(n)])
        q = silhouette(B, (1 - gam) * B, np.reshape(calls[0][1], n), np.reshape(calls[1][1], n))
        c.close(np.abs(e), (1 - q) / (1 + q), "not the first admissible shape of the element's own draws", rtol=0, atol=1e-9, eps=[first["eps", i] for i in range(n)], gam=gam)
        c.event("replays")
    c.key(c.bk, full, c.idx)


@case(PID, q=12, t=200, backends=("np", "strict"))
def ryden_fixed(c):
    """Without scatter, every galaxy is the same ellipsoid, be it a needle."""
    import glass

    r = c.r
    mu, ga = -float(10.0 ** r.uniform(-8, 1)), float(r.choice([0.0, 1.0, r.uniform(0.05, 0.95)]))
    e = glass.ellipticity_ryden04(*(c.a(np.asarray(x)) for x in (mu, 0.0, ga, 0.0)), size=(4000,), rng=np.random.default_rng(int(r.integers(1 << 30))))
    e = c.n(e)
    g = c.gen(5)
    v = g.normal(size=(20000, 3))
    v /= np.linalg.norm(v, axis=1)[:, None]
    B = np.full(20000, -np.expm1(mu))
    q = silhouette(B, (1 - ga) * B, v[:, 2], np.arctan2(v[:, 1], v[:, 0]))
    m = np.abs(e)
    pv = stats.ks_2samp((1 - m) / (1 + m), q).pvalue
    c.check(pv > P, f"galaxies without scatter do not follow their own shape (KS p = {pv:.1e})", mu=mu, gamma=ga)
    isotropic(c, e, "galaxies without scatter")
    c.event("ks_tests")
    c.key(c.bk, round(np.log10(-mu)), ga in (0, 1))


@case(PID, q=4, t=20, backends=("jax",))
def on_jax(c):
    import glass
    import glass.jax as gj

    g = gj.Generator(c.idx)
    e = glass.ellipticity_intnorm(300, c.a(0.3), rng=g)
    c.is_backend(e, "ellipticities")
    c.check(c.n(e).shape == (300,) and np.all(np.abs(c.n(e)) <= 1), "modulus above one or wrong number")
    isotropic(c, c.n(e), "intnorm")
    q = glass.triaxial_axis_ratio(c.a(0.8), c.a(0.4), size=200, rng=g)
    c.check(c.n(q).shape == (200,) and np.all((c.n(q) > 0) & (c.n(q) <= 1)), "axis ratios")
    e = glass.ellipticity_gaussian(200, c.a(0.2), rng=g)
    c.check(c.n(e).shape == (200,) and np.all(np.abs(c.n(e)) <= 1), "modulus above one or wrong number")
    c.key(c.idx)


def ryden_reference(g, n, mu, sg, ga, gs):
    eps = stats.truncnorm(-np.inf, (0 - mu) / sg, loc=mu, scale=sg).rvs(n, random_state=g)
    gam = stats.truncnorm((0 - ga) / gs, (1 - ga) / gs, loc=ga, scale=gs).rvs(n, random_state=g)
    B = 1 - np.exp(eps)
    v = g.normal(size=(n, 3))
    v /= np.linalg.norm(v, axis=1)[:, None]
    q = silhouette(B, (1 - gam) * B, v[:, 2], np.arctan2(v[:, 1], v[:, 0]))
    return (1 - q) / (1 + q)


def rayleigh(s):
    return lambda t: -np.expm1(-(t**2) / 2 / s**2) / -np.expm1(-1 / 2 / s**2)


def intrinsic(s):
    se = s * np.sqrt((8 + 5 * s**2) / (2 - 4 * s**2))
    return lambda t: -np.expm1(-((2 * np.arctanh(np.minimum(t, 1 - 1e-16))) ** 2) / 2 / se**2)


@case(PID, q=6, t=60, backends=("np", "strict"), steps=10_000_000)
def ryden_rare(c):
    """Flattenings that are hardly ever drawn at once."""
    import glass

    r = c.r
    s, sg = float(r.uniform(0.5, 2)), float(r.uniform(0.05, 0.2))
    p = (float(s * r.uniform(2, 2.9)), s, 0.222, 0.056) if c.idx % 2 else (-1.85, 0.89, float(r.choice([-2.5 * sg, 1 + 2.5 * sg])), sg)
    e = c.n(glass.ellipticity_ryden04(*(c.a(np.asarray(x)) for x in p), size=(600,), rng=np.random.default_rng(int(r.integers(1 << 30)))))
    c.check(e.shape == (600,) and np.all(np.abs(e) <= 1), "shape or modulus", p=p)
    g = c.gen(5)
    n = 20000
    mu, sd, ga, sg = p
    # truncated normal variates by inversion
    eps = mu + sd * stats.norm.ppf(g.random(n) * stats.norm.cdf(-mu / sd))
    lo, hi = stats.norm.cdf(-ga / sg), stats.norm.cdf((1 - ga) / sg)
    gam = ga + sg * stats.norm.ppf(lo + g.random(n) * (hi - lo)) if ga < 1 else ga - sg * stats.norm.ppf(stats.norm.cdf((ga - 1) / sg) + g.random(n) * (stats.norm.cdf(ga / sg) - stats.norm.cdf((ga - 1) / sg)))
    v = g.normal(size=(n, 3))
    v /= np.linalg.norm(v, axis=1)[:, None]
    B = -np.expm1(eps)
    q = silhouette(B, (1 - gam) * B, v[:, 2], np.arctan2(v[:, 1], v[:, 0]))
    m = np.abs(e)
    pv = stats.ks_2samp((1 - m) / (1 + m), q).pvalue
    c.check(pv > P, f"rarely drawn flattenings do not follow their distribution (KS p = {pv:.1e})", p=p)
    c.event("ks_tests")
    c.key(c.bk, c.idx % 2)


@case(PID, q=3, t=60, backends=("np", "np", "strict"), steps=10_000_000)
def large(c):
    """Hundreds of thousands of ellipticities, next to a population of very different width."""
    import glass

    r = c.r
    rng = np.random.default_rng(int(r.integers(1 << 30)))
    s = float(r.uniform(0.3, 0.7) if r.random() < 0.3 else r.uniform(0.7, 3))
    n = 300_000
    kind = c.idx % 3
    if kind == 0:
        e = c.n(glass.ellipticity_gaussian(c.a(np.array([20, n, 20])), c.a(np.array([0.01, s, 4.0])), rng=rng))[20:-20]
        cdf = rayleigh(s)
    elif kind == 1:
        s = min(s, float(r.uniform(0.3, 0.6)))
        e = c.n(glass.ellipticity_intnorm(c.a(np.array([20, n, 20])), c.a(np.array([0.01, s, 0.69])), rng=rng))[20:-20]
        cdf = intrinsic(s)
    else:
        p = (-1.85, 0.89, 0.222, 0.056)
        e = c.n(glass.ellipticity_ryden04(*(c.a(np.asarray(x)) for x in p), size=(100_000,), rng=rng))
        pv = stats.ks_2samp(np.abs(e), ryden_reference(c.gen(5), 200_000, *p)).pvalue
        c.check(pv > P, f"large sample does not follow Ryden (2004) (KS p = {pv:.1e})")
        cdf = None
    c.check(np.all(np.abs(e) <= 1), f"{np.count_nonzero(~(np.abs(e) <= 1))} of {e.size} ellipticities above one", worst=float(np.max(np.abs(e))), kind=kind, sigma=s)
    if cdf:
        uniform_fit(c, cdf(np.abs(e)), "large sample does not follow its distribution", sigma=s, kind=kind)
    isotropic(c, e, "large sample")
    c.event("ellipticities", e.size)
    c.key(c.bk, kind)


@case(PID, q=40, t=400, backends=("np", "np", "np", "strict"), steps=20_000_000)
def few_beyond(c):
    """Of many ellipticities, only a handful is drawn beyond one at first."""
    import glass

    r = c.r
    n = int(10 ** r.uniform(1, 5))
    few = float(r.uniform(0.3, 4))
    s = float(1 / np.sqrt(2 * np.log(n / few))) if n > 2 * few else 0.8
    for _ in range(3):
        rng = RecRNG(int(r.integers(1 << 30)))
        e = c.n(glass.ellipticity_gaussian(c.a(np.array([n, 3])), c.a(np.array([s, 0.2])), rng=rng))
        c.check(e.shape == (n + 3,), f"{e.size} ellipticities instead of {n + 3}")
        c.check(np.all(np.abs(e) <= 1), "ellipticity above one", worst=float(np.max(np.abs(e))), sigma=s, n=n)
        c.event("ellipticities", e.size)
    c.key(c.bk, n, round(s, 2))


@case(PID, q=4, t=60, backends=("np", "strict", "np", "np"), steps=20_000_000)
def small(c):
    """Thousands of calls for a few ellipticities each together follow the distributions."""
    import glass

    r = c.r
    rng = np.random.default_rng(int(r.integers(1 << 30)))
    s = float(r.uniform(0.3, 0.6))
    p = (-1.85, 0.89, 0.222, 0.056)
    pa = [c.a(np.asarray(x)) for x in p]
    out = [[], [], [], []]
    for _ in range(700):
        out[0].append(c.n(glass.ellipticity_gaussian(3, c.a(np.asarray(s)), rng=rng)))
        out[1].append(c.n(glass.ellipticity_intnorm(c.a(np.array([2, 1])), c.a(np.asarray(s)), rng=rng)))
        out[2].append(c.n(glass.ellipticity_ryden04(*pa, size=(3,), rng=rng)))
        out[3].append(c.n(glass.triaxial_axis_ratio(c.a(np.asarray(0.8)), c.a(np.asarray(0.4)), size=3, rng=rng)))
    g, i, y, q = (np.stack(x) for x in out)
    v = c.gen(7).normal(size=(20000, 3))
    v /= np.linalg.norm(v, axis=1)[:, None]
    ref = silhouette(np.full(20000, 0.8), np.full(20000, 0.4), v[:, 2], np.arctan2(v[:, 1], v[:, 0]))
    for x, what, test in (
        (g, "Gaussian", lambda t: stats.kstest(t, rayleigh(s))), (i, "intrinsic-normal", lambda t: stats.kstest(t, intrinsic(s))),
        (y, "Ryden", lambda t: stats.ks_2samp(t, ryden_reference(c.gen(5), 8000, *p))), (q, "axis ratio", lambda t: stats.ks_2samp(t, ref)),
    ):
        for j in range(3):
            pv = test(np.abs(x[:, j])).pvalue
            c.check(pv > P, f"{what}: place {j} of many small samples does not follow the distribution (KS p = {pv:.1e})", sigma=s)
            c.event("ks_tests")
            if x is not q:
                isotropic(c, x[:, j], f"{what}: place {j} of many small samples")
        c.check(abs(np.corrcoef(np.abs(x[:, 0]), np.abs(x[:, 1]))[0, 1]) * np.sqrt(len(x)) < 6.5, f"{what}: values of one call are correlated")
        if x is not q:
            d = (np.angle(x[:, 1]) - np.angle(x[:, 0])) / (2 * np.pi) % 1
            c.check(stats.kstest(d, "uniform").pvalue > P, f"{what}: orientations of one call are correlated")
    c.key(c.bk, c.idx)
