"""C10: sampled galaxies conserve counts, positions and populations."""

import numpy as np

from ..core import case
from ..rngs import CountsRNG, RecRNG

PID = "C10"
AREA = 4 * np.pi * (180 * 60 / np.pi) ** 2  # square arcminutes of the sphere


def setup(c, nsides=(1, 2, 4, 8), extra=2, rare=False):
    """Random densities, contrast, bias, visibility with broadcastable leading axes."""
    r = c.r
    nside = int(r.choice(nsides))
    npix = 12 * nside**2
    full = tuple(int(r.integers(1, 4)) for _ in range(int(r.integers(0, extra + 1))))

    def lead():
        k = int(r.integers(0, len(full) + 1))
        s = full[len(full) - k :]
        return tuple(1 if r.random() < 0.3 else v for v in s)

    ls = [lead() for _ in range(4)]
    target = np.broadcast_shapes(*ls) if ls else ()
    delta = r.uniform(-1, 2, size=ls[0] + (npix,))
    if r.random() < 0.5:
        delta = np.maximum(delta, -0.999)
    lo, hi = (-16, 4) if rare else (-9, -5)  # from one object per many skies to crowded pixels
    ngal = 10.0 ** r.uniform(lo, hi, size=ls[1]) if ls[1] else float(10.0 ** r.uniform(lo, hi))
    bias = None if r.random() < 0.4 else (r.uniform(0.2, 3, size=ls[2]) if ls[2] else float(r.uniform(0.2, 3)))
    vis = None if r.random() < 0.4 else np.where(r.random(ls[3] + (npix,)) < 0.3, 0.0, r.random(ls[3] + (npix,)))
    if vis is not None and r.random() < 0.2:  # weights relative to a mean depth
        vis = vis * float(r.choice([3.0, 100.0, 1e-6]))
    shapes = [ls[0], ls[1]] + ([ls[2]] if bias is not None else []) + ([ls[3]] if vis is not None else [])
    return nside, npix, delta, ngal, bias, vis, np.broadcast_shapes(*shapes)


def expected(delta, ngal, bias, vis, dims, npix, model, remove):
    """Poisson means per population, in index order."""
    D = np.broadcast_to(delta, dims + (npix,))
    N = np.broadcast_to(ngal, dims)
    B = None if bias is None else np.broadcast_to(bias, dims)
    V = None if vis is None else np.broadcast_to(vis, dims + (npix,))
    out = []
    for k in np.ndindex(dims):
        n = D[k].copy() if B is None else model(D[k], B[k])
        if remove:
            n = n - n.mean()
        n = (1 + n) * N[k] * AREA / npix
        if V is not None:
            n = n * V[k]
        out.append(np.maximum(n, 0))
    return out


def linear(d, b):
    return b * d


def loglinear(d, b):
    return np.expm1(b * np.log1p(d))


def choose_counts(r, npix, style):
    def choose(call, lam):
        lam = np.asarray(lam)
        n = np.zeros(lam.shape, dtype=np.int64)
        if style == "empty":
            return n
        if style == "one":
            n[int(r.integers(0, npix))] = int(r.integers(1, 40))
        elif style == "sparse":
            n = (r.random(lam.shape) < 0.03) * r.integers(1, 30, lam.shape)
        elif style == "last":
            n[-1] = int(r.integers(1, 9))
        elif style == "heavy":
            n = r.integers(0, 4, lam.shape)
            n[r.integers(0, npix, 2)] = 60
        elif style == "ends":
            n[0], n[-1] = int(r.integers(1, 9)), int(r.integers(1, 9))
        else:
            n = r.integers(0, 4, lam.shape)
        if r.random() < 0.1:
            n = n * 0
        return n.astype(np.int64)

    return choose


def conserve(c, gen, rng, dims, nside, npix, batch):
    """Consume the batches of all populations; every drawn object once, in its pixel and population."""
    import healpy

    order = list(np.ndindex(dims))
    got = np.zeros((len(order), npix), dtype=np.int64)
    sizes = []
    for lon, lat, count in gen:
        c.is_backend(lon, "longitudes")
        c.is_backend(lat, "latitudes")
        lon, lat, cnt = c.n(lon), c.n(lat), np.asarray(c.n(count))
        c.check(lon.shape == lat.shape and lon.ndim == 1, f"shapes {lon.shape}, {lat.shape}")
        c.check(cnt.shape == dims, f"count has shape {cnt.shape} instead of {dims}")
        c.check(int(cnt.sum()) == lon.size, "count does not equal the number of positions", count=cnt, size=lon.size)
        c.check(np.count_nonzero(cnt) <= 1 and (cnt >= 0).all(), "a batch is counted for several populations", count=cnt)
        c.check(np.all(np.isfinite(lon)) and np.all(np.abs(lat) <= 90) and np.all((lon >= -360) & (lon <= 360)), "invalid longitude or latitude")
        pix = healpy.ang2pix(nside, lon, lat, lonlat=True)
        if lon.size:
            k = order.index(tuple(int(v) for v in np.argwhere(cnt)[0])) if dims else 0
            np.add.at(got[k], pix, 1)
        c.check(lon.size <= batch or np.unique(pix).size == 1, f"batch of {lon.size} objects from several pixels exceeds {batch}")
        sizes.append(lon.size)
        c.event("objects", lon.size)
        c.event("batches")
    drawn = [out for m, kw, out in rng.log if m == "poisson"]
    c.check(len(drawn) == len(order), f"{len(drawn)} Poisson draws for {len(order)} populations")
    for k, d in enumerate(drawn):
        d = np.asarray(d)
        c.check(d.shape == (npix,), f"Poisson draw of shape {d.shape}")
        bad = np.flatnonzero(got[k] != d)
        c.check(bad.size == 0, f"population {order[k]}: {got[k][bad[:1]]} objects in pixel {bad[:1]}, {d[bad[:1]]} drawn", batch=batch, nside=nside, drawn=int(d.sum()), yielded=int(got[k].sum()))
    return sizes


@case(PID, q=320, t=12000, backends=("np", "np", "strict", "np"), steps=20_000_000)
def conservation(c):
    import glass

    r = c.r
    nside, npix, delta, ngal, bias, vis, dims = setup(c, rare=c.idx % 3 == 1)
    style = str(r.choice(["empty", "one", "sparse", "last", "heavy", "ends", "dense", "dense"]))
    batch = int(r.choice([1, 2, 3, 7, 50, 59, 60, 61, 997, 1000, 10**6]))
    model = int(r.integers(0, 2))
    delta = np.maximum(delta, -0.999) if model else delta
    remove = bool(r.random() < 0.4)
    rng = CountsRNG(choose_counts(c.gen(1), npix, style), seed=int(r.integers(1 << 30)))
    kw = {}
    if bias is not None:
        kw["bias"] = c.a(bias)
    if vis is not None:
        kw["vis"] = c.a(vis)
    c.note(nside=nside, dims=dims, style=style, batch=batch, remove=remove, model=model)
    gen = glass.positions_from_delta(c.a(ngal), c.a(delta), bias_model=glass.loglinear_bias if model else glass.linear_bias, remove_monopole=remove, batch=batch, rng=rng, **kw)
    sizes = conserve(c, gen, rng, dims, nside, npix, batch)
    # batches are not cut finer than necessary: two neighbouring batches of one population do not fit in one
    lams = [kw_["lam"] for m, kw_, out in rng.log if m == "poisson"]
    want = expected(delta, np.asarray(ngal), bias, vis, dims, npix, loglinear if model else linear, remove)
    for k, (g, w) in enumerate(zip(lams, want)):
        c.close(g, w, f"expected counts of population {k}", rtol=1e-9, atol=1e-12 * float(np.broadcast_to(ngal, dims).ravel()[k]) * AREA / npix, dims=dims)
    if remove and vis is None:
        for k, i in enumerate(np.ndindex(dims)):
            raw = np.asarray(want[k])
            D = np.broadcast_to(delta, dims + (npix,))[i]
            n = D if bias is None else (loglinear if model else linear)(D, np.broadcast_to(bias, dims)[i])
            if (1 + n - n.mean()).min() >= 0:
                c.close(np.asarray(lams[k]).sum(), np.broadcast_to(ngal, dims)[i] * AREA, "full-sky mean is not ngal after removing the monopole", rtol=1e-9)
    c.key(c.bk, nside, dims, style, batch, remove, model, bias is None, vis is None)


@case(PID, q=12, t=200, backends=("np", "strict", "np"), steps=20_000_000)
def large_maps(c):
    """Maps much longer than the internal step, hits on both sides of step boundaries."""
    import glass

    r = c.r
    nside = int(r.choice([16, 32]))
    npix = 12 * nside**2
    where = np.unique(np.clip(np.concatenate([r.integers(0, npix, 30), np.arange(1, npix // 1000 + 1) * 1000 + r.integers(-1, 2, npix // 1000), [0, npix - 1]]), 0, npix - 1))
    n = np.zeros(npix, dtype=np.int64)
    n[where] = r.integers(1, 80, where.size)
    batch = int(r.choice([1, 40, 79, 80, 81, 500, 10**6]))
    rng = CountsRNG(lambda k, lam: n.copy(), seed=c.idx)
    gen = glass.positions_from_delta(c.a(np.float64(1e-7)), c.a(np.zeros(npix)), batch=batch, rng=rng)
    conserve(c, gen, rng, (), nside, npix, batch)
    c.note(nside=nside, batch=batch, total=int(n.sum()))
    c.key(nside, batch, c.bk, int(n.sum()))


@case(PID, q=12, t=200, backends=("np", "np", "strict"), steps=20_000_000)
def many_populations(c):
    """Dozens of populations, each with its own contrast; contrasts of tiny amplitude and mean."""
    import glass

    r = c.r
    npix, nside = 12, 1
    dims = [(11,), (9, 2), (2, 17), (33,), (1, 10), (3, 2, 9)][int(r.integers(0, 6))]
    amp = float(10.0 ** r.uniform(-9, -0.5))
    # each contrast has a monopole and its own shape
    delta = amp * (r.normal(size=(*dims, 1)) + r.uniform(-1, 1, size=(*dims, npix)))
    delta = np.clip(delta, -0.9, None)
    ngal = float(10.0 ** r.uniform(-9, -5)) if r.random() < 0.5 else 10.0 ** r.uniform(-9, -5, size=dims)
    remove = bool(r.random() < 0.6)
    bias = None if r.random() < 0.5 else r.uniform(0.5, 2, size=dims)
    counts = r.integers(0, 4, size=(int(np.prod(dims)), npix))
    rng = CountsRNG(lambda k, lam: counts[k % len(counts)].copy(), seed=int(r.integers(1 << 30)))
    kw = {} if bias is None else {"bias": c.a(bias)}
    batch = int(r.choice([2, 10, 1000]))
    gen = glass.positions_from_delta(c.a(np.asarray(ngal)), c.a(delta), remove_monopole=remove, batch=batch, rng=rng, **kw)
    conserve(c, gen, rng, dims, nside, npix, batch)
    lams = [np.asarray(k["lam"]) for m, k, out in rng.log if m == "poisson"]
    want = expected(delta, np.asarray(ngal), bias, None, dims, npix, linear, remove)
    N = np.broadcast_to(ngal, dims).ravel() * AREA / npix
    for k, (g, w) in enumerate(zip(lams, want)):
        # contrasts, not counts: small ones are resolved as well
        c.close(g / N[k] - 1, w / N[k] - 1, f"expected contrast of population {k}", rtol=1e-6, atol=1e-13, amp=amp, remove=remove)
    c.note(dims=dims, amp=amp, remove=remove)
    c.key(dims, remove, bias is None, c.bk)


@case(PID, q=6, t=60, backends=("np", "strict", "np"), steps=20_000_000)
def crowded(c):
    """A single pixel with more objects than small integers can count."""
    import glass

    r = c.r
    nside = int(r.choice([1, 2, 16]))
    npix = 12 * nside**2
    n = np.zeros(npix, dtype=np.int64)
    n[int(r.integers(0, npix))] = int(r.choice([33_000, 66_000, 130_000, 300_000])) + int(r.integers(0, 500))
    n[r.integers(0, npix, 5)] += r.integers(0, 50, 5)
    batch = int(r.choice([1, 1000, 65536, 100_000, 10**6]))
    rng = CountsRNG(lambda k, lam: n.copy(), seed=c.idx)
    gen = glass.positions_from_delta(c.a(np.float64(1e-4)), c.a(np.zeros(npix)), batch=batch, rng=rng)
    conserve(c, gen, rng, (), nside, npix, batch)
    c.note(nside=nside, batch=batch, total=int(n.sum()))
    c.key(nside, batch, c.bk, int(n.sum()))


@case(PID, q=60, t=1500, backends=("np", "strict"))
def batch_independence(c):
    """Batch size and consumption pattern do not change pixels and populations."""
    import glass
    import healpy

    r = c.r
    nside, npix, delta, ngal, bias, vis, dims = setup(c, nsides=(1, 2, 4))
    seed = int(r.integers(1 << 30))
    scale = 40 / (np.mean(ngal) * AREA)
    ngal = np.asarray(ngal) * scale
    ref = None
    for batch in (10**6, int(r.integers(1, 6)), int(r.integers(6, 60))):
        kw = {}
        if bias is not None:
            kw["bias"] = c.a(bias)
        if vis is not None:
            kw["vis"] = c.a(vis)
        rng = RecRNG(seed)
        gen = glass.positions_from_delta(c.a(ngal), c.a(delta), batch=batch, rng=rng, **kw)
        tot = np.zeros((int(np.prod(dims)) if dims else 1, npix), dtype=int)
        for lon, lat, cnt in gen:
            k = int(np.argmax(np.ravel(c.n(cnt)))) if dims else 0
            np.add.at(tot[k], healpy.ang2pix(nside, c.n(lon), c.n(lat), lonlat=True), 1)
        if ref is None:
            ref = tot
        c.same(tot, ref, "batch size changes pixels or populations", batch=batch, dims=dims)
        c.event("objects", tot.sum())
    c.key(nside, dims, seed)


@case(PID, q=4, t=30, backends=("jax",))
def jax_conservation(c):
    import glass.jax as gj
    import glass
    import healpy

    nside = [1, 2][c.idx % 2]
    npix = 12 * nside**2
    dims = [(), (2,)][c.idx % 2]
    delta = c.r.uniform(-0.9, 1, size=dims + (npix,))
    rng = gj.Generator(c.idx)
    tot = 0
    for lon, lat, cnt in glass.positions_from_delta(c.a(60 / AREA), c.a(delta), batch=7, rng=rng):
        c.is_backend(lon, "longitudes")
        c.check(np.asarray(cnt).sum() == lon.shape[0], "count does not equal the number of positions")
        c.check(np.asarray(cnt).shape == dims, "count shape")
        tot += lon.shape[0]
    c.check(5 < tot < 400, "unlikely number of galaxies", total=tot)
    c.key(c.idx)


@case(PID, q=20, t=200)
def bad_model(c):
    import glass

    c.raises(TypeError, lambda: list(glass.positions_from_delta(1e-8, np.zeros(12), 1.0, bias_model=str(c.r.choice(["linear", "loglinear"])))), "bias model that is not callable")
    calls = []

    def model(d, b):
        calls.append((d.copy(), float(b)))
        return d * 0

    bias = c.r.uniform(1, 2, 3)
    delta = c.r.uniform(-1, 1, (3, 12))
    list(glass.positions_from_delta(1e-9, delta, bias, bias_model=model, rng=np.random.default_rng(c.idx)))
    c.check(len(calls) == 3, "user-defined bias model not called once per population")
    for k, (d, b) in enumerate(calls):
        c.same(d, delta[k], "bias model called with another map")
        c.check(b == bias[k], "bias model called with another bias")
    c.key(c.idx)
