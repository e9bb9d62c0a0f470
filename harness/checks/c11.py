"""C11: point positions are uniform and independently random."""

import numpy as np
from scipy import stats

from ..core import case
from ..fits import uniform_fit
from ..rngs import CountsRNG, RecRNG
from .c10 import AREA

PID = "C11"
P = 1e-9


def ks_uniform(c, u, what):
    if u.size < 8:
        return
    uniform_fit(c, u, f"{what} is not uniform", mean=float(u.mean()))


@case(PID, q=150, t=3000, backends=("np", "np", "strict", "np"))
def uniform(c):
    import glass

    r = c.r
    dims = tuple(int(r.integers(1, 4)) for _ in range(int(r.integers(0, 3))))
    mean = r.choice([0.0, 0.5, 30.0, 3000.0], size=dims)
    ngal = mean / AREA
    rng = RecRNG(int(r.integers(1 << 30)))
    if c.bk == "np" and not dims and r.random() < 0.5:
        gen = glass.uniform_positions(float(ngal), rng=rng, xp=np)
    else:
        gen = glass.uniform_positions(c.a(ngal), rng=rng)
    out = list(gen)
    order = list(np.ndindex(dims))
    c.check(len(out) == len(order), f"{len(out)} results for {len(order)} populations")
    (kw, drawn) = rng.calls("poisson")[0]
    c.close(np.broadcast_to(kw["lam"], dims), ngal * AREA, "mean number of positions", rtol=1e-12)
    drawn = np.asarray(drawn)
    for k, (lon, lat, cnt) in zip(order, out):
        c.is_backend(lon, "longitudes")
        lon, lat, cnt = c.n(lon), c.n(lat), np.asarray(c.n(cnt))
        m = int(drawn[k])
        c.check(lon.shape == (m,) and lat.shape == (m,), f"{lon.size} positions, {m} drawn")
        want = np.zeros(dims, dtype=int)
        want[k] = m
        c.check(cnt.shape == dims and np.array_equal(cnt, want), "count not in the population's own slot", count=cnt, population=k)
        c.check(np.all((lon >= -180) & (lon <= 180)) and np.all(np.abs(lat) <= 90), "position out of range")
        ks_uniform(c, (lon + 180) / 360, "longitude")
        ks_uniform(c, (np.sin(np.radians(lat)) + 1) / 2, "sine of latitude")
        if m > 500:
            rho = np.corrcoef(lon, lat)[0, 1]
            c.check(abs(rho) * np.sqrt(m) < 6.5, "longitude and latitude are correlated", rho=rho)
        c.event("positions", m)
    # populations do not share draws
    for a in range(len(out)):
        for b in range(a):
            x, y = c.n(out[a][0]), c.n(out[b][0])
            m = min(x.size, y.size)
            if m:
                c.check(np.intersect1d(x, y).size == 0, "two populations share longitudes")
    c.key(c.bk, dims, tuple(np.ravel(mean)))


@case(PID, q=10, t=100)
def uniform_counts(c):
    """Counts are Poisson: mean and variance over many draws."""
    import glass

    mean = float(c.r.choice([3.0, 50.0, 400.0]))
    ngal = np.full(600, mean / AREA)
    rng = np.random.default_rng(int(c.r.integers(1 << 30)))
    n = np.array([int(cnt.sum()) for _, _, cnt in glass.uniform_positions(ngal, rng=rng)])
    z = (n.mean() - mean) / np.sqrt(mean / n.size)
    c.check(abs(z) < 7, "mean number of positions", z=z)
    d = ((n - mean) ** 2).sum() / mean
    c.check(stats.chi2.sf(d, n.size) > P and stats.chi2.cdf(d, n.size) > P, "variance of the number of positions is not Poisson", d=d, n=n.size)
    c.key(mean, c.idx)


def pixel_xy(lon, lat, nside, pix):
    """Coordinates in the unit square of each position's pixel (independent inversion of the HEALPix projection)."""
    import healpy

    z = np.sin(np.radians(lat))
    phi = np.radians(lon) % (2 * np.pi)
    za = np.abs(z)
    tt = phi * 2 / np.pi
    x, y, f = healpy.pix2xyf(nside, pix)
    # projection plane coordinates: xs in units of pi/4, ys likewise
    xs = np.empty_like(z)
    ys = np.empty_like(z)
    eq = za <= 2 / 3
    xs[eq] = phi[eq] * 4 / np.pi
    ys[eq] = 1.5 * z[eq]
    pol = ~eq
    sig = np.sqrt(3 * (1 - za[pol]))
    q = np.floor(tt[pol])
    ft = tt[pol] - q
    xs[pol] = 2 * q + 1 + (2 * ft - 1) * sig
    ys[pol] = np.sign(z[pol]) * (2 - sig)
    # face geometry: centre of face f in the projection plane
    fr = f // 4
    cx = np.where(fr == 1, 2 * (f % 4), 2 * (f % 4) + 1).astype(float)
    cy = (1.0 - fr).astype(float)
    dx = (xs - cx + 4) % 8 - 4
    dy = ys - cy
    u = (dx + dy + 1) / 2 * nside  # north-east axis
    v = (dy - dx + 1) / 2 * nside
    return u - x, v - y


@case(PID, q=60, t=1200, backends=("np", "np", "strict"), steps=20_000_000)
def inside_pixels(c):
    """Uniform inside every pixel, offsets never reused between pixels, batches and populations."""
    import glass
    import healpy

    r = c.r
    nside = int(r.choice([1, 2, 4, 8, 16]))
    npix = 12 * nside**2
    dims = [(), (2,), (2, 2)][int(r.integers(0, 3))]
    tot = 4000
    g = c.gen(1)
    rng = CountsRNG(lambda k, lam: g.multinomial(tot // (int(np.prod(dims)) or 1), np.full(npix, 1 / npix)), seed=int(r.integers(1 << 30)))
    batch = int(r.choice([37, 400, 10**6]))
    us, vs = [], []
    offs = []
    for lon, lat, cnt in glass.positions_from_delta(c.a(np.full(dims, 1e-8)), c.a(np.zeros(npix)), batch=batch, rng=rng):
        lon, lat = c.n(lon), c.n(lat)
        pix = healpy.ang2pix(nside, lon, lat, lonlat=True)
        u, v = pixel_xy(lon, lat, nside, pix)
        us.append(u)
        vs.append(v)
    u, v = np.concatenate(us), np.concatenate(vs)
    c.check(np.all((u > -1e-6) & (u < 1 + 1e-6) & (v > -1e-6) & (v < 1 + 1e-6)), "position outside of its pixel", nside=nside)
    ks_uniform(c, np.clip(u, 0, 1), "position within the pixel (1st axis)")
    ks_uniform(c, np.clip(v, 0, 1), "position within the pixel (2nd axis)")
    rho = np.corrcoef(u, v)[0, 1]
    c.check(abs(rho) * np.sqrt(u.size) < 6.5, "offsets of the two axes are correlated", rho=rho)
    # offsets reused: pairs of objects with the same (u, v)
    key = np.round(u, 7) * 1e8 + np.round(v, 7)
    dup = u.size - np.unique(key).size
    c.check(dup <= 3, f"{dup} of {u.size} objects reuse the same offsets within the pixel", nside=nside, dims=dims, batch=batch)
    # serial correlation of neighbouring draws
    if u.size > 100:
        s = np.corrcoef(u[:-1], u[1:])[0, 1]
        c.check(abs(s) * np.sqrt(u.size) < 6.5, "offsets of neighbouring objects are correlated", s=s)
    c.event("offsets", u.size)
    c.key(c.bk, nside, dims, batch)


@case(PID, q=1, t=8)
def thousands_of_populations(c):
    """Thousands of populations drawn by one call, all in one pixel: none repeats another's offsets."""
    import glass

    npop = 2500 if c.tier == "quick" else 20000
    pix = int(c.r.integers(0, 12))
    hot = np.zeros(12, dtype=np.int64)
    hot[pix] = 2
    rng = CountsRNG(lambda k, lam: hot.copy(), seed=int(c.r.integers(1 << 30)))
    us = []
    for lon, lat, cnt in glass.positions_from_delta(np.full(npop, 1e-8), np.zeros(12), rng=rng):
        us.append(np.stack([lon, lat], -1))
    u = np.concatenate(us)
    c.check(u.shape == (2 * npop, 2), f"{u.shape} positions of {npop} populations")
    dup = u.shape[0] - np.unique(u, axis=0).shape[0]
    # collisions of true doubles in two coordinates do not happen; a repeated seed repeats them exactly
    c.check(dup == 0, f"{dup} of {u.shape[0]} positions repeat another population's", npop=npop)
    c.event("positions", u.shape[0])
    c.key(npop, pix)


@case(PID, q=60, t=1000, backends=("np", "strict", "np"))
def seeds(c):
    """Other seeds give other offsets; equal generator states equal ones; a generator is advanced."""
    import glass

    r = c.r
    nside = int(r.choice([1, 4]))
    npix = 12 * nside**2
    dims = [(), (2,)][int(r.integers(0, 2))]

    def run(rng):
        return np.concatenate([c.n(lon) for lon, lat, cnt in glass.positions_from_delta(c.a(np.full(dims, 30 / AREA)), c.a(np.zeros(npix)), rng=rng)])

    counts = c.gen(2).integers(0, 3, npix)
    mk = lambda s: CountsRNG(lambda k, lam: counts.copy(), seed=s)
    s = int(r.integers(1 << 30))
    a, b, d = run(mk(s)), run(mk(s)), run(mk(s + 1))
    c.same(a, b, "equal generator states give different positions")
    if a.size:
        c.check(np.mean(a == d) < 0.5, "another seed gives the same offsets within pixels", frac=float(np.mean(a == d)))
    g = mk(s)
    x, y = run(g), run(g)
    if x.size:
        c.check(np.mean(x == y) < 0.5, "two calls with one generator reuse the same offsets")
    u1 = np.concatenate([c.n(o[0]) for o in glass.uniform_positions(c.a(np.full(3, 30 / AREA)), rng=np.random.default_rng(s))])
    u2 = np.concatenate([c.n(o[0]) for o in glass.uniform_positions(c.a(np.full(3, 30 / AREA)), rng=np.random.default_rng(s + 1))])
    c.check(u1.shape != u2.shape or not np.any(u1 == u2), "another seed gives the same uniform positions")
    c.key(nside, dims, s)


@case(PID, q=24, t=400, backends=("np", "strict", "np", "strict", "np", "jax"))
def default_generator(c):
    """Without a generator given, populations and batches do not share draws either."""
    import glass

    r = c.r
    k = int(r.integers(2, 4))
    if c.bk == "jax" and c.idx > 12:
        return
    kw = [{}, {"rng": None}][int(r.integers(0, 2))]
    ngal = c.a(np.full(k, 300 / AREA))
    lons, lats = [], []
    for lon, lat, _ in glass.uniform_positions(ngal, **kw):
        lons.append(c.n(lon))
        lats.append(c.n(lat))
    shared(c, lons, "longitudes of uniform positions")
    shared(c, lats, "latitudes of uniform positions")
    if c.bk == "jax":
        return
    nside = int(r.choice([1, 2]))
    batch = int(r.choice([5, 1000]))
    us = []
    for lon, lat, _ in glass.positions_from_delta(ngal, c.a(np.zeros(12 * nside**2)), batch=batch, **kw):
        lon, lat = c.n(lon), c.n(lat)
        import healpy

        u, v = pixel_xy(lon, lat, nside, healpy.ang2pix(nside, lon, lat, lonlat=True))
        us.append(np.round(u, 7) * 1e8 + np.round(v, 7))
    a = np.concatenate(us) if us else np.empty(0)
    c.check(a.size - np.unique(a).size <= 2, f"{a.size - np.unique(a).size} of {a.size} offsets within pixels are used again", batch=batch)
    c.key(c.bk, k, batch, c.idx)


def shared(c, xs, what):
    for i in range(len(xs)):
        for j in range(i):
            c.check(np.intersect1d(xs[i], xs[j]).size <= 3, f"two populations share {what}", n=(xs[i].size, xs[j].size))
            c.event("population_pairs")


@case(PID, q=2, t=10, backends=("jax",))
def uniform_jax(c):
    import glass.jax as gj
    import glass

    out = list(glass.uniform_positions(c.a(np.array([300 / AREA, 0.0])), rng=gj.Generator(c.idx)))
    c.check(len(out) == 2, "number of populations")
    lon, lat, cnt = (c.n(v) for v in out[0])
    c.check(cnt[0] == lon.size and cnt[1] == 0, "counts")
    ks_uniform(c, (lon + 180) / 360, "longitude")
    ks_uniform(c, (np.sin(np.radians(lat)) + 1) / 2, "sine of latitude")
    c.key(c.idx)


def uniform_in_square(c, x, y, what):
    """Finer than the marginal tests: counts on an 8 x 8 grid of the unit square."""
    h = np.histogram2d(x, y, bins=8, range=[[0, 1], [0, 1]])[0]
    e = x.size / 64
    chi = ((h - e) ** 2 / e).sum()
    c.event("chi2_tests")
    c.check(stats.chi2.sf(chi, 63) > P, f"{what}: joint distribution is not uniform", chi2=chi, n=x.size)


@case(PID, q=2, t=40)
def large(c):
    """Millions of positions: small preferences show up as well."""
    import glass
    import healpy

    n = 1_500_000
    seed = int(c.r.integers(1 << 30))
    ((lon, lat, _),) = glass.uniform_positions(n / AREA, rng=np.random.default_rng(seed), xp=np)
    u, v = (lon + 180) / 360, (np.sin(np.radians(lat)) + 1) / 2
    ks_uniform(c, u, "longitude")
    ks_uniform(c, v, "sine of latitude")
    uniform_in_square(c, u, v, "positions on the sphere")
    for x, what in ((u, "longitude"), (v, "sine of latitude")):
        rho = np.corrcoef(x[1:], x[:-1])[0, 1]
        c.check(abs(rho) * np.sqrt(x.size) < 6.5, f"{what}: positions follow the one before", correlation=rho)
        # random numbers are not as even as a grid, either
        d = np.abs(np.sort(x) - (np.arange(x.size) + 0.5) / x.size).max()
        c.check(d * np.sqrt(x.size) > 0.22, f"{what}: positions are too even for random ones", distance=d, n=x.size)
    many = 12_000_000
    ((a, b, k),) = glass.uniform_positions(many / AREA, rng=np.random.default_rng(seed + 2), xp=np)
    for x, what in ((a, "longitude"), (b, "latitude")):
        for end in (x.min(), x.max()):
            c.check(np.count_nonzero(x == end) <= 2, f"{what} piles up at {end}", n=np.count_nonzero(x == end))
    c.event("positions", k)
    # the expected number of positions beyond the outermost is one
    for x, what in ((u, "longitude"), (v, "sine of latitude")):
        c.check(x.min() * x.size < 21 and (1 - x.max()) * x.size < 21, f"no positions at the ends of the {what}", low=x.min(), high=1 - x.max())
    nside = 2
    pos = list(glass.positions_from_delta(np.array(n / AREA), np.zeros(12 * nside**2), rng=np.random.default_rng(seed + 1), batch=200_000))
    lon, lat = (np.concatenate([p[i] for p in pos]) for i in (0, 1))
    x, y = pixel_xy(lon, lat, nside, healpy.ang2pix(nside, lon, lat, lonlat=True))
    ks_uniform(c, np.clip(x, 0, 1), "position within the pixel (1st axis)")
    ks_uniform(c, np.clip(y, 0, 1), "position within the pixel (2nd axis)")
    uniform_in_square(c, x, y, "positions within pixels")
    c.event("positions", u.size + x.size)
    c.key(c.idx)


@case(PID, q=3, t=40, backends=("np", "strict", "np"))
def small(c):
    """Thousands of calls for a few positions each are together uniform, too."""
    import glass
    import healpy

    rng = np.random.default_rng(int(c.r.integers(1 << 30)))
    lons, lats, us, vs = [], [], [], []
    for _ in range(1500):
        for lon, lat, _ in glass.uniform_positions(c.a(np.full(2, 1.5 / AREA)), rng=rng):
            lons.append(c.n(lon))
            lats.append(c.n(lat))
    for _ in range(1000):
        for lon, lat, _ in glass.positions_from_delta(c.a(np.array(2.5 / AREA)), c.a(np.zeros(12)), rng=rng):
            us.append(c.n(lon))
            vs.append(c.n(lat))
    lon, lat = np.concatenate(us), np.concatenate(vs)
    x, y = pixel_xy(lon, lat, 1, healpy.ang2pix(1, lon, lat, lonlat=True))
    ks_uniform(c, (np.concatenate(lons) + 180) / 360, "longitude, pooled over small calls")
    ks_uniform(c, (np.sin(np.radians(np.concatenate(lats))) + 1) / 2, "sine of latitude, pooled over small calls")
    ks_uniform(c, np.clip(x, 0, 1), "position within the pixel (1st axis), pooled over small calls")
    ks_uniform(c, np.clip(y, 0, 1), "position within the pixel (2nd axis), pooled over small calls")
    c.event("calls", 2500)
    c.key(c.bk, c.idx)
