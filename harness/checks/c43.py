"""C43: object-by-object results do not depend on the company.

Every entry processes N objects at once.  The same objects are then processed in
random pieces, in another order and one by one, and every object must get the
same result each time.
"""

import numpy as np

from ..core import case, to_np
from ..cosmo import Cosmo

PID = "C43"

# entry: (arguments as (array, object axis), function of converted arrays -> outputs, object axes of the outputs)
TABLE = {}


def entry(cost=1, backends=("np", "strict", "jax")):
    def deco(fn):
        TABLE[fn.__name__] = (fn, cost, backends)
        return fn

    return deco


def scales(r, n, top=8):
    """One scale per object: all alike or of very different size."""
    return 10.0 ** r.uniform(-top, top, n) if r.random() < 0.6 else np.ones(n)


def sky(r, n):
    return r.uniform(-180, 180, n), np.degrees(np.arcsin(r.uniform(-1, 1, n)))


@entry()
def displace(c, r, n):
    import glass

    lon, lat = sky(r, n)
    al = 10.0 ** r.uniform(-6, 0.4, n) * np.exp(2j * np.pi * r.random(n))
    return [(lon, 0), (lat, 0), (al, 0)], glass.displace, (0, 0)


@entry()
def displace_two_rows(c, r, n):
    import glass

    lon, lat = sky(r, n)
    return [(lon, 0), (lat, 0), (r.normal(size=(2, n)) * 0.1, 1)], glass.displace, (0, 0)


@entry()
def deflect(c, r, n):
    import glass

    lon, lat = sky(r, n)
    al = 10.0 ** r.uniform(-6, 0.4, n) * np.exp(2j * np.pi * r.random(n))
    return [(lon, 0), (lat, 0), (al, 0)], glass.deflect, (0, 0)


@entry(backends=("np", "strict"))
def resampled_moduli(c, r, n):
    """Without a shear variance, resampling keeps every modulus."""
    import glass

    eps = r.random(n) * np.exp(2j * np.pi * r.random(n))
    v = None if r.random() < 0.5 else 0.0

    def fn(e):
        g = np.random.default_rng(1)
        return c.xp.abs(glass.resample_shapes(e, vargamma=v, rng=g))

    return [(eps, 0)], fn, (0,)


@entry()
def displacement(c, r, n):
    import glass

    (a, b), (d, e) = sky(r, n), sky(r, n)
    # close pairs among distant ones
    close = r.random(n) < 0.5
    sep = 10.0 ** r.uniform(-6, -1, (2, n))
    d, e = np.where(close, a + sep[0], d), np.where(close, np.clip(b + sep[1], -90, 90), e)
    return [(a, 0), (b, 0), (d, 0), (e, 0)], glass.displacement, (0,)


@entry()
def galaxy_shear(c, r, n):
    import glass

    nside = int(r.choice([1, 2, 4, 8]))
    lon, lat = sky(r, n)
    eps = 0.5 * r.random(n) * np.exp(2j * np.pi * r.random(n))
    maps = [c.a(0.1 * r.normal(size=12 * nside**2)) for _ in range(3)]
    red = bool(r.random() < 0.5)
    return [(lon, 0), (lat, 0), (eps, 0)], lambda x, y, e: glass.galaxy_shear(x, y, e, *maps, reduced_shear=red), (0,)


@entry()
def linear_bias(c, r, n):
    import glass

    return [(r.uniform(-0.99, 4, n) * scales(r, n), 0), (r.uniform(0.3, 3, n), 0)], glass.linear_bias, (0,)


@entry()
def loglinear_bias(c, r, n):
    import glass

    x = np.where(r.random(n) < 0.5, 10.0 ** r.uniform(-9, 3, n) - 1, 10.0 ** r.uniform(-14, -1, n) * r.choice([-1, 1], n))
    return [(x, 0), (r.uniform(0.3, 3, n), 0)], glass.loglinear_bias, (0,)


@entry()
def lognormal_map(c, r, n):
    import glass.grf

    t, v = glass.grf.Lognormal(float(r.uniform(0.3, 2))), float(r.uniform(0, 1))
    return [(r.normal(size=n), 0)], lambda x: t(x, v), (0,)


@entry()
def squared_map(c, r, n):
    import glass.grf

    t = glass.grf.SquaredNormal(0.8, 1.3)
    return [(r.normal(size=n), 0)], lambda x: t(x, 0.36), (0,)


@entry()
def correlations(c, r, n):
    import glass.grf as grf

    t = [(grf.Lognormal(0.5), grf.Lognormal(2.0)), (grf.Normal(), grf.Lognormal(0.5)), (grf.SquaredNormal(0.8, 1.0), grf.SquaredNormal(0.9, 2.0))][int(r.integers(3))]
    return [(r.uniform(0, 0.3, n), 0)], lambda x: (grf.corr(*t, x), grf.icorr(*t, x), grf.dcorr(*t, x)), (0, 0, 0)


@entry()
def interpolate(c, r, n):
    from glass.arraytools import ndinterp

    q = c.a(np.sort(r.uniform(-3, 3, 9)))
    lead = int(r.integers(1, 3))
    f = c.a(r.normal(size=(lead, 9)))
    return [(r.uniform(-4, 4, n), 0)], lambda x: ndinterp(x, q, f), (1,)


@entry(cost=20)
def interpolate_many_functions(c, r, n):
    from glass.arraytools import ndinterp

    q, x = c.a(np.sort(r.uniform(-3, 3, 6))), c.a(r.uniform(-4, 4, 4))
    return [(r.normal(size=(n, 6)) * scales(r, n)[:, None], 0)], lambda f: ndinterp(x, q, f), (0,)


@entry()
def cumulative(c, r, n):
    from glass.arraytools import cumulative_trapezoid

    x = c.a(np.sort(r.uniform(0, 3, 7)))
    return [(r.normal(size=(n, 7)) * scales(r, n)[:, None], 0)], lambda f: cumulative_trapezoid(f, x), (0,)


@entry()
def integral(c, r, n):
    from glass._array_api_utils import xp_additions as u

    x = c.a(np.sort(r.uniform(0, 3, 7)))
    return [(r.normal(size=(n, 7)) * scales(r, n)[:, None], 0)], lambda f: u.trapezoid(f, x, axis=-1), (0,)


@entry()
def combine_redshifts(c, r, n):
    import glass

    s = glass.linear_windows(c.a(np.linspace(0, 1, 6)), 0.05)
    w = c.a(r.uniform(0, 1, 4))
    return [(r.uniform(0, 1.1, n), 0)], lambda z: glass.combine(z, w, s), (0,)


@entry(cost=3)
def combine_functions(c, r, n):
    import glass

    s = glass.linear_windows(c.a(np.linspace(0, 1, 6)), 0.2)
    z = c.a(np.linspace(0, 1, 8))
    return [(r.uniform(0, 1, (4, n)) * scales(r, n), 1)], lambda w: glass.combine(z, w, s), (0,)


@entry(cost=20)
def restrict_functions(c, r, n):
    import glass

    s = glass.linear_windows(c.a(np.linspace(0, 1, 4)), 0.2)[int(r.integers(2))]
    z = c.a(np.linspace(0, 1, 8))
    return [(r.uniform(0, 1, (n, 8)) * scales(r, n)[:, None], 0)], lambda f: glass.restrict(z, f, s)[1], (0,)


@entry(cost=400, backends=("np", "strict"))
def partition_nnls(c, r, n):
    import glass

    s = glass.linear_windows(c.a(np.linspace(0, 1, 6)), 0.1)
    z = c.a(np.linspace(0, 1, 8))
    return [(r.uniform(0, 1, (n, 8)) * scales(r, n)[:, None], 0)], lambda f: glass.partition(z, f, s), (1,)


@entry(cost=30)
def partition_lstsq(c, r, n):
    import glass

    s = glass.linear_windows(c.a(np.linspace(0, 1, 6)), 0.1)
    z = c.a(np.linspace(0, 1, 8))
    return [(r.uniform(0, 1, (n, 8)) * scales(r, n)[:, None], 0)], lambda f: glass.partition(z, f, s, method="lstsq"), (1,)


@entry(cost=60)
def partition_restrict(c, r, n):
    import glass

    s = glass.linear_windows(c.a(np.linspace(0, 1, 6)), 0.1)
    z = c.a(np.linspace(0, 1, 8))
    return [(r.uniform(0, 1, (n, 8)) * scales(r, n)[:, None], 0)], lambda f: glass.partition(z, f, s, method="restrict"), (1,)


@entry()
def weights(c, r, n):
    import glass

    return [(r.uniform(0.1, 3, (5, n)) * scales(r, n), 1)], glass.position_weights, (1,)


@entry()
def nz_smail(c, r, n):
    import glass

    z = c.a(np.linspace(0, 3, 9))
    return [(r.uniform(0.3, 1, n), 0), (r.uniform(1, 3, n), 0), (r.uniform(1, 2, n), 0)], lambda m, a, b: glass.smail_nz(z, m, a, b), (0,)


@entry()
def nz_gaussian(c, r, n):
    import glass

    z = c.a(np.linspace(0, 3, 9))
    return [(r.uniform(0.3, 1, n), 0), (10.0 ** r.uniform(-0.7, 1, n), 0)], lambda m, s: glass.gaussian_nz(z, m, s), (0,)


@entry(cost=10)
def nz_tomographic(c, r, n):
    import glass

    bins = [(0.0, 0.3), (0.3, 0.9), (0.9, 2.0)]
    return [(r.uniform(0, 2, n), 0), (r.uniform(0, 1, n) * scales(r, n), 0)], lambda z, f: glass.tomo_nz_gausserr(z, f, 0.05, bins), (1,)


@entry()
def shift(c, r, n):
    import glass

    return [(r.uniform(0, 3, n), 0)], glass.lognormal_shift_hilbert2011, (0,)


@entry(backends=("np", "strict"))
def weight_functions(c, r, n):
    import glass

    cosmo = Cosmo(xp=c.xp)
    w = [glass.DistanceWeight, glass.VolumeWeight, glass.DensityWeight][int(r.integers(3))](cosmo)
    return [(r.uniform(0.01, 3, n), 0)], lambda z: w(z), (0,)


@entry()
def pixels(c, r, n):
    import glass.healpix as hp

    nside = int(2 ** r.integers(0, 12))
    lon, lat = sky(r, n)
    return [(lon, 0), (lat, 0)], lambda x, y: hp.ang2pix(nside, x, y, lonlat=True), (0,)


@entry()
def directions(c, r, n):
    import glass.healpix as hp

    lon, lat = sky(r, n)
    return [(lon, 0), (lat, 0)], lambda x, y: hp.ang2vec(x, y, lonlat=True), (0, 0, 0)


@entry(cost=5)
def effective_by_mode(c, r, n):
    import glass

    w = c.a(r.normal(size=(2, 3)))
    return [(r.normal(size=n) * scales(r, n), 0) for _ in range(3)], lambda *cls: glass.effective_cls(list(cls), w), (2,)


@entry(cost=20)
def effective_by_weight(c, r, n):
    import glass

    cls = [c.a(r.normal(size=4)) for _ in range(3)]
    w1 = c.a(r.normal(size=(2, 2)))
    return [(r.normal(size=(2, n)), 1)], lambda w: glass.effective_cls(cls, w1, w), (1,)


@entry(cost=10)
def clipped(c, r, n):
    from glass.algorithm import cov_clip

    m = r.normal(size=(n, 3, 3)) * scales(r, n)[:, None, None]
    return [(m + np.swapaxes(m, 1, 2), 0)], lambda a: cov_clip(a), (0,)


@entry(cost=300, backends=("np", "strict"))
def nearest(c, r, n):
    from glass.algorithm import cov_nearest

    m = np.eye(3) + r.uniform(0, 0.8, (n, 1, 1)) * r.normal(size=(n, 3, 3))
    m = m + np.swapaxes(m, 1, 2)
    d = np.arange(3)
    m[:, d, d] = r.uniform(0.5, 2, (n, 3))
    return [(m * scales(r, n)[:, None, None], 0)], lambda a: cov_nearest(a), (0,)


@entry(cost=10)
def conditional(c, r, n):
    """Iterative sampling by mode."""
    import glass

    rows = []
    for k in range(3):
        x = r.uniform(-0.2, 0.2, (n, 4))
        x[:, 0] = r.uniform(1, 2, n)
        rows.append((x, 0))
    s = scales(r, n)[:, None]
    rows = [(x * s, 0) for x, _ in rows]

    def fn(*rows):
        out = []
        for v in glass.iternorm(list(rows)):
            out.append(c.xp.asarray(v, copy=True))
        return tuple(out)

    return rows, fn, (0, 0, 0)


@entry()
def convergence_planes(c, r, n):
    """Lensing planes pixel by pixel."""
    import glass

    k = int(r.integers(1, 5))
    zs = np.sort(r.uniform(0.1, 2, k)) + 0.01 * np.arange(k)

    def fn(*deltas):
        m = glass.MultiPlaneConvergence(Cosmo(xp=c.xp))
        for d, z in zip(deltas, zs):
            m.add_plane(d, float(z), 0.1)
        return m.kappa, m.delta

    return [(r.normal(size=n), 0) for _ in range(k)], fn, (0, 0)


@entry()
def alignment(c, r, n):
    import glass.galaxies

    cosmo = Cosmo(xp=None)
    cosmo.growth_factor = lambda x: 1 / (1 + x)
    z = float(r.uniform(0.1, 2))
    return [(r.normal(size=n), 0)], lambda d: glass.galaxies._kappa_ia_nla(d, z, 1.3, cosmo), (0,)


NAMES = sorted(TABLE)
# smallest meaningful difference; 0 where objects of any scale have to keep their digits
FLOOR = dict(loglinear_bias=0.0, alignment=0.0, clipped=0.0, nearest=0.0, conditional=0.0, weights=0.0, linear_bias=0.0, integral=0.0, restrict_functions=0.0, interpolate_many_functions=0.0, lognormal_map=1e-15, partition_nnls=0.0, partition_lstsq=0.0, partition_restrict=0.0)


def tuples(out):
    return tuple(to_np(o) for o in out) if isinstance(out, (tuple, list)) else (to_np(out),)


def company(c, name, n, npieces):
    r = c.r
    fn, _, _ = TABLE[name]
    args, f, axes = fn(c, r, n)

    def call(idx):
        return tuples(f(*[c.a(np.ascontiguousarray(np.take(a, idx, axis=ax))) for a, ax in args]))

    whole = call(np.arange(n))
    c.check(len(whole) == len(axes) and all(o.shape[ax] == n for o, ax in zip(whole, axes)), f"{name}: {n} objects, but results of shape {[o.shape for o in whole]}")
    floor = FLOOR.get(name, 1e-13)

    def compare(got, idx, what):
        for o, w, ax in zip(got, whole, axes):
            o, w = np.moveaxis(o, ax, 0), np.moveaxis(np.take(w, idx, axis=ax), ax, 0)
            c.check(o.shape == w.shape, f"{name}: {what}: shape {o.shape}, not {w.shape}")
            if o.dtype.kind not in "fc":
                c.same(o, w, f"{name}: {what}", n=n)
                continue
            with np.errstate(invalid="ignore"):
                d = np.where((o == w) | (np.isnan(o) & np.isnan(w)), 0.0, np.abs(o - w))
            # relative to the largest value of the same object
            own = np.abs(w).reshape(len(w), -1).max(axis=1, initial=0)
            bad = ~(d.reshape(len(w), -1).max(axis=1, initial=0) <= 1e-9 * np.where(np.isfinite(own), own, 0) + floor)
            c.check(not bad.any(), f"{name}: {what}", n=n, objects=np.flatnonzero(bad)[:5], got=o[bad][:2], expected=w[bad][:2])

    cuts = np.unique(np.r_[0, r.integers(0, n + 1, npieces), n])
    pieces = [np.arange(a, b) for a, b in zip(cuts[:-1], cuts[1:])]
    parts = [call(p) for p in pieces]
    compare(tuple(np.concatenate([p[k] for p in parts], axis=ax) for k, ax in enumerate(axes)), np.arange(n), f"all at once differs from {len(pieces)} pieces")
    if c.bk != "jax":
        perm = r.permutation(n)
        compare(call(perm), perm, "depends on the order of the objects")
    for i in r.integers(0, n, 3 if c.bk != "jax" else 1):
        compare(call(np.array([i])), np.array([i]), "an object alone differs from the object in company")
    c.event("objects", n)
    c.event("pieces", len(pieces))
    c.note(entry=name, n=n)
    c.key(name, c.bk, int(np.log2(n)), len(pieces))


@case(PID, q=len(NAMES) * 6, t=len(NAMES) * 200, backends=("np", "strict"), steps=10**9)
def few_objects(c):
    name = NAMES[c.idx // 2 % len(NAMES)]
    if c.bk in TABLE[name][2]:
        company(c, name, int(c.r.integers(1, 60)), int(c.r.integers(1, 5)))


@case(PID, q=len(NAMES) * 2, t=len(NAMES) * 40, backends=("np", "np", "np", "strict"), steps=10**9)
def many_objects(c):
    name = NAMES[c.idx % len(NAMES)]
    cost = TABLE[name][1]
    if c.bk in TABLE[name][2]:
        top = 3e5 / cost
        n = int(top * 10.0 ** c.r.uniform(-0.5 if c.idx // len(NAMES) % 2 else -1.5, 0)) if c.r.random() < 0.7 else int(2.0 ** c.r.integers(7, int(np.log2(top))))
        company(c, name, n, int(c.r.integers(1, 4)))


@case(PID, q=12, t=120, backends=("jax",), steps=10**9)
def on_jax(c):
    names = [n for n in NAMES if "jax" in TABLE[n][2]]
    company(c, names[c.idx * 5 % len(names)], 12, 2)
