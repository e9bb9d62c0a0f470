"""C15: galaxy shear combines the right map pixel with each ellipticity."""

import numpy as np

from ..core import case

PID = "C15"


def maps(r, nside, kind):
    npix = 12 * nside**2
    # unique values per pixel
    u = (r.permutation(npix) + 0.5) / npix
    kappa = 0.6 * (u - 0.5)
    g1 = 0.4 * ((r.permutation(npix) + 0.5) / npix - 0.5)
    g2 = 0.4 * ((r.permutation(npix) + 0.5) / npix - 0.5)
    if kind == "strong":
        kappa, g1, g2 = kappa * 4, g1 * 4, g2 * 4
    if kind == "zero":
        g1[r.random(npix) < 0.5] = 0
        kappa[r.random(npix) < 0.5] = 0
    return kappa, g1, g2


def catalogue(r, n):
    lon = r.uniform(-180, 180, n)
    lat = np.degrees(np.arcsin(r.uniform(-1, 1, n)))
    k = r.random(n)
    lon = np.where(k < 0.1, lon + 360, np.where(k < 0.15, 180.0, np.where(k < 0.2, -180.0, np.where(k < 0.25, 0.0, lon))))
    m = r.random(n)
    lat = np.where(m < 0.05, 90.0, np.where(m < 0.1, -90.0, np.where(m < 0.15, 0.0, lat)))
    eps = np.sqrt(r.uniform(0, 1, n)) * np.exp(2j * np.pi * r.random(n))
    eps[r.random(n) < 0.05] = 0
    return lon, lat, eps


def border(lon, lat, nside):
    """Positions on a pixel border (to rounding), where the pixel is a matter of convention."""
    import healpy

    p = healpy.ang2pix(nside, lon, lat, lonlat=True)
    out = np.zeros(lon.shape, dtype=bool)
    for dx, dy in ((1e-9, 1.1e-9), (-1e-9, 1.1e-9), (1e-9, -1.1e-9), (-1e-9, -1.1e-9)):
        out |= healpy.ang2pix(nside, lon + dx, np.clip(lat + dy, -90, 90), lonlat=True) != p
    return out


def judge(c, got, lon, lat, eps, kappa, g1, g2, nside, reduced, **wit):
    """Compare all galaxies not on a pixel border; those only need one of the neighbouring pixels."""
    w = want(lon, lat, eps, kappa, g1, g2, nside, reduced)
    got = c.n(got)
    c.check(got.shape == w.shape, f"shape {got.shape} instead of {w.shape}", **wit)
    b = border(lon, lat, nside)
    c.event("on_border", b.sum())
    c.close(got[~b], w[~b], "galaxy shear", rtol=1e-9, atol=1e-11, **wit)
    import healpy

    for k in np.flatnonzero(b)[:60]:
        near = healpy.query_disc(nside, healpy.ang2vec(lon[k], lat[k], lonlat=True), 1e-6, inclusive=True, fact=256)
        gam = g1[near] + 1j * g2[near]
        g = gam / (1 - kappa[near])
        cand = (eps[k] + g) / (1 + np.conj(g) * eps[k]) if reduced else eps[k] + gam
        c.check(np.abs(cand - got[k]).min() < 1e-9 * (1 + abs(got[k])), "shear on a pixel border is none of the neighbouring pixels'", lon=lon[k], lat=lat[k])


def want(lon, lat, eps, kappa, g1, g2, nside, reduced):
    import healpy

    p = healpy.ang2pix(nside, lon, lat, lonlat=True)
    gam = g1[p] + 1j * g2[p]
    if not reduced:
        return eps + gam
    g = gam / (1 - kappa[p])
    return (eps + g) / (1 + np.conj(g) * eps)


@case(PID, q=200, t=4000, backends=("np", "strict", "np", "np"))
def shears(c):
    import glass

    r = c.r
    nside = int(r.choice([1, 2, 4, 8, 16, 64]))
    kind = str(r.choice(["weak", "strong", "zero"]))
    kappa, g1, g2 = maps(r, nside, kind)
    n = int(r.choice([0, 1, 2, 10, 999, 1000, 1001, 2500]))
    lon, lat, eps = catalogue(r, n)
    reduced = bool(r.random() < 0.6)
    kw = {} if reduced and r.random() < 0.5 else dict(reduced_shear=reduced)
    got = glass.galaxy_shear(c.a(lon), c.a(lat), c.a(eps), c.a(kappa), c.a(g1), c.a(g2), **kw)
    c.is_backend(got, "shears")
    judge(c, got, lon, lat, eps, kappa, g1, g2, nside, reduced, n=n, kind=kind)
    c.event("galaxies", n)
    c.note(n=n, nside=nside, reduced=reduced, kind=kind)
    c.key(c.bk, n, nside, reduced, kind)


@case(PID, q=24, t=300, backends=("np", "np", "strict"))
def many(c):
    """Catalogues around multiples of the internal block size, and far beyond."""
    import glass

    r = c.r
    n = [20000, 10000, 10001, 12345, 9999, 19999, 30000, 20001, 34567, 100003][c.idx % 10]
    nside = int(r.choice([4, 32]))
    kappa, g1, g2 = maps(r, nside, "weak")
    lon, lat, eps = catalogue(r, n)
    reduced = bool(c.idx % 2)
    got = c.n(glass.galaxy_shear(c.a(lon), c.a(lat), c.a(eps), c.a(kappa), c.a(g1), c.a(g2), reduced_shear=reduced))
    judge(c, got, lon, lat, eps, kappa, g1, g2, nside, reduced, n=n)
    # the result of a galaxy does not depend on the others or their order
    sub = np.unique(r.integers(0, n, 50))
    part = c.n(glass.galaxy_shear(c.a(lon[sub]), c.a(lat[sub]), c.a(eps[sub]), c.a(kappa), c.a(g1), c.a(g2), reduced_shear=reduced))
    c.same(part, got[sub], "shear depends on the other galaxies")
    perm = r.permutation(n)
    other = c.n(glass.galaxy_shear(c.a(lon[perm]), c.a(lat[perm]), c.a(eps[perm]), c.a(kappa), c.a(g1), c.a(g2), reduced_shear=reduced))
    c.same(other, got[perm], "shear depends on the order of the galaxies")
    c.event("galaxies", 2 * n + sub.size)
    c.key(c.bk, n, nside, reduced)


@case(PID, q=4, t=30, backends=("jax",))
def shears_jax(c):
    import glass

    r = c.r
    nside = 4
    kappa, g1, g2 = maps(r, nside, "weak")
    lon, lat, eps = catalogue(r, 64)
    reduced = bool(c.idx % 2)
    got = glass.galaxy_shear(c.a(lon), c.a(lat), c.a(eps), c.a(kappa), c.a(g1), c.a(g2), reduced_shear=reduced)
    c.is_backend(got, "shears")
    judge(c, got, lon, lat, eps, kappa, g1, g2, nside, reduced)
    c.key(reduced, c.idx)


@case(PID, q=6, t=60, backends=("np", "np", "strict"))
def fine(c):
    """Fine maps: pixel centres everywhere, around both poles and across the date line."""
    import glass
    import healpy

    r = c.r
    nside = int(r.choice([128, 512, 1024]))
    npix = 12 * nside**2
    g1 = np.arange(npix) / npix  # unique values per pixel
    p = np.unique(np.concatenate([np.arange(120), npix - 1 - np.arange(120), r.integers(0, npix, 3000)]))
    th, ph = healpy.pix2ang(nside, p)
    lon, lat = np.degrees(ph), 90 - np.degrees(th)
    # the healpix package itself fails for longitudes from -360 downwards, so that is left out
    lon = np.where(r.random(lon.size) < 0.3, lon + 360.0, np.where(lon > 1, lon - 360.0 * r.integers(0, 2, lon.size), lon))
    got = c.n(glass.galaxy_shear(c.a(lon), c.a(lat), c.a(np.zeros(p.size, dtype=complex)), c.a(np.zeros(npix)), c.a(g1), c.a(np.zeros(npix)), reduced_shear=bool(c.idx % 2)))
    c.close(got, g1[p] + 0j, "shear at pixel centres of a fine map", rtol=1e-12, atol=1e-12, nside=nside)
    c.event("pixel_centres", p.size)
    c.key(c.bk, nside, c.idx % 2)
