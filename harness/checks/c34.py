"""C34: the HEALPix layer is faithful to HEALPix on every backend."""

import contextlib
import math
import os

import numpy as np

from ..core import Violation, backend_name, case
from .. import core, datapath

PID = "C34"
JB = ("np", "strict", "np", "strict", "np") * 6 + ("jax",)


def raw():
    import healpix
    import healpy

    return healpix, healpy


def alm_size(lmax):
    return (lmax + 1) * (lmax + 2) // 2


def random_alm(r, lmax):
    n = alm_size(lmax)
    a = r.normal(size=n) + 1j * r.normal(size=n)
    a[: lmax + 1] = a[: lmax + 1].real
    return a


def all_of(c, x, msg):
    if isinstance(x, (list, tuple)):
        for v in x:
            all_of(c, v, msg)
    else:
        c.is_backend(x, msg)


@case(PID, q=150, t=4000, backends=JB)
def angles(c):
    import glass.healpix as hp

    healpix, healpy = raw()
    r = c.r
    nside = int(2 ** r.integers(0, 8)) if r.random() < 0.7 else int(r.integers(1, 40))
    shape = [(7,), (2, 3), (1,), (0,)][int(r.integers(4))]
    if c.bk == "jax":
        shape = (7,)
    lonlat = bool(r.integers(0, 2))
    z, phi = r.uniform(-1, 1, size=shape), r.uniform(-4, 9, size=shape)
    theta = np.arccos(z)
    if lonlat:
        a, b = np.degrees(phi), 90 - np.degrees(theta)
    else:
        a, b = theta, phi
    got = hp.ang2pix(nside, c.a(a), c.a(b), lonlat=lonlat) if lonlat or r.random() < 0.5 else hp.ang2pix(nside, c.a(a), c.a(b))
    c.is_backend(got, "pixel numbers")
    c.same(got, healpix.ang2pix(nside, a, b, lonlat=lonlat), "pixel numbers", nside=nside, lonlat=lonlat)
    if a.size:
        # independent geometry: no pixel centre is much closer than the one returned
        v = np.stack([np.sin(theta) * np.cos(phi), np.sin(theta) * np.sin(phi), z], -1).reshape(-1, 3)
        px = healpix.pix2vec(nside, c.n(got).ravel())
        cosd = np.sum(np.stack(px, -1) * v, -1)
        c.check(np.all(np.arccos(np.clip(cosd, -1, 1)) < 1.6 / nside), "point outside its pixel", nside=nside)
    vec = hp.ang2vec(c.a(a), c.a(b), lonlat=lonlat) if lonlat or r.random() < 0.5 else hp.ang2vec(c.a(a), c.a(b))
    c.check(isinstance(vec, tuple) and len(vec) == 3, "three components")
    all_of(c, vec, "vector component")
    for g, w in zip(vec, (np.sin(theta) * np.cos(phi), np.sin(theta) * np.sin(phi), z)):
        c.close(g, w, "unit vector", rtol=1e-9, atol=1e-10, lonlat=lonlat)
    # scalars
    if a.size:
        i = (0,) * len(shape)
        c.check(int(hp.ang2pix(nside, float(a[i]), float(b[i]), lonlat=lonlat)) == int(c.n(got)[i]), "scalar point")
    c.key(c.bk, nside, shape, lonlat)


@case(PID, q=60, t=1000, backends=("np", "strict"))
def resolution(c):
    import glass.healpix as hp

    r = c.r
    nside = int(2 ** r.integers(0, 14)) if r.random() < 0.5 else int(r.integers(1, 5000))
    c.check(hp.nside2npix(nside) == 12 * nside * nside, "pixels of a resolution", nside=nside)
    got = hp.npix2nside(12 * nside * nside)
    c.check(got == nside and isinstance(got, int), "resolution of a number of pixels", nside=nside)
    small = int(2 ** r.integers(0, 6))
    m = r.normal(size=12 * small * small)
    got = hp.get_nside(c.a(m))
    c.check(got == small and isinstance(got, int), "resolution of a map", nside=small)
    c.raises((ValueError, TypeError), lambda: hp.get_nside(c.a(m[:-1])), "wrong map accepted")
    c.key(c.bk, nside)


@case(PID, q=120, t=3000, backends=JB)
def synthesis(c):
    import glass.healpix as hp

    _, healpy = raw()
    r = c.r
    nside = 4 if c.bk == "jax" else int(2 ** r.integers(0, 5))
    lmax = int(r.integers(2, 3 * nside + 2))
    kind = str(r.choice(["one", "teb", "list"]))
    call = {}
    ell = np.concatenate([np.arange(m, lmax + 1) for m in range(lmax + 1)])
    alms = [random_alm(r, lmax) for _ in range(3 if kind == "teb" else 2)]
    for a in alms[1:]:
        if kind == "teb":
            a[ell < 2] = 0
    if r.random() < 0.3:
        call["inplace"] = bool(r.integers(0, 2))
    if r.random() < 0.5:
        call["lmax"] = lmax
    if kind == "one":
        arg = c.a(alms[0])
        if r.random() < 0.5:
            call["pol"] = bool(r.integers(0, 2))
        want = healpy.alm2map(alms[0].copy(), nside, lmax=lmax)
    elif kind == "list":
        arg = [c.a(a) for a in alms]
        call["pol"] = False
        want = [healpy.alm2map(a.copy(), nside, lmax=lmax) for a in alms]
    else:
        arg = [c.a(a) for a in alms]
        if r.random() < 0.5:
            call["pol"] = True
        want = [healpy.alm2map(alms[0].copy(), nside, lmax=lmax), *healpy.alm2map_spin([a.copy() for a in alms[1:]], nside, 2, lmax)]
    if kind != "one" and r.random() < 0.3:
        arg = tuple(arg)
    if kind != "one" and r.random() < 0.2 and c.bk == "np":
        arg = np.stack(arg)
    got = hp.alm2map(arg, nside, **call)
    all_of(c, got, "map")
    c.close(got, np.asarray(want), f"{kind} map", rtol=1e-9, atol=1e-10, call=call)
    if not call.get("inplace") and kind == "one":
        c.same(arg, alms[0], "harmonic coefficients changed")
    c.key(c.bk, nside, lmax, kind, sorted(call.items()))


@case(PID, q=80, t=2000, backends=JB)
def spin_synthesis(c):
    import glass.healpix as hp

    _, healpy = raw()
    r = c.r
    nside = int(2 ** r.integers(1, 5))
    spin = int(r.integers(1, 4))
    lmax = int(r.integers(max(2, spin), 3 * nside + 1))
    ell = np.concatenate([np.arange(m, lmax + 1) for m in range(lmax + 1)])
    alms = [random_alm(r, lmax) for _ in range(2)]
    for a in alms:
        a[ell < spin] = 0
    got = hp.alm2map_spin([c.a(a) for a in alms], nside, spin, lmax)
    c.check(isinstance(got, list) and len(got) == 2, "two maps")
    all_of(c, got, "map")
    want = healpy.alm2map_spin(alms, nside, spin, lmax)
    c.close(got, np.asarray(want), "spin map", rtol=1e-9, atol=1e-10, spin=spin)
    c.key(c.bk, nside, lmax, spin)


@case(PID, q=100, t=2000, backends=JB)
def multiply(c):
    import glass.harmonics
    import glass.healpix as hp

    r = c.r
    lmax = 5 if c.bk == "jax" else int(r.integers(0, 20))
    alm = random_alm(r, lmax)
    nl = lmax + 1 if c.bk == "jax" else int(r.integers(1, lmax + 5))
    fl = r.normal(size=nl)
    inplace = bool(r.random() < 0.3) and c.bk == "np"
    x = c.a(alm)
    got = hp.almxfl(x, c.a(fl), inplace=inplace) if (inplace or r.random() < 0.5) else hp.almxfl(x, c.a(fl))
    c.is_backend(got, "harmonic coefficients")
    full = np.zeros(lmax + 1)
    full[: min(nl, lmax + 1)] = fl[: lmax + 1]
    want = np.empty_like(alm)
    for m in range(lmax + 1):
        for l in range(m, lmax + 1):
            i = m * (2 * lmax + 1 - m) // 2 + l
            want[i] = alm[i] * full[l]
    c.close(got, want, "product with a function of l", rtol=1e-13, atol=0)
    c.same(x, want if inplace else alm, "input coefficients")
    # the library's own ordering: all m of l = 0, 1, ...
    fl = r.normal(size=lmax + 1)
    got = glass.harmonics.multalm(c.a(alm), c.a(fl))
    c.is_backend(got, "harmonic coefficients")
    want = np.array([alm[l * (l + 1) // 2 + m] * fl[l] for l in range(lmax + 1) for m in range(l + 1)])
    c.close(got, want, "multalm", rtol=1e-13, atol=0)
    c.key(c.bk, lmax, nl, inplace)


@contextlib.contextmanager
def data_path(value):
    old = os.environ.get("HEALPY_DATAPATH")
    if value is None:
        os.environ.pop("HEALPY_DATAPATH", None)
    else:
        os.environ["HEALPY_DATAPATH"] = value
    try:
        yield
    finally:
        if old is None:
            os.environ.pop("HEALPY_DATAPATH", None)
        else:
            os.environ["HEALPY_DATAPATH"] = old


def make_path(nsides, seed):
    with data_path(os.environ.get("HEALPY_DATAPATH")):
        win = datapath.make(nsides, seed=seed)
        return os.environ["HEALPY_DATAPATH"], win


@case(PID, q=80, t=2000, backends=JB)
def analysis(c):
    import glass.healpix as hp

    _, healpy = raw()
    r = c.r
    nside = int(2 ** r.integers(1, 5))
    lmax = None if r.random() < 0.3 else int(r.integers(2, 3 * nside))
    kind = str(r.choice(["one", "list", "tqu"]))
    n = {"one": 1, "list": 2, "tqu": 3}[kind]
    maps = [r.normal(size=12 * nside**2) for _ in range(n)]
    call = {}
    if lmax is not None:
        call["lmax"] = lmax
    if kind == "list":
        call["pol"] = False
    elif r.random() < 0.5:
        call["pol"] = True if kind == "tqu" else bool(r.integers(0, 2))
    weights = r.random() < 0.6
    seed = int(r.integers(0, 3))
    path, _ = make_path([nside], seed)
    if weights:
        call["use_pixel_weights"] = True
    else:
        path = None if r.random() < 0.5 else path
    arg = c.a(maps[0]) if kind == "one" else [c.a(m) for m in maps]
    with data_path(path):
        got = hp.map2alm(arg, **call)
    all_of(c, got, "harmonic coefficients")
    w = dict(use_pixel_weights=True, datapath=path) if weights else {}
    if kind == "one":
        want = healpy.map2alm(maps[0], lmax=lmax, **w)
    elif kind == "list":
        want = [healpy.map2alm(m, lmax=lmax, **w) for m in maps]
    else:
        want = healpy.map2alm(maps, lmax=lmax, pol=True, **w)
    c.close(got, np.asarray(want), f"{kind} coefficients", rtol=1e-9, atol=1e-12, call=call, seed=seed)
    c.event("pixel_weights", weights)
    c.key(c.bk, nside, lmax, kind, weights, seed)


@case(PID, q=100, t=2000, backends=JB)
def windows(c):
    import glass.healpix as hp

    r = c.r
    nside = int(2 ** r.integers(1, 6))
    seeds = [int(v) for v in r.permutation(4)[:2]]
    for seed in seeds:  # switch the data path between calls
        path, win = make_path([nside], seed)
        t, p = win[nside]
        lmax = None if r.random() < 0.3 else int(r.integers(0, 4 * nside + 1))
        pol = bool(r.integers(0, 2))
        call = {}
        if lmax is not None:
            call["lmax"] = lmax
        if pol or r.random() < 0.5:
            call["pol"] = pol
        if c.bk != "np" or r.random() < 0.5:
            call["xp"] = c.xp
        with data_path(path):
            got = hp.pixwin(nside, **call)
        top = 3 * nside if lmax is None else lmax + 1
        all_of(c, got, "pixel window")
        if pol:
            c.check(isinstance(got, tuple) and len(got) == 2, "two windows")
            c.same(got[0], t[:top], "temperature window", seed=seed)
            c.same(got[1], p[:top], "polarisation window", seed=seed)
        else:
            c.same(got, t[:top], "pixel window", seed=seed)
        c.key(c.bk, nside, lmax, pol, seed)
    with data_path(os.path.join(core.SCRATCH, "no-such-directory")):
        c.raises(ValueError, lambda: hp.pixwin(nside), "missing data path accepted")
        c.raises(ValueError, lambda: hp.map2alm(c.a(np.zeros(12 * nside**2))), "missing data path accepted")


class Download(Exception):
    pass


@case(PID, q=6, t=40, backends=("np", "strict"))
def synthesis_with_window(c):
    """alm2map(pixwin=True) multiplies with the pixel window of the configured data path."""
    from unittest import mock

    import glass.healpix as hp

    _, healpy = raw()
    r = c.r
    nside = int(2 ** r.integers(1, 5))
    lmax = int(r.integers(2, 3 * nside))
    alm = random_alm(r, lmax)
    path, win = make_path([nside], 1)
    want = healpy.alm2map(healpy.almxfl(alm, win[nside][0][: lmax + 1]), nside, lmax=lmax)
    with data_path(path), mock.patch("astropy.utils.data.get_pkg_data_filename", side_effect=Download):
        try:
            got = hp.alm2map(c.a(alm), nside, lmax=lmax, pixwin=True)
        except Download:
            c.event("assertions")
            raise Violation("alm2map(pixwin=True) does not use the configured data path", known="alm2map-pixwin-datapath") from None
    c.close(got, want, "map with pixel window", rtol=1e-9, atol=1e-10)


@case(PID, q=120, t=3000, backends=JB)
def strip(c):
    import glass.healpix as hp

    healpix, _ = raw()
    r = c.r
    nside = int(2 ** r.integers(0, 7))
    t1, t2 = (float(v) for v in r.uniform(0, math.pi, size=2))
    if r.random() < 0.6:
        t1, t2 = min(t1, t2), max(t1, t2)
    if r.random() < 0.1:
        t1 = 0.0
    if r.random() < 0.1:
        t2 = math.pi
    call = {}
    if c.bk != "np" or r.random() < 0.5:
        call["xp"] = c.xp
    kind = str(r.choice(["default", "float64", "bool", "int64"]))
    if kind != "default":
        call["dtype"] = getattr(c.xp, kind)
    got = hp.query_strip(nside, (t1, t2), **call)
    c.is_backend(got, "mask")
    c.check(str(got.dtype).split(".")[-1] == ("int64" if kind == "default" else kind), f"data type {got.dtype} for {kind}")
    theta = healpix.pix2ang(nside, np.arange(12 * nside**2))[0]
    inside = ((theta >= t1) & (theta <= t2)) if t1 < t2 else ((theta <= t2) | (theta >= t1))
    sure = (np.abs(theta - t1) > 1e-9) & (np.abs(theta - t2) > 1e-9)
    gn = c.n(got).astype(float)
    c.check(gn.shape == theta.shape, "shape of mask")
    c.same(gn[sure], inside[sure].astype(float), "mask of strip", nside=nside, t1=t1, t2=t2)
    c.check(np.all((gn == 0) | (gn == 1)), "mask values")
    c.key(c.bk, nside, kind, t1 < t2)


@case(PID, q=80, t=2000, backends=JB)
def random_angles(c):
    import glass.healpix as hp

    healpix, _ = raw()
    r = c.r
    nside = int(2 ** r.integers(0, 9)) if r.random() < 0.6 else int(r.integers(1, 50))
    shape = [(9,), (2, 3), (0,)][int(r.integers(3))]
    ipix = r.integers(0, 12 * nside**2, size=shape)
    lonlat = bool(r.integers(0, 2))
    seed = int(r.integers(1 << 30))
    given = r.random() < 0.7
    call = dict(rng=np.random.default_rng(seed)) if given else {}
    if lonlat or r.random() < 0.5:
        call["lonlat"] = lonlat
    got = hp.randang(nside, c.a(ipix), **call)
    c.check(isinstance(got, tuple) and len(got) == 2, "two angles")
    all_of(c, got, "angle")
    want = healpix.randang(nside, ipix, lonlat=lonlat, rng=np.random.default_rng(seed if given else 42))
    for g, w in zip(got, want):
        c.same(g, w, "random angles", given=given, lonlat=lonlat)
    again = hp.randang(nside, c.a(ipix), lonlat=lonlat, rng=None if not given else call["rng"])
    if not given:
        c.same(again[0], want[0], "default generator is not reproducible")
    elif ipix.size:
        c.check(not np.array_equal(c.n(again[0]), want[0]), "generator not advanced")
    c.key(c.bk, nside, shape, lonlat, given)


COORDS = ["GC", "CE", "EG", "CG", "EC", "GE"]


@case(PID, q=60, t=1500, backends=JB)
def rotation(c):
    import glass.healpix as hp

    _, healpy = raw()
    r = c.r
    nside = int(2 ** r.integers(0, 6))
    co = COORDS[int(r.integers(len(COORDS)))]
    arg = co if r.random() < 0.6 else list(co)
    m = r.normal(size=12 * nside**2)
    rot = hp.Rotator(coord=arg)
    got = rot.rotate_map_pixel(c.a(m))
    c.is_backend(got, "rotated map")
    c.close(got, healpy.Rotator(coord=co).rotate_map_pixel(m), "rotated map", rtol=1e-12, atol=1e-13, coord=co)
    # a dipole shows the rotation of the sphere itself
    v = np.array(healpy.pix2vec(nside, np.arange(12 * nside**2)))
    d = r.normal(size=3)
    got = c.n(rot.rotate_map_pixel(c.a(d @ v)))
    mat = astro(co)
    err = np.abs(got - (mat @ d) @ v).max()
    c.check(nside < 4 or err < 0.6 / nside * np.linalg.norm(d), "sky rotated into the wrong frame", coord=co, err=err)
    if r.random() < 0.3:
        none = hp.Rotator().rotate_map_pixel(c.a(m))
        c.close(none, m, "rotation without coordinates", rtol=1e-9, atol=1e-9)
    c.key(c.bk, nside, co)


def astro(co):
    """Matrix from the first frame to the second, by astropy."""
    import astropy.units as un
    from astropy.coordinates import SkyCoord

    fr = {"G": "galactic", "C": "fk5", "E": "barycentricmeanecliptic"}
    cols = []
    for e in np.eye(3):
        s = SkyCoord(*e, frame=fr[co[0]], representation_type="cartesian")
        s = s.transform_to(fr[co[1]]).represent_as("unitspherical").to_cartesian()
        cols.append([s.x.to_value(un.one), s.y.to_value(un.one), s.z.to_value(un.one)])
    return np.array(cols).T


def masked(healpy, nside, t, frame_to=None):
    m = np.ones(12 * nside**2)
    m[healpy.query_strip(nside, *t)] = 0.0
    return m


@case(PID, q=80, t=2000, backends=JB)
def visibility(c):
    import glass

    _, healpy = raw()
    r = c.r
    nside = int(2 ** r.integers(2, 6))
    call = {}
    gal, ecl = (30, 90), (20, 80)
    if r.random() < 0.85:
        gal = tuple(sorted(float(v) for v in r.uniform(0, math.pi, size=2)))
        if r.random() < 0.2:
            gal = gal[::-1]
        call["galactic"] = gal if r.random() < 0.8 else list(gal)
    if r.random() < 0.85:
        ecl = tuple(sorted(float(v) for v in r.uniform(0, math.pi, size=2)))
        if r.random() < 0.2:
            ecl = ecl[::-1]
        call["ecliptic"] = ecl
    if c.bk != "np" or r.random() < 0.5:
        call["xp"] = c.xp
    v = glass.vmap_galactic_ecliptic(nside, **call)
    c.is_backend(v, "visibility map")
    v = c.n(v)
    c.check(v.shape == (12 * nside**2,), "shape")
    c.check(np.all((v >= -1e-12) & (v <= 1 + 1e-12)), "visibility outside [0, 1]", lo=v.min(), hi=v.max())
    g = masked(healpy, nside, gal)
    e = masked(healpy, nside, ecl)
    rot = lambda co, m: healpy.Rotator(coord=co).rotate_map_pixel(m)
    close = lambda w: np.allclose(v, w, rtol=0, atol=1e-11)
    # the same strips seen in any of the three frames, each strip in its own frame
    documented = [
        rot("GC", g) * rot("EC", e),
        rot("GE", g) * e,
        rot("EC", rot("GE", g) * e),
        rot("CE", rot("GC", g) * rot("EC", e)),
        rot("CE", rot("GC", g)) * e,
        g * rot("EG", e),
    ]
    c.event("assertions")
    if any(close(w) for w in documented):
        c.event("as_documented")
    elif close(rot("CE", rot("GC", g) * e)):
        # every other aspect is right
        c.event("ecliptic_strip_in_equatorial_frame")
        c.key(c.bk, nside, gal[0] < gal[1], ecl[0] < ecl[1], len(call))
        raise Violation("ecliptic strip masked in the equatorial frame", known="vmap-ecliptic-frame", nside=nside)
    else:
        raise Violation("visibility map is not the product of the two strips", galactic=gal, ecliptic=ecl, nside=nside)
    c.key(c.bk, nside, gal[0] < gal[1], ecl[0] < ecl[1], len(call))


@case(PID, q=12, t=100, backends=("np", "strict"))
def visibility_refuses(c):
    import glass

    for bad in [(), (1.0,), (0.1, 0.2, 0.3)]:
        c.raises(TypeError, lambda: glass.vmap_galactic_ecliptic(4, galactic=bad, xp=c.xp), "galactic stripe accepted", bad=bad)
        c.raises(TypeError, lambda: glass.vmap_galactic_ecliptic(4, ecliptic=bad, xp=c.xp), "ecliptic stripe accepted", bad=bad)
    c.key(c.bk)
