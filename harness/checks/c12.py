"""C12: displacements follow great circles and invert exactly."""

import numpy as np

from ..core import case

PID = "C12"


def vec(lon, lat):
    lon, lat = np.radians(lon), np.radians(lat)
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], -1)


def move(lon, lat, a, bearing):
    """Unit vector after moving by angle a along the great circle of the given bearing (north 0, east +90)."""
    lo, la = np.radians(lon), np.radians(lat)
    p = vec(lon, lat)
    north = np.stack([-np.sin(la) * np.cos(lo), -np.sin(la) * np.sin(lo), np.cos(la)], -1)
    east = np.stack([-np.sin(lo), np.cos(lo), 0 * lo], -1)
    t = np.cos(bearing)[..., None] * north + np.sin(bearing)[..., None] * east
    return np.cos(a)[..., None] * p + np.sin(a)[..., None] * t


def sep(u, v):
    # accurate at every separation, including coinciding and opposite points
    return 2 * np.arctan2(np.linalg.norm(u - v, axis=-1), np.linalg.norm(u + v, axis=-1))


def positions(r, shape):
    lon = r.uniform(-180, 180, shape)
    lat = np.degrees(np.arcsin(r.uniform(-1, 1, shape)))
    k = r.random(shape)
    lat = np.where(k < 0.1, 90.0, np.where(k < 0.2, -90.0, np.where(k < 0.25, 0.0, lat)))
    lat = np.where((k > 0.25) & (k < 0.35), np.sign(lat) * (90 - 10.0 ** r.uniform(-8, 0, shape)), lat)
    m = r.random(shape)
    lon = np.where(m < 0.1, 180.0, np.where(m < 0.2, -180.0, np.where(m < 0.3, 0.0, np.where(m < 0.4, lon + 360, lon))))
    return lon, lat


def bearings(r, shape):
    b = r.uniform(-np.pi, np.pi, shape)
    k = r.random(shape)
    return np.where(k < 0.3, r.choice([0, np.pi / 2, -np.pi / 2, np.pi, np.pi / 4], shape), b)


def distances(r, shape):
    k = r.random(shape)
    d = r.uniform(0, 2 * np.pi, shape)
    d = np.where(k < 0.1, 0.0, np.where(k < 0.2, np.pi, np.where(k < 0.3, np.pi / 2, d)))
    return np.where((k > 0.3) & (k < 0.5), 10.0 ** r.uniform(-9, -1, shape), d)


@case(PID, q=400, t=10000, backends=("np", "strict", "np", "jax"))
def moving(c):
    import glass

    r = c.r
    shape = [(), (1,), (30,), (4, 7), (2,), (0,)][int(r.integers(0, 6))] if c.bk != "jax" else [(30,), (2,)][c.idx % 2]
    lon, lat = positions(r, shape)
    a, g = distances(r, shape), bearings(r, shape)
    alpha = a * np.exp(1j * g)
    kind = int(r.integers(0, 3))
    if shape and r.random() < 0.2:
        # broadcasting: one displacement for many positions and vice versa
        if r.random() < 0.5:
            alpha, a, g = (np.broadcast_to(v.flat[0], ()) if v.size else v for v in (alpha, a, g))
        elif lon.size:
            lon, lat = np.array(lon.flat[0]), np.array(lat.flat[0])
    arg = c.a(alpha) if kind else c.a(np.stack([alpha.real, alpha.imag]))
    nlon, nlat = glass.displace(c.a(lon), c.a(lat), arg)
    c.is_backend(nlon, "longitudes")
    c.is_backend(nlat, "latitudes")
    nlon, nlat = c.n(nlon), c.n(nlat)
    out = np.broadcast_shapes(np.shape(lon), np.shape(alpha))
    c.check(nlon.shape == out and nlat.shape == out, f"shapes {nlon.shape}, {nlat.shape} instead of {out}")
    want = move(*np.broadcast_arrays(lon, lat, a, g))
    if want.size:
        d = sep(vec(nlon, nlat), want)
        c.event("values_compared", d.size)
        k = np.argmax(d)
        c.check(d.max() < 1e-12, "displaced position off the great circle", sep=float(d.max()), lon=np.broadcast_to(lon, out).flat[k], lat=np.broadcast_to(lat, out).flat[k], dist=np.broadcast_to(a, out).flat[k], bearing=np.broadcast_to(g, out).flat[k])
        c.check(np.all(np.abs(nlat) <= 90 + 1e-12), "latitude out of range")
    # the deprecated variant counts bearings the other way around
    if c.bk != "jax" or c.idx % 4 == 3:
        dlon, dlat = glass.deflect(c.a(lon), c.a(lat), arg)
        c.is_backend(dlon, "deflected longitudes")
        w2 = move(*np.broadcast_arrays(lon, lat, a, -g))
        if w2.size:
            c.check(sep(vec(c.n(dlon), c.n(dlat)), w2).max() < 1e-12, "deflected position off the mirrored great circle")
    c.event("positions", int(np.prod(out)))
    c.key(c.bk, kind, shape, c.idx)


@case(PID, q=400, t=10000, backends=("np", "strict", "np", "jax"))
def between(c):
    """The displacement between positions is the shortest, has the right bearing and leads from one to the other."""
    import glass

    r = c.r
    shape = [(), (1,), (30,), (4, 7), (0,)][int(r.integers(0, 5))] if c.bk != "jax" else (30,)
    lon1, lat1 = positions(r, shape)
    k = int(r.integers(0, 5))
    if k == 0:
        lon2, lat2 = positions(r, shape)
    elif k == 1:
        lon2, lat2 = lon1 + 0, lat1 + 0
    elif k == 2:
        lon2, lat2 = lon1 + 180, -lat1
    elif k == 4:
        s = 10.0 ** r.uniform(-9, -2, shape)  # almost opposite
        lon2, lat2 = lon1 + 180 + s * r.normal(size=shape), np.clip(-lat1 + s * r.normal(size=shape), -90, 90)
    else:
        s = 10.0 ** r.uniform(-9, -2, shape)
        lon2, lat2 = lon1 + s * r.normal(size=shape), np.clip(lat1 + s * r.normal(size=shape), -90, 90)
    al = glass.displacement(c.a(lon1), c.a(lat1), c.a(lon2), c.a(lat2))
    c.is_backend(al, "displacement")
    a = c.n(al)
    c.check(a.shape == shape and a.dtype.kind == "c", f"shape {a.shape}, dtype {a.dtype}")
    if a.size:
        u, v = vec(lon1, lat1), vec(lon2, lat2)
        d = sep(u, v)
        c.check(np.all(np.isfinite(a)), "non-finite displacement")
        c.check(np.all(np.abs(a) <= np.pi + 1e-12), "displacement longer than half a turn", a=np.abs(a).max())
        c.close(np.abs(a), d, "length of the displacement", rtol=1e-12, atol=1e-12)
        end = move(np.asarray(lon1), np.asarray(lat1), np.abs(a), np.angle(a))
        e = sep(end, v)
        c.check(e.max() < 1e-12, "displacement does not lead to the second position", sep=float(e.max()))
        nlon, nlat = glass.displace(c.a(lon1), c.a(lat1), al)
        c.check(sep(vec(c.n(nlon), c.n(nlat)), v).max() < 1e-12, "displacing by the displacement does not reach the second position")
        # and back from the displaced position: same length
        back = c.n(glass.displacement(c.a(lon2), c.a(lat2), c.a(lon1), c.a(lat1)))
        c.close(np.abs(back), np.abs(a), "displacement back has another length", rtol=1e-9, atol=1e-11)
    c.event("pairs", a.size)
    c.key(c.bk, k, shape, c.idx)


@case(PID, q=100, t=1500, backends=("np", "strict"))
def roundtrip(c):
    """Displacing by less than half a turn and asking for the displacement gives it back."""
    import glass

    r = c.r
    lon = r.uniform(-180, 180, 40)
    lat = np.degrees(np.arcsin(r.uniform(-0.999, 0.999, 40)))
    a, g = r.uniform(1e-4, np.pi - 1e-3, 40), bearings(r, 40)
    alpha = a * np.exp(1j * g)
    lo, la = glass.displace(c.a(lon), c.a(lat), c.a(alpha))
    c.close(glass.displacement(c.a(lon), c.a(lat), lo, la), alpha, "displacement does not invert displace", rtol=0, atol=1e-9)
    c.key(c.bk, c.idx)


@case(PID, q=40, t=200)
def compass(c):
    """Bearings by name, in plain degrees."""
    import glass

    r = c.r
    lon, lat, d = float(r.uniform(-170, 170)), 0.0, float(r.uniform(0.1, 80))
    rad = np.radians(d)
    for al, want in ((rad, (lon, d)), (-rad, (lon, -d)), (1j * rad, (lon + d, 0.0)), (-1j * rad, (lon - d, 0.0))):
        got = glass.displace(np.array(lon), np.array(lat), np.array(al, dtype=complex))
        c.close(np.array(got, dtype=float), np.array(want), "cardinal direction", rtol=0, atol=1e-9)
    c.key(c.idx)


@case(PID, q=100, t=1500, backends=("np", "strict", "np", "jax"))
def near_poles(c):
    """Points that end close to a pole: the distance from the pole is exact to rounding of the angles."""
    import glass

    r = c.r
    n = 20
    s = np.where(r.random(n) < 0.5, 1.0, -1.0)
    lon = r.uniform(-180, 180, n)
    lat = s * r.uniform(0, 80, n)
    miss = 10.0 ** r.uniform(-7, -2, n)  # radians away from the pole, sideways and along
    ph = r.uniform(0, 2 * np.pi, n)
    # displacement to the point at polar distance miss and azimuth ph, by the haversine formula
    la = np.radians(lat)
    la2, dl = s * (np.pi / 2 - miss), ph
    h = np.sin((la2 - la) / 2) ** 2 + np.cos(la) * np.sin(miss) * np.sin(dl / 2) ** 2
    a = 2 * np.arcsin(np.sqrt(h))
    g = np.arctan2(np.sin(dl) * np.sin(miss), np.cos(la) * s * np.cos(miss) - np.sin(la) * np.sin(miss) * np.cos(dl))
    nlon, nlat = glass.displace(c.a(lon), c.a(lat), c.a(a * np.exp(1j * g)))
    got = np.radians(90 - np.abs(c.n(nlat)))
    c.close(got, miss, "distance from the pole", rtol=0, atol=3e-15 * 20, lat=lat, miss=miss)
    c.key(c.bk, c.idx)
