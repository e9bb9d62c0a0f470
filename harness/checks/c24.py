"""C24: source distributions have the documented shape and norm."""

import numpy as np
from scipy import special

from ..core import case

PID = "C24"
JB = ("np", "strict", "np", "np", "strict", "np", "np", "strict", "np", "np", "strict", "np", "np", "strict", "np", "jax")


def trapz(y, x):
    return ((y[..., 1:] + y[..., :-1]) / 2 * np.diff(x)).sum(axis=-1)


def zgrid(c, r):
    if c.bk == "jax":
        return np.linspace(0.05, 2, 15)
    n = int(r.integers(2, 80))
    z = np.unique(r.uniform(0.0 if r.random() < 0.5 else 0.1, 3, n))
    if r.random() < 0.3:
        z[0] = 0.0
    return z if z.size > 1 else np.array([0.1, 1.0])


def params(c, r, ranges):
    """Parameters of broadcastable shapes; scalars stay Python floats half of the time."""
    full = [(), (), (3,), (2, 3), (2, 1, 2)][int(r.integers(0, 5))]
    out = []
    for lo, hi in ranges:
        k = int(r.integers(0, 3))
        shape = full if k == 0 else () if k == 1 else tuple(1 if r.random() < 0.4 else s for s in full)[int(r.integers(0, len(full) + 1)) :]
        out.append(r.uniform(lo, hi, shape))
    shp = np.broadcast_shapes(*[p.shape if isinstance(p, np.ndarray) else () for p in out])
    args = [(float(p) if r.random() < 0.6 else c.a(np.asarray(p))) if np.ndim(p) == 0 else c.a(p) for p in out]
    return [np.asarray(p) for p in out], args, shp


@case(PID, q=500, t=12000, backends=JB)
def gaussian(c):
    import glass

    r = c.r
    z = zgrid(c, r)
    # now and then, the grid only has the far tail
    (mean, sigma), args, shp = params(c, r, [(0.2, 2) if r.random() < 0.85 or c.bk == "jax" else (8, 10), (0.3, 1.5)])
    norm = None if r.random() < 0.5 else float(r.choice([0.0, r.uniform(0.1, 30)]))
    kw = {} if norm is None else {"norm": norm}
    got = glass.gaussian_nz(c.a(z), *args, **kw)
    c.is_backend(got, "distribution")
    g = np.exp(-(((z - mean[..., None]) / sigma[..., None]) ** 2) / 2)
    want = g / trapz(g, z)[..., None] * (1 if norm is None else norm)
    c.check(want.shape == shp + z.shape, "oracle shape")
    c.close(got, want, "Gaussian distribution", rtol=1e-10, atol=1e-300, shp=shp, norm=norm)
    c.close(trapz(c.n(got), z), np.full(shp, 1.0 if norm is None else norm), "norm", rtol=1e-10)
    c.note(shape=shp, n=z.size, norm=norm)
    c.key(c.bk, shp, mean.shape, sigma.shape, norm is None)


@case(PID, q=500, t=12000, backends=JB)
def smail(c):
    import glass

    r = c.r
    z = zgrid(c, r)
    (zm, al, be), args, shp = params(c, r, [(0.1, 1.5), (0.5, 4), (0.6, 3)])
    norm = None if r.random() < 0.5 else float(r.choice([0.0, r.uniform(0.1, 30), r.uniform(0.1, 30)]))
    kw = {} if norm is None else {"norm": norm}
    got = glass.smail_nz(c.a(z), *args, **kw)
    c.is_backend(got, "distribution")
    zm, al, be = (p[..., None] for p in (zm, al, be))
    with np.errstate(all="ignore"):
        g = z**al * np.exp(-al / be * (z / zm) ** be)
        tot = trapz(g, z)
    if np.any(tot < 1e-250):
        c.event("underflow")
        return
    want = g / tot[..., None] * (1 if norm is None else norm)
    c.close(got, want, "Smail distribution", rtol=1e-9, atol=1e-200, shp=shp, norm=norm)
    c.close(trapz(c.n(got), z), np.full(shp, 1.0 if norm is None else norm), "norm", rtol=1e-10)
    if c.bk != "jax":
        # the mode is where it should be
        t = np.sort(np.append(np.linspace(1e-3, 4, 400), float(zm.ravel()[0])))
        p = c.n(glass.smail_nz(c.a(t), float(zm.ravel()[0]), float(al.ravel()[0]), float(be.ravel()[0])))
        c.check(t[p.argmax()] == zm.ravel()[0], "mode of the Smail distribution", got=t[p.argmax()], want=zm.ravel()[0])
    c.key(c.bk, shp, zm.shape, norm is None)


@case(PID, q=60, t=1500, backends=("np", "strict"))
def grids(c):
    """Redshifts with axes of their own: every row is a distribution, after the parameters' axes."""
    import glass

    r = c.r
    lead = tuple(int(v) for v in r.integers(1, 4, size=int(r.integers(1, 3))))
    z = np.sort(r.uniform(0.05, 3, (*lead, int(r.integers(3, 20)))), axis=-1)
    (mean, sigma), args, shp = params(c, r, [(0.2, 2), (0.5, 1.5)])
    got = glass.gaussian_nz(c.a(z), *args)
    m, s = (np.reshape(p, p.shape + (1,) * z.ndim) for p in (mean, sigma))
    g = np.exp(-(((z - m) / s) ** 2) / 2)
    c.close(got, g / trapz(g, z)[..., None], "Gaussian distribution on a grid of redshifts", rtol=1e-10, atol=1e-300, shp=shp, lead=lead)
    zm, al, be = float(r.uniform(0.2, 1.5)), float(r.uniform(0.5, 4)), float(r.uniform(0.6, 2))
    got = glass.smail_nz(c.a(z), zm, al, be)
    g = z**al * np.exp(-al / be * (z / zm) ** be)
    c.close(got, g / trapz(g, z)[..., None], "Smail distribution on a grid of redshifts", rtol=1e-9, atol=1e-300, lead=lead)
    c.key(c.bk, lead, shp)


@case(PID, q=400, t=8000, backends=JB)
def tomographic(c):
    import glass

    r = c.r
    z = zgrid(c, r)
    nz = r.uniform(0, 3, z.size)
    s0 = float(r.choice([0.001, 0.03, 0.05, 0.3, 1.0, 10.0 ** r.uniform(-9, -3)]))
    contiguous = r.random() < 0.5
    n = int(r.integers(1, 6))
    if contiguous:
        e = np.concatenate([[0.0], np.sort(r.uniform(0, 3, n - 1)), [np.inf]])
        zb = list(zip(e[:-1].tolist(), e[1:].tolist()))
    else:
        zb = []
        for _ in range(n):
            a = float(r.uniform(0, 2))
            zb.append((a, a + float(r.uniform(0.01, 1))))
    got = glass.tomo_nz_gausserr(c.a(z), c.a(nz), s0, zb)
    c.is_backend(got, "distributions")
    sz = np.sqrt(2) * s0 * (1 + z)
    want = np.array([(special.erf((z - a) / sz) - special.erf((z - b) / sz)) / (1 + special.erf(z / sz)) * nz for a, b in zb])
    c.close(got, want, "tomographic distributions", rtol=1e-9, atol=1e-13, s0=s0, zb=zb)
    g = c.n(got)
    c.check(np.all(g >= -1e-15), "negative distribution")
    c.check(np.all(g <= nz * (1 + 1e-12) + 1e-15), "distribution above the total")
    if contiguous:
        c.close(g.sum(axis=0), nz, "contiguous bins from zero to infinity do not add up", rtol=1e-11, atol=1e-14)
    c.note(zb=zb, s0=s0)
    c.key(c.bk, n, contiguous, s0)


@case(PID, q=60, t=1000, backends=("np", "strict", "np", "np", "strict", "np", "np", "jax"))
def from_bins(c):
    """Bins made by the bin functions are accepted as they are."""
    import glass

    r = c.r
    z = np.linspace(0.01, 2, 30)
    nz = r.uniform(0.1, 1, z.size)
    n = 3
    b1 = glass.equal_dens_zbins(c.a(z), c.a(nz), n)
    b2 = glass.fixed_zbins(0.0, 2.0, nbins=n, xp=c.xp)
    for zb in (b1, b2):
        got = c.n(glass.tomo_nz_gausserr(c.a(z), c.a(nz), 0.05, zb))
        sz = np.sqrt(2) * 0.05 * (1 + z)
        want = np.array([(special.erf((z - float(c.n(a))) / sz) - special.erf((z - float(c.n(b))) / sz)) / (1 + special.erf(z / sz)) * nz for a, b in zb])
        c.close(got, want, "distributions for generated bins", rtol=1e-9, atol=1e-13)
    c.key(c.bk, c.idx)
