"""C19: window functions tile redshift as documented."""

import warnings

import numpy as np

from ..core import case
from ..cosmo import random_cosmo

PID = "C19"
JB = ("np", "strict", "np", "np", "strict", "np", "np", "strict", "np", "np", "strict", "np", "np", "strict", "np", "jax")


def trapz(y, x):
    return float(((y[1:] + y[:-1]) / 2 * np.diff(x)).sum())


def bins(r, nmin):
    k = int(r.integers(0, 4))
    n = int(r.integers(nmin, nmin + 6))
    if k == 0:
        z = np.linspace(0, float(r.uniform(0.1, 3)), n)
    elif k == 1:
        z = np.concatenate([[0.0], np.cumsum(r.uniform(0.01, 1, n - 1))])
    elif k == 2:
        z = float(r.uniform(0, 1)) + np.cumsum(r.uniform(0.01, 0.5, n))
    else:
        z = np.arange(n) / 10
    u = r.random()
    if u < 0.02:
        z = z * 10.0 ** r.uniform(-12, -6)
    elif u < 0.12:  # the very nearby Universe, and the very distant one
        z = z * 10.0 ** r.uniform(-6, -1)
    elif u < 0.15:
        z = z * 10.0 ** r.uniform(0.5, 2.5)
    return z


def weighting(c, r):
    """A weight function in the case's backend, its numpy twin, and a log of the redshifts asked for."""
    k = int(r.integers(0, 5))
    log = []
    if k == 0:
        return None, (lambda z: np.ones_like(z)), log, k
    if k == 4:  # gives back the very array it was given
        return (lambda z: z), (lambda z: z), log, k
    a = float(r.uniform(0.3, 2))
    if k == 1:
        f = lambda z: 1 / (a + z)  # noqa: E731
    elif k == 2:
        f = lambda z: (z - a) ** 2 + 0.1 * z  # noqa: E731
    else:
        f = lambda z: a * z * z  # noqa: E731

    def wht(z):
        log.append(c.n(z))
        return c.a(f(c.n(z)))

    return wht, f, log, k


def spacing(c, z, dz, msg):
    """Number of intervals of a stretch agrees with dz."""
    k = (z[-1] - z[0]) / dz
    n = z.size - 1
    if k >= 5:
        c.check(abs(n - k) <= 2.6, f"{msg}: {n} intervals for a length of {k} dz")
    else:
        c.check(1 <= n <= 6, f"{msg}: {n} intervals for a length of {k} dz")
    c.check(np.ptp(np.diff(z)) <= 1e-9 * (abs(z[-1]) + 1), f"{msg}: spacing is not uniform")


def built(c, fn, z, dz, wht):
    """Build windows, watching the warnings."""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        kw = {} if wht is None and c.r.random() < 0.5 else {"weight": wht}
        ws = fn(c.a(z), dz, **kw) if c.r.random() < 0.5 else fn(c.a(z), dz=dz, **kw)
    warned = any(issubclass(w.category, UserWarning) and not issubclass(w.category, DeprecationWarning) for w in rec)
    c.check(warned == (z[0] != 0), "warning about the first redshift", warned=warned, first=z[0])
    c.check(isinstance(ws, list), "not a list of windows")
    return ws


def grid_ok(c, za, nodes):
    c.check(np.all(np.diff(za) > 0), "window grid is not strictly increasing")
    for x in nodes:
        c.check(np.min(np.abs(za - x)) <= 1e-12 * (1 + x), f"node {x} is not in the window's grid", za=za)


def pick_dz(r, z):
    w = np.diff(z)
    if r.random() < 0.05:  # fine grids
        return float(w.max() / (r.uniform(1000, 20000) if r.random() < 0.7 else r.uniform(20000, 120000)))
    return float(r.choice([1e-3 if w.max() < 10 else w.max() / 300, w.min() / 7.3, w.mean() / 20, w.min() * 0.9, w.max() * 2, w.mean() / 3]))


@case(PID, q=250, t=6000, backends=JB)
def tophat(c):
    import glass

    r = c.r
    z = bins(r, 2)
    if c.bk == "jax":
        z = np.linspace(0, 0.3, 4)
    dz = pick_dz(r, z) if c.bk != "jax" else 0.03
    wht, f, log, k = weighting(c, r)
    ws = built(c, glass.tophat_windows, z, dz, wht)
    c.check(len(ws) == z.size - 1, "number of windows")
    for i, w in enumerate(ws):
        za, wa, zeff = w
        c.is_backend(za, "za")
        c.is_backend(wa, "wa")
        za, wa = c.n(za), c.n(wa)
        grid_ok(c, za, (z[i], z[i + 1]))
        c.check(za[0] == z[i] and za[-1] == z[i + 1], "window does not cover its bin exactly", za=(za[0], za[-1]), bin=(z[i], z[i + 1]))
        spacing(c, za, dz, "tophat grid")
        c.close(wa, f(za), "tophat values", rtol=1e-12)
        c.close(np.float64(zeff), np.float64(trapz(wa * za, za) / trapz(wa, za)), "effective redshift of a tophat window", rtol=1e-10)
        c.event("windows")
    if k == 0:
        # plain tophat windows: exact midpoint
        for i, w in enumerate(ws):
            c.close(np.float64(w.zeff), np.float64((z[i] + z[i + 1]) / 2), "effective redshift without weight", rtol=1e-9)
    c.note(z=z, dz=dz)
    c.key(c.bk, z.size, k, round(dz, 4))


@case(PID, q=350, t=8000, backends=JB)
def interpolating(c):
    """Linear and cubic windows: shape, nodes, partition of unity."""
    import glass

    r = c.r
    z = bins(r, 3)
    cubic = bool(r.random() < 0.5)
    if c.bk == "jax":
        z = np.linspace(0, 0.3, 4)
    dz = pick_dz(r, z) if c.bk != "jax" else 0.03
    wht, f, log, k = weighting(c, r)
    ws = built(c, glass.cubic_windows if cubic else glass.linear_windows, z, dz, wht)
    c.check(len(ws) == z.size - 2, "number of windows")
    for i, w in enumerate(ws):
        za, wa, zeff = w
        c.is_backend(za, "za")
        c.is_backend(wa, "wa")
        za, wa = c.n(za), c.n(wa)
        lo, mid, hi = z[i : i + 3]
        grid_ok(c, za, (lo, mid, hi))
        c.check(abs(za[0] - lo) < 1e-12 and abs(za[-1] - hi) < 1e-12 * (1 + hi), "window does not span its three nodes", za=(za[0], za[-1]), nodes=(lo, mid, hi))
        j = int(np.argmin(np.abs(za - mid)))
        spacing(c, za[: j + 1], dz, "rising side")
        spacing(c, za[j:], dz, "falling side")
        u = np.where(np.arange(za.size) <= j, (za - lo) / (mid - lo), (hi - za) / (hi - mid))
        base = u * u * (3 - 2 * u) if cubic else u
        c.close(wa, base * f(za), "window values", rtol=1e-9, atol=1e-11 * np.max(np.abs(f(za))), cubic=cubic, k=k)
        c.close(np.float64(c.n(zeff)), np.float64(mid), "effective redshift", rtol=1e-14)
        c.event("windows")
    if k == 0 and z.size > 3:
        t = np.concatenate([np.linspace(z[1], z[-2], 501), z[1:-1], r.uniform(z[1], z[-2], 100)])
        tot = sum(np.interp(t, c.n(w.za), c.n(w.wa), left=0, right=0) for w in ws)
        c.close(tot, np.ones(t.size), "windows do not sum to one between the first and last inner nodes", rtol=1e-8, cubic=cubic, dz=dz, z=z)
        c.event("unity_points", t.size)
    c.note(z=z, dz=dz, cubic=cubic)
    c.key(c.bk, z.size, k, cubic, round(dz, 4))


@case(PID, q=60, t=600, backends=("np", "strict", "np"))
def defaults(c):
    """Without dz the grid spacing is 0.001."""
    import glass

    r = c.r
    z = np.cumsum(r.uniform(0.02, 0.3, 4))
    z[0] = 0
    for fn in (glass.tophat_windows, glass.linear_windows, glass.cubic_windows):
        for w in fn(c.a(z)):
            d = np.diff(c.n(w.za))
            c.check(np.all((d > 0.0008) & (d < 0.0012)), "default spacing", fn=fn.__name__, d=(d.min(), d.max()))
    c.key(c.bk, c.idx)


@case(PID, q=60, t=600, backends=("np", "strict", "np", "np", "strict", "np", "jax"))
def refusals(c):
    import glass

    r = c.r
    for fn, n in ((glass.tophat_windows, 2), (glass.linear_windows, 3), (glass.cubic_windows, 3)):
        c.raises(ValueError, lambda: fn(c.a(np.zeros((n + 1, n + 1)))), "two-dimensional grid")
        c.raises(ValueError, lambda: fn(c.a(np.float64(0.5))), "zero-dimensional grid")
        for m in range(0, n):
            c.raises(ValueError, lambda m=m: fn(c.a(np.arange(m) * 1.0)), f"grid with {m} nodes")
        ok = fn(c.a(np.arange(n) * 0.1))
        c.check(len(ok) == 1, "smallest grid")
    c.key(c.bk, int(r.integers(1000)))


@case(PID, q=150, t=2000, backends=JB)
def radial_window(c):
    import dataclasses

    import glass

    r = c.r
    n = int(r.integers(2, 30)) if c.bk != "jax" else 5
    za = np.sort(r.uniform(0, 3, n))
    wa = r.uniform(0.1, 2, n)
    w = glass.RadialWindow(c.a(za), c.a(wa))
    c.close(np.float64(c.n(w.zeff)), np.float64(trapz(za * wa, za) / trapz(wa, za)), "default effective redshift", rtol=1e-10)
    z0 = float(r.choice([0.0, 0.7, -0.0, 1e-3, r.uniform(0, 3)]))
    w = glass.RadialWindow(c.a(za), c.a(wa), z0)
    c.check(w.zeff == z0, "given effective redshift not kept", got=w.zeff, want=z0)
    a, b, e = w
    c.same(a, za, "za")
    c.same(b, wa, "wa")
    c.check(e == z0, "zeff not last")
    c.raises(dataclasses.FrozenInstanceError, lambda: setattr(w, "zeff", 2.0), "window changed")
    c.check(w.__array_namespace__() is c.xp, "array namespace of the window")
    w2 = dataclasses.replace(w, zeff=z0 + 1)
    c.check(w2.zeff == z0 + 1 and w.zeff == z0, "replacing the effective redshift")
    e = glass.RadialWindow(c.a(np.zeros(0)), c.a(np.zeros(0)))
    c.check(np.isnan(e.zeff), "effective redshift of an empty window")
    c.key(c.bk, n, z0)


@case(PID, q=150, t=2000, backends=JB)
def weights(c):
    """Distance, volume and density weights equal their definitions."""
    import glass

    r = c.r
    cosmo = random_cosmo(r, xp=c.xp)
    shape = [(5,), (), (3, 2)][int(r.integers(0, 3))]
    z = r.uniform(0, 4, shape)
    E = cosmo.E(z)
    x = cosmo.dm(z) / cosmo.hubble_distance
    za = c.a(np.asarray(z))
    c.close(glass.DistanceWeight(cosmo)(za), 1 / E, "distance weight", rtol=1e-12)
    c.close(glass.VolumeWeight(cosmo)(za), x**2 / E, "volume weight", rtol=1e-11)
    want = cosmo.critical_density0 * cosmo.Omega_m0 * (1 + z) ** 3 / E**2 * x**2 / E
    c.close(glass.DensityWeight(cosmo)(za), want, "density weight", rtol=1e-11)
    # used in a window
    zg = np.array([0.0, 0.2, 0.5])
    for W, f in ((glass.DistanceWeight, lambda z: 1 / cosmo.E(z)), (glass.VolumeWeight, lambda z: (cosmo.dm(z) / cosmo.hubble_distance) ** 2 / cosmo.E(z))):
        w = glass.tophat_windows(c.a(zg), 0.05, weight=W(cosmo))[1]
        c.close(w.wa, f(c.n(w.za)), "weighted window", rtol=1e-11)
    c.key(c.bk, shape, cosmo.Ok)
