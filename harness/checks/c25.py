"""C25: multi-plane convergence equals the lensing sum."""

import numpy as np

from ..core import case
from ..cosmo import Cosmo, random_cosmo

PID = "C25"
JB = ("np", "strict", "np") * 10 + ("jax",)


def weight(cosmo, zj, zs):
    """(3/2) Om x_j x_js / x_s (1 + z_j) / E(z_j)."""
    dh = cosmo.hubble_distance
    xj, xs, xjs = cosmo.dm(zj) / dh, cosmo.dm(zs) / dh, cosmo.dm(zj, zs) / dh
    return 1.5 * cosmo.Omega_m0 * xj * xjs / xs * (1 + zj) / cosmo.E(zj)


def direct(cosmo, planes):
    """Convergence at the last plane."""
    zs = planes[-1][0]
    out = np.zeros(planes[-1][2].shape)
    for z, w, d in planes[:-1]:
        out = out + weight(cosmo, z, zs) * w * d
    return out


def scale(cosmo, planes):
    """Size of the terms that cancel in the recurrence."""
    zs = planes[-1][0]
    return 1e-300 + sum(abs(weight(cosmo, z, zs) * w) * np.max(np.abs(d), initial=0) for z, w, d in planes[:-1])


def spacing(r, n):
    k = int(r.integers(0, 4))
    if k == 0:
        z = np.cumsum(np.full(n, float(r.uniform(0.02, 0.3))))
    elif k == 1:
        z = np.cumsum(r.uniform(0.01, 0.5, n))
    elif k == 2:
        z = np.cumsum(10.0 ** r.uniform(-3, 0, n))
    else:
        z = np.cumsum(np.full(n, 0.1)) ** 1.5
    return z


def rand_window(r, za0, za1):
    n = int(r.integers(3, 12))
    za = np.linspace(za0, za1, n)
    wa = r.uniform(0.1, 2, n)
    if r.random() < 0.2:  # windows are given in any unit
        wa = wa * 10.0 ** r.uniform(-12, 12)
    return za, wa


class Sim:
    """An instance under test, driven next to its model."""

    def __init__(self, c, cosmo, shape):
        import glass

        self.c, self.cosmo, self.shape = c, cosmo, shape
        self.mpc = glass.MultiPlaneConvergence(cosmo)
        self.planes = []
        self.tol = 1e-8
        self.arrays = c.r.random() < 0.3  # redshifts given as arrays, throughout

    def step(self, z):
        import glass

        c, r = self.c, self.c.r
        delta = r.normal(size=self.shape) if r.random() < 0.9 else np.zeros(self.shape)
        arr = c.a(delta)
        kind = int(r.integers(0, 3))
        zarg = c.a(np.float64(z)) if self.arrays else float(z)
        if kind == 0:
            za, wa = rand_window(r, z * 0.9, z * 1.1)
            wl = float(((wa[1:] + wa[:-1]) / 2 * np.diff(za)).sum() / np.interp(z, za, wa))
            self.mpc.add_window(arr, glass.RadialWindow(c.a(za), c.a(wa), zarg))
        elif kind == 1:
            wl = float(r.uniform(0.01, 2))
            if r.random() < 0.2:  # any weight, also one that cancels
                wl = float(r.choice([-wl, 0.0, wl * 1e-9, wl * 1e6, -wl * 1e-3]))
            self.mpc.add_plane(arr, zarg, wl)
        else:
            wl = 1.0
            self.mpc.add_plane(arr, zarg)
        self.planes.append((float(z), wl, delta))
        self.observe()

    def observe(self):
        c, m = self.c, self.mpc
        z, w, d = self.planes[-1]
        c.close(np.float64(float(m.zsrc)), np.float64(z), "redshift read back", rtol=0)
        c.close(np.float64(float(m.wlens)), np.float64(w), "weight read back", rtol=1e-11)
        c.same(m.delta, d, "current matter plane")
        c.is_backend(m.kappa, "kappa")
        c.close(m.kappa, direct(self.cosmo, self.planes), "convergence is not the lensing sum", rtol=self.tol,
                atol=self.tol * scale(self.cosmo, self.planes), planes=[p[:2] for p in self.planes], Ok=self.cosmo.Ok)
        c.event("planes")

    def refuse(self):
        """A plane not beyond the last one, in any form."""
        import glass

        c, r = self.c, self.c.r
        last = self.planes[-1][0] if self.planes else 0.0
        z = float(r.choice([last, last * 0.99, 0.0, -0.1, last / 2]))
        arr = c.a(r.normal(size=self.shape))
        k = int(r.integers(0, 2))
        if k == 0:
            c.raises(ValueError, lambda: self.mpc.add_plane(arr, z, 0.7), "plane not beyond the last one", z=z, last=last)
        else:
            w = glass.RadialWindow(c.a(np.array([z - 0.1, z, z + 0.1])), c.a(np.ones(3)), z)
            c.raises(ValueError, lambda: self.mpc.add_window(arr, w), "window not beyond the last one", z=z, last=last)
        c.event("refused")
        if self.planes:
            self.observe()


@case(PID, q=300, t=8000, backends=JB)
def history(c):
    """Several interleaved instances, refused planes in between."""
    r = c.r
    shape = ([(), (5,), (2, 3), (12,)][int(r.integers(0, 4))] if r.random() < 0.95 else (12 * 32**2,)) if c.bk != "jax" else (12,)
    nsim = int(r.integers(1, 4)) if c.bk != "jax" else 1
    sims = [Sim(c, random_cosmo(r, xp=None), shape) for _ in range(nsim)]
    n = int(r.integers(1, 12)) if c.bk != "jax" else 3
    todo = [list(spacing(r, n)) for _ in sims]
    for t in todo:
        if r.random() < 0.2:  # far beyond the galaxies
            t[-1] = t[-1] + float(r.choice([10.0, 100.0, 1100.0]))
            t.append(t[-1] * 1.3)
    trace = []
    while any(todo):
        i = int(r.choice([j for j, t in enumerate(todo) if t]))
        if r.random() < 0.25:
            sims[i].refuse()
            trace.append(f"{i}!")
        else:
            sims[i].step(todo[i].pop(0))
            trace.append(str(i))
    for s in sims:
        s.observe()
    c.note(trace="".join(trace), shape=shape)
    c.key(c.bk, "".join(trace), shape)


@case(PID, q=40, t=800, backends=("np", "strict", "np"))
def close_planes(c):
    """Two planes that are barely apart are two planes."""
    r = c.r
    s = Sim(c, random_cosmo(r, xp=None), (5,))
    s.arrays = True  # a redshift read back is the double that was given
    n = int(r.integers(2, 8))
    d = r.uniform(0.05, 0.3, n)
    k = int(r.integers(1, n))
    d[k] = 10.0 ** r.uniform(-11, -3)
    for i, z in enumerate(np.cumsum(d)):
        s.step(z)
        if i >= k:
            s.tol = 1e-8 + 1e-12 / d[k]
        if r.random() < 0.3:
            s.refuse()
    c.event("close_pairs")
    c.key(c.bk, n, k, c.idx)


@case(PID, q=80, t=1500)
def beginning(c):
    """Before the first plane, and after it."""
    import glass

    r = c.r
    cosmo = random_cosmo(r, xp=None)
    m = glass.MultiPlaneConvergence(cosmo)
    c.raises(ValueError, lambda: m.add_plane(np.ones(3), float(r.choice([0.0, -0.5])), 1.0), "first plane at or below zero")
    m = glass.MultiPlaneConvergence(cosmo)
    c.check(m.kappa is None and m.delta is None and float(m.zsrc) == 0.0 and float(m.wlens) == 0.0, "initial state")
    z = float(r.uniform(0.01, 1))
    d = r.normal(size=4)
    m.add_plane(d, z, 0.3)
    c.same(m.kappa, np.zeros(4), "convergence after the first plane")
    c.same(m.delta, d, "first plane")
    c.key(c.idx)


@case(PID, q=160, t=3000, backends=("np", "strict", "np") * 6 + ("jax",))
def matrix(c):
    """Matrix and weights are the same linear map."""
    import glass

    r = c.r
    cosmo = random_cosmo(r, xp=None)
    n = int(r.integers(1, 8)) if c.bk != "jax" else 3
    z = spacing(r, n + 1)
    e = np.concatenate([[0.0], z])
    kind = int(r.integers(0, 3))
    if kind == 0:
        shells = glass.linear_windows(c.a(e), float(np.diff(e).min() / 5))
    elif kind == 1:
        shells = glass.tophat_windows(c.a(e), float(np.diff(e).min() / 5))
    else:
        shells = [glass.RadialWindow(c.a(za), c.a(wa), float(z[i])) for i, (za, wa) in enumerate(rand_window(r, z[i] * 0.8, z[i] * 1.2) for i in range(n))]
    m = len(shells)
    zs = np.array([float(c.n(s.zeff)) for s in shells])
    lw = np.empty(m)
    for i, s in enumerate(shells):
        za, wa = c.n(s.za), c.n(s.wa)
        lw[i] = ((wa[1:] + wa[:-1]) / 2 * np.diff(za)).sum() / np.interp(zs[i], za, wa)
    want = np.zeros((m, m))
    for i in range(m):
        for j in range(i):
            want[i, j] = weight(cosmo, zs[j], zs[i]) * lw[j]
    got = glass.multi_plane_matrix(shells, cosmo)
    c.is_backend(got, "matrix")
    c.close(got, want, "matrix of lensing contributions", rtol=1e-7, atol=1e-9 * np.abs(want).max(initial=1e-300))
    extra = [(), (2,), (3, 2), (m, 2), (1, 1, 2)][int(r.integers(0, 5))]
    w = r.uniform(0, 2, (m,) + extra) + 1e-3
    if r.random() < 0.2:  # some below zero, like those of an unconstrained partition
        w = w * np.where(r.random(w.shape) < 0.3, -0.05, 1.0)
        w[-1] += 0.5 + m * 0.1
    got = glass.multi_plane_weights(c.a(w), shells, cosmo)
    c.close(got, np.einsum("ji,j...->i...", want, w / w.sum(axis=0)), "multi-plane weights", rtol=1e-7, atol=1e-9 * np.abs(want).max(initial=1e-300))
    if m > 1 and c.idx % 4 == 0:
        wrong = list(shells)
        k = int(r.integers(0, m - 1))
        wrong[k], wrong[k + 1] = wrong[k + 1], wrong[k]
        c.raises(ValueError, lambda: glass.multi_plane_matrix(wrong, cosmo), "matrix of shells that are not in order")
        c.raises(ValueError, lambda: glass.multi_plane_weights(c.a(np.ones(m)), wrong, cosmo), "weights of shells that are not in order")
    # applied to matter planes
    d = r.normal(size=(m, 6))
    mpc = glass.MultiPlaneConvergence(cosmo)
    for i, s in enumerate(shells):
        mpc.add_window(c.a(d[i]), s)
        c.close(mpc.kappa, want[i] @ d, "matrix applied to matter planes", rtol=1e-7, atol=1e-8 * (np.abs(want[i]) @ np.abs(d)).max(initial=1e-300))
    for bad in (np.ones(m + 1), np.ones((m + 2, 2)), np.ones(())):
        c.raises(ValueError, lambda bad=bad: glass.multi_plane_weights(c.a(bad), shells, cosmo), "weights of the wrong shape")
    c.note(n=m, kind=kind, Ok=cosmo.Ok)
    c.key(c.bk, m, kind, extra, cosmo.Ok)


@case(PID, q=20, t=200)
def curved(c):
    """The recurrence with strong curvature and many planes."""
    r = c.r
    cosmo = Cosmo(Om=float(r.uniform(0.2, 0.5)), Ok=float(r.choice([-0.4, 0.5])), h=0.7, xp=None)
    s = Sim(c, cosmo, (7,))
    for z in np.cumsum(r.uniform(0.02, 0.12, 25)):
        s.step(float(z))
    c.key(cosmo.Ok, c.idx)
