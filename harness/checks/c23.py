"""C23: redshift grids and bins cover exactly the requested range."""

import math
from fractions import Fraction

import numpy as np

from ..core import case
from ..cosmo import random_cosmo

PID = "C23"
JB = ("np", "strict", "np") * 10 + ("jax",)


def decimal_range(r):
    """Range and step with exact decimal meaning."""
    dd = int(r.integers(1, 4))
    step = Fraction(int(r.integers(1, 10**dd)), 10**dd)
    if r.random() < 0.2:
        step = Fraction(1, int(r.choice([3, 7, 9, 11, 13])))
    lo = Fraction(int(r.integers(0, 200)), 100) if r.random() < 0.6 else Fraction(0)
    if r.random() < 0.7:
        k = Fraction(int(r.integers(1, 200)))
    else:
        k = Fraction(int(r.integers(1, 400)), int(r.choice([2, 3, 4, 5, 7])))
    u = r.random()
    if u < 0.01:  # very many steps
        k = Fraction(int(r.integers(50_000, 300_000)))
    elif u < 0.06:  # a range that is longer or shorter than full steps by more than rounding
        k = Fraction(int(r.integers(1, 200)))
        lo, k = Fraction(0), k * (1 + int(r.choice([-1, 1])) * Fraction(1, int(10 ** r.uniform(3, 8.4))))
    return lo, lo + k * step, step, k


def judge(c, g, lo, hi, step, k, msg):
    n = math.ceil(k)
    c.check(g.ndim == 1 and g.size == n + 1, f"{msg}: {g.size - 1} steps instead of {n}", lo=str(lo), hi=str(hi), step=str(step))
    want = float(lo) + np.arange(n + 1) * float(step)
    c.close(g, want, f"{msg}: grid points", rtol=1e-11, atol=1e-13 + 3e-16 * n * (1 + float(lo)))
    c.check(np.all(np.diff(g) > 0), f"{msg}: not increasing")
    tol = 1e-11 * (1 + float(hi)) + 3e-16 * n * (1 + float(lo))
    if k == n:
        c.check(abs(g[-1] - float(hi)) <= tol, f"{msg}: does not end at the maximum", last=g[-1])
    else:
        c.check(g[-2] < float(hi) < g[-1], f"{msg}: only the last step may reach beyond the maximum", last=g[-2:])


@case(PID, q=900, t=30000, backends=JB)
def redshift_steps(c):
    import glass

    r = c.r
    lo, hi, step, k = decimal_range(r)
    if c.bk == "np" and r.random() < 0.5:
        g = glass.redshift_grid(float(lo), float(hi), dz=float(step))
    else:
        g = glass.redshift_grid(float(lo), float(hi), dz=float(step), xp=c.xp)
    c.is_backend(g, "grid")
    judge(c, c.n(g), lo, hi, step, k, "redshift_grid")
    c.note(lo=str(lo), hi=str(hi), step=str(step))
    c.key(c.bk, str(lo), str(hi), str(step))


@case(PID, q=250, t=5000, backends=JB)
def redshift_num(c):
    import glass

    r = c.r
    lo = float(r.choice([0.0, r.uniform(0, 2)]))
    hi = lo + float(r.uniform(0.01, 5))
    num = int(r.integers(1, 300)) if r.random() < 0.97 else int(r.integers(300, 300_000))
    g = glass.redshift_grid(lo, hi, num=num, xp=c.xp)
    c.is_backend(g, "grid")
    g = c.n(g)
    c.check(g.shape == (num + 1,), f"{g.size - 1} steps instead of {num}")
    c.check(g.dtype == np.float64, f"data type {g.dtype}")
    c.close(g, lo + (hi - lo) * np.arange(num + 1) / num, "grid points", rtol=1e-11, atol=1e-14)
    c.check(g[0] == lo and g[-1] == hi, "end points", ends=(g[0], g[-1]))
    c.key(c.bk, num)


@case(PID, q=160, t=3000, backends=JB)
def distances(c):
    import glass

    r = c.r
    cosmo = random_cosmo(r, xp=c.xp)
    lo = float(r.choice([0.0, r.uniform(0, 1)]))
    hi = lo + float(r.uniform(0.1, 3))
    x0, x1 = float(cosmo.chi(lo)), float(cosmo.chi(hi))
    kind = int(r.integers(0, 3))
    if kind == 0:
        num = int(r.integers(1, 60))
        g = glass.distance_grid(cosmo, lo, hi, num=num)
        want = x0 + (x1 - x0) * np.arange(num + 1) / num
    elif kind == 1:
        num = int(r.integers(1, 60))
        g = glass.distance_grid(cosmo, lo, hi, dx=(x1 - x0) / num)
        want = x0 + (x1 - x0) * np.arange(num + 1) / num
    else:
        k = float(r.integers(1, 40)) + float(r.uniform(0.05, 0.95))
        k = k if cosmo.chi(hi) + (x1 - x0) / k < 1.15 * cosmo.chi(hi) or k > 8 else 8.4
        g = glass.distance_grid(cosmo, lo, hi, dx=(x1 - x0) / k)
        want = x0 + (x1 - x0) / k * np.arange(math.ceil(k) + 1)
    c.is_backend(g, "grid")
    g = c.n(g)
    c.check(g.shape == want.shape, f"{g.size} grid points instead of {want.size}", kind=kind)
    c.close(cosmo.chi(g), want, "comoving distances of the grid", rtol=1e-9, atol=1e-7)
    c.check(np.all(np.diff(g) > 0), "not increasing")
    c.close(g[0], np.float64(lo), "first redshift", atol=1e-9)
    if kind < 2:
        c.close(g[-1], np.float64(hi), "last redshift", atol=1e-9)
    else:
        c.check(g[-2] < hi < g[-1], "only the last step may reach beyond the maximum")
    c.key(c.bk, kind, len(want), cosmo.Ok)


def edges(c, bins, msg):
    c.check(isinstance(bins, list) and all(isinstance(b, tuple) and len(b) == 2 for b in bins), f"{msg}: not a list of pairs")
    lo = np.array([float(c.n(b[0])) for b in bins])
    hi = np.array([float(c.n(b[1])) for b in bins])
    c.same(lo[1:], hi[:-1], f"{msg}: bins are not contiguous")
    return np.append(lo, hi[-1])


@case(PID, q=600, t=15000, backends=JB)
def fixed(c):
    import glass

    r = c.r
    if r.random() < 0.6:
        lo, hi, step, k = decimal_range(r)
        bins = glass.fixed_zbins(float(lo), float(hi), dz=float(step), xp=c.xp)
        judge(c, edges(c, bins, "fixed_zbins"), lo, hi, step, k, "fixed_zbins")
        c.key(c.bk, str(lo), str(hi), str(step))
    else:
        lo = float(r.choice([0.0, r.uniform(0, 2)]))
        hi = lo + float(r.uniform(0.01, 5))
        n = int(r.integers(1, 50)) if r.random() < 0.9 else int(r.integers(50, 2000))
        bins = glass.fixed_zbins(lo, hi, nbins=n, xp=c.xp) if c.bk != "np" or r.random() < 0.5 else glass.fixed_zbins(lo, hi, nbins=n)
        c.check(len(bins) == n, f"{len(bins)} bins instead of {n}")
        e = edges(c, bins, "fixed_zbins")
        c.close(e, lo + (hi - lo) * np.arange(n + 1) / n, "bin edges", rtol=1e-11, atol=1e-14)
        c.check(e[0] == lo and e[-1] == hi, "bins do not span the range")
        c.key(c.bk, n)


@case(PID, q=400, t=10000, backends=JB)
def equal_density(c):
    import glass

    r = c.r
    jx = c.bk == "jax"
    m = int(r.integers(2, 60)) if not jx else 20
    z = np.unique(np.concatenate([[float(r.choice([0.0, 0.3]))], 0.3 + np.cumsum(r.uniform(0.001, 0.2, m - 1))]))
    nz = r.uniform(0.01, 2, z.size)
    kind = int(r.integers(0, 4))
    if kind == 1:  # zero stretches inside and at the ends
        nz = nz * (r.random(z.size) < 0.4)
    elif kind == 2:
        nz[: z.size // 3] = 0
    elif kind == 3:
        nz = z**2 * np.exp(-((z / 0.5) ** 1.5))
    if not (nz[1:] + nz[:-1]).sum() > 0:
        nz[:] = 1
    nz = nz * float(10 ** r.uniform(-3, 3))
    n = int(r.integers(1, 12)) if not jx else 5
    bins = glass.equal_dens_zbins(c.a(z), c.a(nz), n)
    c.check(len(bins) == n, f"{len(bins)} bins instead of {n}")
    e = edges(c, bins, "equal_dens_zbins")
    c.check(np.all(np.diff(e) > 0), "edges are not increasing", edges=e)
    c.check(e[0] >= z[0] and e[-1] <= z[-1], "bins beyond the distribution")
    cum = np.concatenate([[0.0], np.cumsum((nz[1:] + nz[:-1]) / 2 * np.diff(z))])
    cum /= cum[-1]
    c.close(np.interp(e, z, cum), np.arange(n + 1) / n, "probability of the bins", atol=1e-9, rtol=0, kind=kind)
    if np.all(cum[1:] > 0) and np.all(cum[:-1] < 1):
        c.close(e[[0, -1]], z[[0, -1]], "bins do not span the distribution", rtol=1e-12)
    c.key(c.bk, kind, z.size, n)


@case(PID, q=60, t=600, backends=("np", "strict", "jax"))
def refusals(c):
    import glass

    r = c.r
    lo, hi = 0.0, float(r.uniform(0.5, 2))
    cosmo = random_cosmo(r, xp=c.xp)
    for both in (True, False):
        kw = dict(num=3) if both else {}
        c.raises(ValueError, lambda: glass.redshift_grid(lo, hi, **(dict(dz=0.1) | kw if both else {}), xp=c.xp), "both or neither of step and number")
        c.raises(ValueError, lambda: glass.distance_grid(cosmo, lo, hi, **(dict(dx=100.0) | kw if both else {})), "both or neither of step and number")
        c.raises(ValueError, lambda: glass.fixed_zbins(lo, hi, **(dict(dz=0.1, nbins=3) if both else {}), xp=c.xp), "both or neither of step and number")
    c.key(c.bk, c.idx)


@case(PID, q=60, t=2000, backends=("np",))
def decimal_sweep(c):
    """Many decimal ranges at once: those that rounding puts on the wrong side are one in hundreds."""
    import glass

    for _ in range(250):
        lo, hi, step, k = decimal_range(c.r)
        if k.denominator == 1 and c.r.random() < 0.7:
            lo, step, k = Fraction(int(c.r.integers(0, 60)), 100), Fraction(int(c.r.integers(1, 40)), 100), Fraction(int(c.r.integers(1, 60)))
            hi = lo + k * step
        bins = glass.fixed_zbins(float(lo), float(hi), dz=float(step))
        judge(c, np.array([b[0] for b in bins] + [bins[-1][1]]), lo, hi, step, k, "fixed_zbins")
        judge(c, np.asarray(glass.redshift_grid(float(lo), float(hi), dz=float(step))), lo, hi, step, k, "redshift_grid")
        c.event("ranges")
    c.key(c.idx)
