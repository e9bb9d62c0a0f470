"""C26: lensing maps are the spin harmonic transforms of convergence."""

import itertools

import healpy
import numpy as np

from .. import datapath
from ..core import case

PID = "C26"
NSIDES = [1, 2, 4, 8, 16]
JB = ("np", "strict", "np") * 8 + ("jax",)


def band_limited(r, nside, lmax):
    """A map, and the alm that the library is going to see."""
    npix = 12 * nside**2
    k = int(r.integers(0, 4))
    if k == 0:
        return r.normal(size=npix)
    n = healpy.Alm.getsize(lmax)
    alm = r.normal(size=n) + 1j * r.normal(size=n)
    alm[: lmax + 1] = alm[: lmax + 1].real
    if k == 1:  # single multipole
        ell, _ = healpy.Alm.getlm(lmax)
        alm[ell != int(r.integers(0, lmax + 1))] = 0
    m = healpy.alm2map(alm, nside, lmax=lmax)
    return m if k < 3 else m + 100.0


def alms(kappa, lmax):
    """Harmonic coefficients with the pixel weights of the data directory (unit weights)."""
    return healpy.map2alm(kappa, lmax=lmax, pol=False, iter=0, use_weights=False)


def transform(kappa, nside, lmax, win, discretized):
    import os

    ell = np.arange(lmax + 1.0)
    alm = healpy.map2alm(kappa, lmax=lmax, pol=False, use_pixel_weights=True, datapath=os.environ["HEALPY_DATAPATH"])
    zero = np.zeros_like(alm)
    f = np.zeros(lmax + 1)
    f[1:] = -2 / (ell[1:] * (ell[1:] + 1))
    psi = healpy.almxfl(alm, f)
    al = healpy.almxfl(psi, np.sqrt(ell * (ell + 1)))
    a = healpy.alm2map_spin([al, zero], nside, 1, lmax)
    g = np.zeros(lmax + 1)
    g[1:] = -np.sqrt((ell[1:] - 1) * (ell[1:] + 2) / (ell[1:] * (ell[1:] + 1)))
    if discretized:
        g = g * win[1][: lmax + 1] / win[0][: lmax + 1]
    gam = healpy.alm2map_spin([healpy.almxfl(alm, g), zero], nside, 2, lmax)
    return healpy.alm2map(psi, nside, lmax=lmax), a[0] + 1j * a[1], gam[0] + 1j * gam[1]


def setup(c):
    r = c.r
    variant = int(r.integers(0, 3))
    nside = int(r.choice(NSIDES)) if c.bk != "jax" else 4
    if c.bk == "np" and r.random() < 0.04:
        nside = int(r.choice([32, 64, 64, 128]))
    win = datapath.make(sorted({*NSIDES, nside}), variant)
    lmax = None if r.random() < 0.4 else int(r.integers(2, 3 * nside + 1))
    if c.bk == "jax":
        lmax = [None, 7][c.idx % 2]
    eff = 3 * nside - 1 if lmax is None else lmax
    kappa = band_limited(r, nside, max(2, min(eff, 3 * nside - 1)))
    return win[nside], nside, lmax, eff, kappa


@case(PID, q=300, t=6000, backends=JB)
def all_options(c):
    import glass

    r = c.r
    win, nside, lmax, eff, kappa = setup(c)
    disc = bool(r.random() < 0.6)
    psi, alpha, gamma = transform(kappa, nside, eff, win, disc)
    want = dict(potential=psi, deflection=alpha, shear=gamma)
    size = {k: np.abs(v).max() + 1e-12 * np.abs(kappa).max() for k, v in want.items()}
    for flags in itertools.product((False, True), repeat=3):
        if r.random() < 0.4 and not all(flags):
            continue
        kw = {k: f for k, f in zip(want, flags) if f or r.random() < 0.5}
        if not disc or r.random() < 0.5:
            kw["discretized"] = disc
        arr = c.a(kappa)
        res = glass.from_convergence(arr, lmax, **kw) if r.random() < 0.5 else glass.from_convergence(arr, lmax=lmax, **kw)
        c.check(isinstance(res, tuple) and len(res) == sum(flags), f"{len(res)} maps returned for {flags}")
        for (name, f), got in zip([x for x in zip(want, flags) if x[1]], res):
            c.is_backend(got, name)
            c.close(got, want[name], name, rtol=1e-9, atol=1e-10 * size[name], flags=flags, nside=nside, lmax=lmax, disc=disc)
            c.check((c.n(got).dtype.kind == "c") == (name != "potential"), f"data type of {name}")
        c.same(arr, kappa, "convergence modified")
        c.event("option_sets")
    c.note(nside=nside, lmax=lmax, discretized=disc)
    c.key(c.bk, nside, lmax, disc)


@case(PID, q=200, t=4000)
def shear_function(c):
    import glass

    r = c.r
    win, nside, lmax, eff, kappa = setup(c)
    disc = bool(r.random() < 0.6)
    want = transform(kappa, nside, eff, win, disc)[2]
    fn = glass.shear_from_convergence
    got = fn(c.a(kappa), lmax, discretized=disc)
    size = np.abs(want).max() + 1e-12 * np.abs(kappa).max()
    g1, g2 = c.n(got[0]), c.n(got[1])
    c.close(g1 + 1j * g2, want, "shear", rtol=1e-9, atol=1e-10 * size, nside=nside, lmax=lmax, disc=disc)
    if disc:
        again = fn(c.a(kappa), lmax)
        c.same(again[0], g1, "shear is not discretized by default")
    c.key(c.bk, nside, lmax, disc)


@case(PID, q=80, t=1500, backends=("np", "strict", "np"))
def analytic(c):
    """Known transforms of single modes; no leakage of monopole and dipole."""
    import glass

    r = c.r
    datapath.make(NSIDES, 0)
    nside = int(r.choice([8, 16]))
    lmax = int(r.integers(2, nside + 1))
    n = healpy.Alm.getsize(lmax)
    ell, em = healpy.Alm.getlm(lmax)
    a = r.normal(size=n) + 1j * r.normal(size=n)
    a[em == 0] = a[em == 0].real
    low = healpy.alm2map(np.where(ell < 2, a, 0), nside, lmax=lmax)
    kappa = healpy.alm2map(a, nside, lmax=lmax)
    base = glass.from_convergence(c.a(low), lmax, shear=True, discretized=False)[0]
    c.check(np.abs(c.n(base)).max() < 0.1 * np.abs(low).max(), "monopole or dipole leaks into the shear", leak=np.abs(c.n(base)).max())
    # a pure l mode on a fine grid: psi = -2/(l(l+1)) kappa to quadrature accuracy of the grid
    l1 = int(r.integers(2, max(3, nside // 2)))
    one = healpy.alm2map(np.where(ell == min(l1, lmax), a, 0), nside, lmax=lmax)
    l1 = min(l1, lmax)
    psi = c.n(glass.from_convergence(c.a(one), lmax, potential=True)[0])
    c.check(np.abs(psi + 2 / (l1 * (l1 + 1)) * one).max() < 0.05 * np.abs(one).max() * 2 / (l1 * (l1 + 1)), "potential of a single mode", l=l1)
    # linearity
    x = c.n(glass.from_convergence(c.a(kappa), lmax, shear=True)[0])
    y = c.n(glass.from_convergence(c.a(2 * kappa + 3 * low), lmax, shear=True)[0])
    z = c.n(glass.from_convergence(c.a(low), lmax, shear=True)[0])
    c.close(y, 2 * x + 3 * z, "shear is not linear in the convergence", rtol=1e-8, atol=1e-9 * np.abs(x).max())
    c.key(c.bk, nside, lmax, l1)
