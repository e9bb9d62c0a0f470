"""C38: the chain from target spectra to simulated fields has the target statistics.

The whole documented pipeline (fields, Gaussian spectra, discretisation, generate) runs
on probing variates.  From the maps that come out, the linear response of the underlying
Gaussian fields is recovered, which gives the exact first and second moments of the
*transformed* maps; they are compared with the correlation function of the target spectra.
"""

import warnings

import numpy as np

from .. import datapath
from ..core import case
from ..rngs import ProbeRNG
from .c01 import order
from .c03 import cond_ok, cosangles, pixel_cov

PID = "C38"


def forward(m1, m2, g):
    """Correlation of transformed fields from the Gaussian one (independent of glass)."""
    if m1.kind == "squared":
        return m1.lam * m2.lam * (2 * g**2 + 4 * m1.a * m2.a * g)
    if m1.kind == m2.kind == "lognormal":
        return m1.lam * m2.lam * np.expm1(g)
    return g * np.prod([m.lam for m in (m1, m2) if m.kind == "lognormal"])


def targets(r, lmax, models):
    """Gaussian spectra up to lmax, and those of the transformed fields up to where they vanish."""
    n = len(models)
    top = 3 * lmax
    ell = np.arange(lmax + 1)
    base = np.exp(-ell * r.uniform(11, 14) / lmax)
    base /= np.sum((2 * ell + 1) / (4 * np.pi) * base)
    A = np.tril(r.normal(size=(n, n)) * 0.6, -1) + np.diag(r.uniform(0.5, 1, size=n))
    A = A @ A.T
    s2 = r.uniform(0.005, 0.12, size=n)
    A = A / np.sqrt(np.outer(np.diag(A), np.diag(A))) * np.sqrt(np.outer(s2, s2))
    for i, m in enumerate(models):
        m.a = np.sqrt(1 - s2[i])
    G = A * base[:, None, None]
    x, w = np.polynomial.legendre.leggauss(2 * top)
    P = np.polynomial.legendre.legvander(x, top)  # P_l(x)
    xi = P[:, : lmax + 1] @ ((2 * ell + 1) / (4 * np.pi) * base)
    cls = [2 * np.pi * P.T @ (w * forward(models[i], models[j], A[i, j] * xi)) for i, j in order(n)]
    return G, cls


class Model:
    """A transformation as observed: zero response, inverse, moments."""

    def __init__(self, kind, lam):
        self.kind, self.lam = kind, lam

    def zero(self, f0):
        self.f0 = f0

    def x(self, f):
        if self.kind == "normal":
            return f - self.f0
        if self.kind == "lognormal":
            return np.log((f + self.lam) / (self.f0 + self.lam))
        return np.sqrt(self.f0 / self.lam + 1) - np.sqrt(f / self.lam + 1)

    def moments(self, s):
        """Mean of the field for pixel variances s."""
        if self.kind == "normal":
            return self.f0
        if self.kind == "lognormal":
            return (self.f0 + self.lam) * np.exp(s / 2) - self.lam
        return self.lam * (self.f0 / self.lam + s)  # a^2 + s - 1


def second(m1, m2, s1, s2, s12):
    """E[F1 F2] for Gaussian covariances (pixel variances s1, s2 as column and row)."""
    if m1.kind == "squared":
        a1, a2 = m1.f0[:, None] / m1.lam + 1, m2.f0[None] / m2.lam + 1
        q1, q2 = a1 + s1, a2 + s2
        both = q1 * q2 + 2 * s12**2 + 4 * np.sqrt(a1 * a2) * s12
        return m1.lam * m2.lam * (both - q1 - q2 + 1)
    kinds = (m1.kind, m2.kind)
    b1, b2 = m1.f0[:, None] + m1.lam, m2.f0[None] + m2.lam
    if kinds == ("lognormal", "lognormal"):
        both = b1 * b2 * np.exp(s1 / 2 + s2 / 2 + s12)
        return both - m2.lam * b1 * np.exp(s1 / 2) - m1.lam * b2 * np.exp(s2 / 2) + m1.lam * m2.lam
    if kinds == ("normal", "normal"):
        return s12
    if kinds == ("lognormal", "normal"):
        return b1 * np.exp(s1 / 2) * s12
    return b2 * np.exp(s2 / 2) * s12


def drive(c, n, lmax, nside, kind, how, tol):
    import glass

    r = c.r
    if kind == "squared":
        models = [Model("squared", float(r.uniform(0.4, 1.0))) for _ in range(n)]
    else:
        kinds = {"lognormal": ["lognormal"] * n, "normal": ["normal"] * n, "mixed": [["lognormal", "normal"][int(v)] for v in r.integers(0, 2, size=n)]}[kind]
        models = [Model(k, float(r.uniform(0.5, 2)) if k == "lognormal" else 0.0) for k in kinds]
    G, cls = targets(r, lmax, models)
    make = dict(
        normal=lambda m: glass.grf.Normal(), lognormal=lambda m: glass.grf.Lognormal(m.lam), squared=lambda m: glass.grf.SquaredNormal(float(m.a), m.lam)
    )
    fl = [make[m.kind](m) for m in models]
    ncorr = n - 1 if r.random() < 0.6 else int(r.integers(0, n))
    if not cond_ok(G, ncorr):
        ncorr = n - 1
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        solver = glass.compute_gaussian_spectra if how == "compute" else glass.solve_gaussian_spectra
        # the Gaussian spectra may be cut further, smoothed, and their options given in any combination
        keep, window = lmax, None
        if kind != "squared" and r.random() < 0.5:
            keep = int(r.integers(2, lmax + 1))
        opts = dict(lmax=keep, ncorr=ncorr)
        if kind != "squared" and r.random() < 0.4:
            opts["nside"] = max(4, 1 << (keep // 3).bit_length())
            window = datapath.make([opts["nside"]], c.idx % 3)[opts["nside"]][0]
        gls = glass.discretized_cls(solver(fl, [c.a(x) for x in cls]), **opts)
        G = np.array(G)
        G[keep + 1 :] = 0
        if window is not None:
            top = min(window.size, 3 * opts["nside"])
            c.check(all(g.shape[0] in (0, min(keep + 1, window.size), min(keep + 1, top)) for g in gls), "length of windowed spectra", got=[g.shape for g in gls], keep=keep)
            window = np.append(window, np.zeros(max(0, lmax + 1 - window.size)))[: lmax + 1]
            G *= window[:, None, None] ** 2

    def maps(hot):
        rng = ProbeRNG(hot)
        return rng, [np.array(c.n(m)) for m in glass.generate(fl, gls, nside, ncorr=ncorr, rng=rng)]

    rng, zero = maps(None)
    c.check(len(zero) == n, f"{len(zero)} maps for {n} fields")
    for m, z in zip(models, zero):
        m.zero(z)
    R = np.zeros((n, 12 * nside**2, rng.used))
    for k in range(rng.used):
        for i, m in enumerate(maps(k)[1]):
            R[i, :, k] = models[i].x(m)
    c.event("variates_probed", rng.used)
    ca = cosangles(nside)
    var = [np.einsum("pk,pk->p", R[i], R[i]) for i in range(n)]
    sd = [np.sqrt(forward(m, m, np.sum((2 * np.arange(lmax + 1) + 1) / (4 * np.pi) * G[:, i, i]))) for i, m in enumerate(models)]
    for i in range(n):
        c.close(models[i].moments(var[i]), np.zeros(var[i].size), f"mean of field {i} ({models[i].kind}, {how})", rtol=0, atol=tol * sd[i])
        for j in range(i + 1):
            if i - j > ncorr:
                continue
            got = second(models[i], models[j], var[i][:, None], var[j][None], R[i] @ R[j].T)
            want = forward(models[i], models[j], pixel_cov(G[:, i, j], ca))
            c.close(got, want, f"covariance of fields ({i}, {j}) ({models[i].kind}, {models[j].kind}; {how})", rtol=0, atol=tol * sd[i] * sd[j], ncorr=ncorr)
            c.event("field_pairs")
    c.key(n, lmax, keep, window is not None, nside, kind, how, ncorr)
    c.note(n=n, keep=keep, smoothed=window is not None, lmax=lmax, nside=nside, kind=kind, how=how, ncorr=ncorr)


@case(PID, q=24, t=400, backends=("np", "np", "np"), steps=60_000_000)
def computed(c):
    """With spectra from compute_gaussian_spectra()."""
    r = c.r
    kind = ["lognormal", "mixed", "lognormal", "squared", "normal", "mixed"][c.idx % 6]
    n = int(r.integers(1, 4))
    drive(c, n, int(r.integers(12, 22 if n < 3 else 16)), int(r.choice([1, 2])), kind, "compute", 1e-7)


@case(PID, q=12, t=200, backends=("np", "np", "np"), steps=60_000_000)
def solved(c):
    """With spectra from solve_gaussian_spectra(), to its tolerance."""
    r = c.r
    kind = ["lognormal", "mixed", "lognormal"][c.idx % 3]
    n = int(r.integers(1, 3))
    drive(c, n, int(r.integers(12, 20)), int(r.choice([1, 2])), kind, "solve", 1e-4)
