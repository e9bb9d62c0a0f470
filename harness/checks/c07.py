"""C07: regularised covariances are valid and as close as possible."""

import warnings

import numpy as np

from ..core import case
from .c01 import order

PID = "C07"


def matrix(r, n, kind):
    """Symmetric matrix of the given kind."""
    q, _ = np.linalg.qr(r.normal(size=(n, n)))
    if kind == "valid":
        w = r.uniform(0.1, 2, n)
    elif kind == "indefinite":
        w = r.normal(size=n)
    elif kind == "negative":
        w = -r.uniform(0.1, 2, n)
    elif kind == "singular":
        w = np.where(r.random(n) < 0.5, 0.0, r.uniform(0.1, 2, n))
    else:
        w = r.uniform(0.1, 2, n) * 10.0 ** r.uniform(-12, 2, n)
    m = (q * w) @ q.T
    return (m + m.T) / 2


KINDS = ["valid", "indefinite", "negative", "singular", "wide"]


def stack(r, n, dims, kinds=KINDS):
    out = np.zeros(dims + (n, n))
    for i in np.ndindex(dims):
        out[i] = matrix(r, n, str(r.choice(kinds)))
    return out


def dims_of(r):
    return tuple(int(r.integers(1, 4)) for _ in range(int(r.integers(0, 4))))


@case(PID, q=400, t=8000, backends=("np", "strict", "np", "strict", "jax"))
def clipping(c):
    from glass.algorithm import cov_clip

    r = c.r
    n = (int(r.integers(1, 7)) if r.random() < 0.93 else int(r.integers(7, 40))) if c.bk != "jax" else 3
    dims = dims_of(r) if c.bk != "jax" else ((), (2,))[c.idx % 2]
    cov = stack(r, n, dims)
    if c.idx % 3 == 2:  # every matrix at a scale of its own
        cov = cov * 10.0 ** r.uniform(-40, 40, size=dims + (1, 1))
    rtol = None if r.random() < 0.4 else float(r.choice([0.0, 1e-10, 1e-3, 0.1, 0.5, 1.0]))
    got = cov_clip(c.a(cov), rtol=rtol) if rtol is not None else cov_clip(c.a(cov))
    c.is_backend(got, "clipped covariance")
    g = c.n(got)
    c.check(g.shape == cov.shape, f"shape {g.shape} instead of {cov.shape}")
    c.check(np.all(np.isfinite(g)), "non-finite result", n=n, dims=dims)
    rt = n * np.finfo(float).eps if rtol is None else rtol
    for i in np.ndindex(dims):
        w, v = np.linalg.eigh(cov[i])
        floor = rt * max(w[-1], 0.0)
        want = (v * np.maximum(w, floor)) @ v.T
        sc = np.abs(w).max()
        c.close(g[i], want, "clipped covariance", rtol=0, atol=1e-11 * sc, rtol_arg=rtol, eigenvalues=w)
        c.close(g[i], g[i].T, "not symmetric", rtol=0, atol=1e-14 * sc)
        c.check(np.linalg.eigvalsh(g[i])[0] >= -1e-12 * sc, "not positive semi-definite")
    c.note(n=n, dims=dims, rtol=rtol)
    c.key(c.bk, n, dims, rtol)


@case(PID, q=60, t=800, backends=("np", "strict"))
def clipping_range(c):
    """Diagonal matrices of enormous range, where the result is known to the last digits."""
    from glass.algorithm import cov_clip

    r = c.r
    n = int(r.integers(2, 6))
    w = 10.0 ** r.uniform(-25, 25, n) * r.choice([1, 1, 1, -1], n)
    rtol = [None, 0.0, 1e-30, 1e-20, 1e-12, 1e-3][int(r.integers(0, 6))]
    got = c.n(cov_clip(c.a(np.diag(w)), rtol) if rtol is not None or r.random() < 0.5 else cov_clip(c.a(np.diag(w))))
    floor = (n * np.finfo(float).eps if rtol is None else rtol) * max(w.max(), 0.0)
    c.close(np.diag(got), np.maximum(w, floor), "clipped diagonal", rtol=1e-10, atol=0, rtol_arg=rtol, eigenvalues=w)
    c.check(np.count_nonzero(got - np.diag(np.diag(got))) == 0, "off-diagonal entries appear")
    c.key(c.bk, n, rtol)


def dual_gap(A, X):
    """Bound on how far a correlation matrix X is from the nearest one to A.

    The dual problem is max_y  theta(y) = (|A|^2 - |(A + diag y)+|^2) / 2 + sum(y); any y is a lower bound
    of |X - A|^2 / 2.  y is found by maximising the dual with a quasi-Newton method.
    """
    from scipy.optimize import minimize

    n = len(A)

    def f(y):
        w, v = np.linalg.eigh(A + np.diag(y))
        wp = np.maximum(w, 0)
        P = (v * wp) @ v.T
        return 0.5 * (wp**2).sum() - y.sum(), np.diag(P) - 1

    best = minimize(f, np.ones(n) - np.diag(A), jac=True, method="BFGS", options=dict(gtol=1e-11, maxiter=1000))
    lower = 0.5 * (A**2).sum() - best.fun
    return 0.5 * ((X - A) ** 2).sum() - lower, lower


@case(PID, q=120, t=2500, backends=("np", "strict", "np"))
def nearest_correlation(c):
    from glass.algorithm import nearcorr

    r = c.r
    n = int(r.integers(1, 6))
    dims = dims_of(r)
    A = stack(r, n, dims, ["indefinite", "valid", "singular"])
    d = np.sqrt(np.abs(np.diagonal(A, axis1=-2, axis2=-1)) + 0.05)
    A = A / (d[..., :, None] * d[..., None, :])
    if r.random() < 0.7:
        A = A * (1 - np.eye(n)) + np.eye(n)
    tol = None if r.random() < 0.3 else float(r.choice([1e-8, 1e-10]))
    niter = int(r.choice([100, 1000, 3000])) if tol is not None else 100
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        got = nearcorr(c.a(A), tol=tol, niter=niter)
    c.is_backend(got, "nearest correlation")
    g = c.n(got)
    c.check(g.shape == A.shape, f"shape {g.shape} instead of {A.shape}", dims=dims)
    for i in np.ndindex(dims):
        c.same(np.diag(g[i]), np.ones(n), "diagonal is not unity")
        c.close(g[i], g[i].T, "not symmetric", rtol=0, atol=1e-12)
    if any("earest correlation" in str(w.message) for w in rec):
        c.event("not_converged")
    else:
        for i in np.ndindex(dims):
            # the result differs from a positive semi-definite matrix by no more than the tolerance
            off = (n * 2.3e-16 if tol is None else tol) * np.linalg.norm(g[i]) * 1.01 + 1e-14 * n
            c.check(np.linalg.eigvalsh(g[i])[0] >= -off, "further from positive semi-definite than the tolerance", m=A[i], tol=tol)
            gap, lower = dual_gap(A[i], g[i])
            c.check(gap <= 1e-5 * max(1.0, lower), "not the nearest correlation matrix: duality gap", gap=gap, lower=lower, m=A[i], got=g[i])
            c.event("certificates")
    c.note(n=n, dims=dims, tol=tol, niter=niter)
    c.key(c.bk, n, dims, tol, niter)


@case(PID, q=60, t=1200, backends=("np", "strict", "np"))
def truthful(c):
    """Alternating projections followed alongside: the warning comes exactly when they have not settled in time."""
    from glass.algorithm import cov_nearest, nearcorr

    r = c.r
    n = int(r.integers(2, 6))
    dims = dims_of(r)
    A = stack(r, n, dims, ["indefinite", "valid"])
    d = np.sqrt(np.abs(np.diagonal(A, axis1=-2, axis2=-1)) + 0.05)
    A = A / (d[..., :, None] * d[..., None, :])
    A = A * (1 - np.eye(n)) + np.eye(n)
    tol = float(r.choice([1e-2, 1e-3, 1e-5, 1e-8]))
    y, ds, k = A.reshape(-1, n, n), 0.0, 0
    while k < 400:
        k += 1
        w, v = np.linalg.eigh(y - ds)
        x = (v * np.maximum(w, n * 2.3e-16 * np.maximum(w[..., -1:], 0))[..., None, :]) @ np.swapaxes(v, -1, -2)
        ds = x - (y - ds)
        y = x * (1 - np.eye(n)) + np.eye(n)
        if np.all(np.linalg.norm(y - x, axis=(-2, -1)) <= tol * np.linalg.norm(y, axis=(-2, -1))):
            break
    fn = (nearcorr, cov_nearest)[c.idx % 2]
    for niter, want in (k + 2, False), (10 * k, False), (k - 3, True), (k // 2, True), (1, True):
        if niter < 1 or (want and niter > k - 3) or (k >= 400 and not want):
            continue
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            got = c.n(fn(c.a(A), tol=tol, niter=niter))
        said = any(str(niter) in str(w.message) for w in rec)
        c.check(said == want, f"{'no ' * want}warning after {niter} iterations, when {k} are needed", tol=tol, said=[str(w.message) for w in rec])
        c.check(got.shape == A.shape and np.all(np.isfinite(got)), "result of an unfinished iteration")
        c.event("warned" if want else "settled")
    c.key(n, dims, tol, k, c.bk)


@case(PID, q=60, t=800, backends=("np", "strict", "np"))
def stacks_are_independent(c):
    """A stack is regularised like its members one at a time, with tight tolerance."""
    from glass.algorithm import cov_clip, nearcorr

    r = c.r
    n, dims = int(r.integers(2, 5)), tuple(int(v) for v in r.integers(1, 4, size=2))
    A = stack(r, n, dims, ["indefinite"])
    A = A * (1 - np.eye(n)) * 0.7 + np.eye(n)
    whole = c.n(nearcorr(c.a(A), tol=1e-11, niter=4000))
    clip = c.n(cov_clip(c.a(A)))
    for i in np.ndindex(dims):
        c.close(whole[i], c.n(nearcorr(c.a(A[i]), tol=1e-11, niter=4000)), "member of a stack differs from the single matrix", rtol=0, atol=1e-6)
        c.close(clip[i], c.n(cov_clip(c.a(A[i]))), "clipped member of a stack differs", rtol=0, atol=1e-12 * n * 10)
    c.key(n, dims, c.bk)


@case(PID, q=150, t=3000, backends=("np", "strict", "np"))
def covariance_version(c):
    from glass.algorithm import cov_nearest, nearcorr

    r = c.r
    n = int(r.integers(1, 6))
    dims = dims_of(r)
    A = stack(r, n, dims, ["indefinite", "valid"])
    A = A * (1 - np.eye(n)) + np.eye(n) * np.abs(np.diagonal(A, axis1=-2, axis2=-1))[..., None, :]
    A = A * 10.0 ** r.uniform(-6, 6, size=dims + (1, 1))
    if c.idx % 3 == 2:
        sd = 10.0 ** (r.uniform(-25, 25) + r.uniform(-3, 3, size=dims + (n,)))
        A = A * sd[..., :, None] * sd[..., None, :]
    dead = r.random(dims + (n,)) < 0.15
    if dead.any():
        live = ~dead
        A = A * live[..., :, None] * live[..., None, :]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = cov_nearest(c.a(A), tol=1e-10, niter=500)
    c.is_backend(got, "nearest covariance")
    g = c.n(got)
    c.check(g.shape == A.shape, f"shape {g.shape} instead of {A.shape}")
    diag = np.diagonal(A, axis1=-2, axis2=-1)
    c.close(np.diagonal(g, axis1=-2, axis2=-1), diag, "diagonal not kept", rtol=1e-12)
    sd = np.sqrt(diag)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        norm = np.where(sd > 0, sd, 1.0)
        corr = c.n(nearcorr(c.a(A / np.where(sd[..., :, None] * sd[..., None, :] > 0, norm[..., :, None] * norm[..., None, :], 1.0)), tol=1e-10, niter=500))
    unit = np.where(sd > 0, sd, 1.0)
    unit = unit[..., :, None] * unit[..., None, :]
    c.close(g / unit, corr * ((sd[..., :, None] > 0) & (sd[..., None, :] > 0)), "covariance is not the rescaled nearest correlation", rtol=1e-7, atol=1e-7)
    if not rec:
        for i in np.ndindex(dims):
            c.check(np.linalg.eigvalsh(g[i] / unit[i])[0] >= -1e-6, "not positive semi-definite", m=A[i])
            if np.all(diag[i] > 0):
                s = sd[i][:, None] * sd[i][None, :]
                gap, lower = dual_gap(A[i] / s, g[i] / s)
                c.check(gap <= 1e-5 * max(1.0, lower), "correlation not the nearest one", gap=gap)
                c.event("certificates")
    c.key(c.bk, n, dims)


@case(PID, q=60, t=500, backends=("np", "strict"))
def already_valid(c):
    """Valid matrices come back unchanged."""
    from glass.algorithm import cov_clip, cov_nearest, nearcorr

    r = c.r
    n, dims = int(r.integers(1, 7)), dims_of(r)
    A = stack(r, n, dims, ["valid"]) * float(10 ** r.uniform(*((-3, 3) if c.idx % 2 else (-40, 40))))
    sc = np.abs(A).max()
    c.close(cov_clip(c.a(A)), A, "valid covariance changed by clipping", rtol=0, atol=1e-12 * sc)
    c.close(cov_nearest(c.a(A)), A, "valid covariance changed by cov_nearest", rtol=0, atol=1e-12 * sc)
    d = np.sqrt(np.diagonal(A, axis1=-2, axis2=-1))
    R = A / d[..., :, None] / d[..., None, :]
    c.close(nearcorr(c.a(R)), R, "valid correlation changed", rtol=0, atol=1e-12)
    c.key(c.bk, n, dims)


@case(PID, q=200, t=4000, backends=("np", "strict", "np"))
def spectra(c):
    """Regularised spectra: per mode, in standard order, of the right length."""
    import glass
    from glass.algorithm import cov_clip, cov_nearest

    r = c.r
    n = int(r.integers(1, 6))
    L = int(r.integers(1, 8))
    lmax = None if r.random() < 0.5 else int(r.integers(0, 12))
    if r.random() < 0.05:  # as many modes as a survey has
        n, L = int(r.integers(1, 4)), int(r.integers(500, 4500))
        lmax = None if r.random() < 0.5 else int(r.integers(L // 2, 2 * L))
    cov = stack(r, n, (L,), ["indefinite", "valid", "wide"] if r.random() < 0.75 else ["valid"])
    ragged = 0.7 if r.random() < 0.75 else 1.0
    cov = cov * (1 - np.eye(n)) + np.eye(n) * np.abs(np.diagonal(cov, axis1=-2, axis2=-1))[..., None, :]
    scale = 10.0 ** float(r.uniform(-25, 4)) if c.idx % 2 else 1.0  # from matter to convergence at large mode numbers
    cov = cov * scale
    cls = [cov[: L if i == j or r.random() < ragged else int(r.integers(0, L)), i, j].copy() for i, j in order(n)]
    k = max(x.size for x in cls) if lmax is None else lmax + 1
    full = np.zeros((k, n, n))
    for (i, j), x in zip(order(n), cls):
        m = min(k, x.size)
        full[:m, i, j] = full[:m, j, i] = x[:m]
    method = str(r.choice(["nearest", "clip", "default"]))
    kw = {}
    if method == "clip" and r.random() < 0.6:
        kw["rtol"] = float(r.choice([1e-8, 0.01, 0.3]))
    if method != "clip" and r.random() < 0.6:
        kw = dict(tol=float(r.choice([1e-9, 1e-3, 0.0])), niter=int(r.choice([300 if L < 100 else 30, 300 if L < 100 else 30, 0, 1, 3])))
        if kw["tol"] == 0.0 and kw["niter"] == 300:
            kw["niter"] = 20
    kwargs = dict(kw) if method == "default" else dict(kw, method=method)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        got = glass.regularized_spectra([c.a(x) for x in cls], lmax=lmax, **kwargs)
        said = len(rec)
        want = c.n((cov_clip if method == "clip" else cov_nearest)(c.a(full), **kw))
    c.check(len(rec) == 2 * said, f"{said} warnings of regularised spectra, {len(rec) - said} of the matrices", kw=kw)
    c.check(len(got) == len(cls), f"{len(got)} spectra from {len(cls)}")
    for (i, j), g in zip(order(n), got):
        c.is_backend(g, "spectrum")
        c.close(g, want[:, i, j], f"regularised spectrum ({i}, {j})", rtol=1e-9, atol=1e-9 * scale, method=method, lmax=lmax)
    if method == "clip":
        again = np.zeros((k, n, n))
        for (i, j), g in zip(order(n), got):
            again[:, i, j] = again[:, j, i] = c.n(g)
        c.check(np.linalg.eigvalsh(again).min() >= -1e-11 * max(scale, np.abs(again).max()), "clipped spectra not positive semi-definite")
    c.note(n=n, L=L, lmax=lmax, method=method)
    c.key(c.bk, n, L, lmax, method)


@case(PID, q=100, t=1500, backends=("np", "strict", "jax"))
def posdef_test(c):
    """check_posdef_spectra agrees with an independent eigenvalue test away from the boundary."""
    import glass

    r = c.r
    n = int(r.integers(1, 5))
    L = int(r.integers(1, 6))
    cov = stack(r, n, (L,), ["valid"])
    want = True
    if r.random() < 0.5:
        ell = int(r.integers(0, L))
        w = r.uniform(0.1, 2, n)
        w[int(r.integers(0, n))] *= -1
        q, _ = np.linalg.qr(r.normal(size=(n, n)))
        cov[ell] = (q * w) @ q.T
        want = False
    if c.idx % 3 == 2:
        cov = cov * 10.0 ** r.uniform(-40, 40, size=(L, 1, 1))
    got = glass.check_posdef_spectra([c.a(cov[:, i, j].copy()) for i, j in order(n)])
    c.check(bool(got) == want, f"check_posdef_spectra says {bool(got)}, expected {want}", cov=cov)
    c.key(c.bk, n, L, want)


@case(PID, q=40, t=300, backends=("np", "strict"))
def refusals(c):
    import glass
    from glass.algorithm import cov_nearest, nearcorr

    r = c.r
    n = int(r.integers(2, 5))
    dims = dims_of(r)
    c.raises(ValueError, lambda: nearcorr(c.a(np.ones(dims + (n, n + 1)))), "non-square matrix")
    A = np.zeros(dims + (n, n)) + np.eye(n)
    A.reshape(-1, n, n)[int(r.integers(0, A.size // n**2)), 1, 1] = -float(r.uniform(1e-9, 1))
    if c.idx % 2:
        A *= 10.0 ** float(r.uniform(-40, 40))
    c.raises(ValueError, lambda: cov_nearest(c.a(A)), "negative diagonal")
    c.raises(ValueError, lambda: glass.regularized_spectra([c.a(np.ones(3))], method=str(r.choice(["", "Nearest", "cilp", "none"]))), "unknown method")
    c.key(n, dims, c.bk)
