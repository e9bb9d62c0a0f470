"""C09: Gaussian spectra solvers are forward-consistent and truthful."""

import warnings

import numpy as np
import transformcl

from ..core import case
from .c01 import order

PID = "C09"


def forward(t1, t2, gl, pad):
    import glass.grf as grf

    return transformcl.corrtocl(grf.corr(t1, t2, transformcl.cltocorr(np.pad(gl, (0, pad)))))


def relerr(rl, cl, monopole):
    d = rl[: cl.size] - cl
    if monopole is not None:
        d[0] = 0
    out = np.zeros(cl.size)
    nz = d != 0
    with np.errstate(all="ignore"):
        out[nz] = d[nz] / cl[nz]
    return np.abs(out).max()


def target(r, n, kind):
    ell = np.arange(n)
    if kind == "steep":
        return 0.05 * (ell + 1.0) ** -float(r.uniform(2, 3.5))
    if kind == "flat":
        return np.full(n, float(r.uniform(1e-4, 3e-3)))
    if kind == "noisy":
        return 0.02 * (ell + 1.0) ** -2 * np.exp(0.3 * r.normal(size=n))
    if kind == "cross":
        return 0.01 * (ell + 1.0) ** -2 * np.cos(ell / 3.0)
    if kind == "infeasible":
        return r.normal(size=n)
    if kind == "zeros":
        cl = 0.02 * (ell + 1.0) ** -2
        cl[r.random(n) < 0.2] = 0
        return cl
    raise KeyError(kind)


def transforms(r):
    import glass.grf as grf

    k = int(r.integers(0, 6))
    if k == 0:
        return grf.Normal(), None
    if k == 1:
        return grf.Lognormal(float(r.choice([1.0, 0.5, 2.0]))), None
    if k == 2:
        return grf.Lognormal(float(r.uniform(0.3, 2))), grf.Lognormal(float(r.uniform(0.3, 2)))
    if k == 3:
        return grf.Normal(), grf.Lognormal(float(r.uniform(0.3, 2)))
    if k == 4:
        return grf.Lognormal(float(r.uniform(0.3, 2))), grf.Normal()
    return grf.SquaredNormal(float(r.uniform(0.7, 0.99)), float(r.choice([1.0, 0.6]))), None


@case(PID, q=400, t=8000, backends=("np", "np", "strict", "np", "jax"), steps=5_000_000)
def forward_consistency(c):
    import glass.grf as grf

    r = c.r
    n = int(r.integers(1, 40)) if c.idx % 8 != 5 else int(r.integers(60, 300))
    t1, t2 = transforms(r)
    kind = str(r.choice(["steep", "flat", "noisy", "cross", "infeasible", "zeros"], p=[0.25, 0.15, 0.2, 0.15, 0.15, 0.1]))
    cl = target(r, n, kind)
    kw = dict(pad=int(r.choice([0, 1, n, 2 * n, 5])))
    if r.random() < 0.4:
        kw["maxiter"] = int(r.choice([0, 1, 2, 3, 5, 50]))
    if r.random() < 0.4:
        kw["cltol"] = float(r.choice([1e-2, 1e-5, 1e-8, 0.0]))
    if r.random() < 0.4:
        kw["gltol"] = float(r.choice([1e-2, 1e-5, 1e-9, 0.0]))
    mono = None
    if r.random() < 0.4:
        mono = kw["monopole"] = float(r.choice([0.0, 1e-3, 0.02]))
    init = None
    if r.random() < 0.3:
        init = 0.01 * (np.arange(int(r.choice([1, n // 2 + 1, n, n + 4]))) + 1.0) ** -2
        kw["initial"] = c.a(init)
    c.note(kind=kind, n=n, t1=repr(t1), t2=repr(t2), **{k: v for k, v in kw.items() if k != "initial"})
    calls = [0]

    class Counting:
        """Counts solver iterations through the derivative rule."""

        def __init__(self, t):
            self.t = t

        def corr(self, other, x, /):
            return grf.corr(self.t, other.t, x)

        def icorr(self, other, x, /):
            return grf.icorr(self.t, other.t, x)

        def dcorr(self, other, x, /):
            calls[0] += 1
            return grf.dcorr(self.t, other.t, x)

    w1, w2 = Counting(t1), Counting(t2 if t2 is not None else t1)
    gl, rl, info = grf.solve(c.a(cl), w1, *([] if t2 is None else [w2]), **kw)
    c.is_backend(gl, "Gaussian spectrum")
    c.is_backend(rl, "realised spectrum")
    gl, rl = c.n(gl), c.n(rl)
    t2 = t1 if t2 is None else t2
    c.check(gl.shape == (n,), f"Gaussian spectrum has shape {gl.shape} instead of ({n},)")
    c.check(rl.shape == (n + kw["pad"],), f"realised spectrum has shape {rl.shape} instead of ({n + kw['pad']},)")
    with np.errstate(all="ignore"):
        want = forward(t1, t2, gl, kw["pad"])
    if np.all(np.isfinite(want)):
        c.close(rl, want, "realised spectrum is not the transformed Gaussian spectrum", rtol=1e-9, atol=1e-11 * np.abs(want).max())
    info = int(info)
    c.check(0 <= info <= 3, f"status {info}")
    cltol, gltol, maxiter = kw.get("cltol", 1e-5), kw.get("gltol", 1e-5), kw.get("maxiter", 20)
    err = relerr(rl.copy(), cl, mono)
    if info & 1:
        c.check(err <= cltol * (1 + 1e-6) + 1e-12, "status claims convergence of the spectrum, but a mode exceeds the tolerance", err=err, cltol=cltol, info=info)
    elif np.isfinite(err):
        c.check(err > cltol * (1 - 1e-6) - 1e-12, "tolerance met, but status does not say so", err=err, calls=calls[0], info=info)
    if np.isfinite(err) and calls[0] < maxiter and info == 0:
        # stopped early without any criterion: only right if no step is possible
        gt = transformcl.cltocorr(np.pad(gl, (0, kw["pad"])))
        fl = want[:n] - cl
        if mono is not None:
            fl[0] = 0
        with np.errstate(all="ignore"):
            xl = -transformcl.corrtocl(transformcl.cltocorr(np.pad(fl, (0, kw["pad"]))) / grf.dcorr(t1, t2, gt))[:n]
            if mono is not None:
                xl[0] = 0
        c.check(not np.all(np.isfinite(xl)) or not np.all(np.isfinite(c.n(rl))), "gave up before maxiter although a step was possible", calls=calls[0], maxiter=maxiter)
    c.check(calls[0] <= maxiter, f"{calls[0]} iterations, at most {maxiter} allowed")
    if mono is not None:
        c.check(gl[0] == mono, f"monopole {gl[0]} instead of the fixed {mono}")
    # start of the iteration, recomputed
    with np.errstate(all="ignore"):
        if init is None:
            g0 = transformcl.corrtocl(grf.icorr(t1, t2, transformcl.cltocorr(cl)))
        else:
            g0 = np.zeros(n)
            g0[: init.size] = init[:n]
        if mono is not None:
            g0[0] = mono
        e0 = relerr(forward(t1, t2, g0, kw["pad"]), cl, mono)
    if np.isfinite(e0):
        c.check(err <= e0 * (1 + 1e-9) + 1e-13, "residual worse than at the start", start=e0, end=err)
    if maxiter == 0 and np.all(np.isfinite(g0)):
        c.close(gl, g0, "no iterations, but the initial solution is not returned", rtol=1e-10, atol=1e-14)
    c.event("iterations", calls[0])
    c.event(f"info{info}")
    c.key(c.bk, kind, n, info, calls[0])


@case(PID, q=120, t=2000, steps=10_000_000)
def monotone(c):
    """One more iteration never makes the residual worse, and status does not go back; well-behaved targets converge."""
    import glass.grf as grf

    r = c.r
    n = int(r.integers(2, 30))
    t1, t2 = transforms(r)
    t2 = t1 if t2 is None else t2
    kind = str(r.choice(["steep", "flat", "noisy", "cross", "infeasible", "zeros"]))
    cl = target(r, n, kind)
    if kind != "steep" and r.random() < 0.5:
        cl = cl * 10.0 ** r.uniform(-2, 2)
    pad = int(r.choice([0, 2 * n]))
    last = None
    done = None
    for k in range(0, 12):
        gl, rl, info = grf.solve(cl, t1, t2, pad=pad, maxiter=k)
        err = relerr(np.asarray(rl), cl, None)
        if last is not None and np.isfinite(last):
            c.check(err <= last * (1 + 1e-9) + 1e-15, f"residual grew from {last} to {err} in iteration {k}", kind=kind)
        if done is not None:
            c.check(info == done[1] or (info & done[1]) == done[1], "status lost with more iterations")
            c.same(gl, done[0], "result changed after convergence")
        if info and done is None:
            done = (gl, info)
        last = err
    if kind == "steep" and not isinstance(t1, grf.SquaredNormal) and pad == 2 * n:
        c.check(done is not None, "steep spectrum did not converge in 11 iterations", err=last, t1=repr(t1), t2=repr(t2))
    c.key(kind, n, pad, repr(t1)[:12], c.idx)


@case(PID, q=160, t=4000, backends=("np", "np", "strict"), steps=10_000_000)
def realisable(c):
    """A target that some Gaussian spectrum of moderate variance realises is solved to the tolerance."""
    import glass.grf as grf

    r = c.r
    t1, t2 = transforms(r)
    t2 = t1 if t2 is None else t2
    n = int(r.integers(1, 60)) if c.idx % 8 != 5 else int(r.integers(60, 400))
    pad = int(r.choice([0, n, 2 * n]))
    g = (np.arange(n) + 1.0) ** -float(r.uniform(2, 3.5)) * np.exp(0.2 * r.normal(size=n))
    g *= float(10.0 ** r.uniform(-4, 0)) * (0.15 if isinstance(t1, grf.SquaredNormal) else 0.5) / (((2 * np.arange(n) + 1) * g).sum() / 4 / np.pi)
    cl = forward(t1, t2, g, pad)[:n]
    kw = {}
    if r.random() < 0.3:
        kw["monopole"] = float(g[0])
    k = int(r.integers(0, 4))
    if k == 1:
        kw["initial"] = c.a(g[: n // 2 + 1])
    elif k == 2:
        kw["initial"] = c.a(np.zeros(n))
    tol = float(r.choice([1e-3, 1e-5, 1e-7]))
    gl, rl, info = grf.solve(c.a(cl), t1, t2, pad=pad, cltol=tol, gltol=1e-12, **kw)
    err = relerr(c.n(rl).copy(), cl, kw.get("monopole"))
    c.check(int(info) & 1 and err <= tol * (1 + 1e-6), "target realised by a known Gaussian spectrum, but not found", info=int(info), err=err, t1=repr(t1), t2=repr(t2), n=n, pad=pad)
    c.event("solved")
    c.key(c.bk, n, pad, k, tol)


@case(PID, q=100, t=2000, backends=("np", "np", "strict"), steps=10_000_000)
def small_steps(c):
    """The second status bit, from the steps seen between successive numbers of iterations."""
    import glass.grf as grf

    r = c.r
    n = int(r.integers(2, 30))
    t1, t2 = transforms(r)
    t2 = t1 if t2 is None else t2
    kind = str(r.choice(["steep", "flat", "noisy", "cross", "infeasible"]))
    cl = target(r, n, kind)
    pad = int(r.choice([0, n, 2 * n]))
    gltol = float(r.choice([0.5, 1e-2, 1e-4, 1e-6]))
    mono = [None, 0.0, 1e-3][int(r.integers(0, 3))]
    opts = dict(pad=pad, monopole=mono, cltol=0.0)
    prev, _, _ = grf.solve(c.a(cl), t1, t2, maxiter=0, gltol=gltol, **opts)
    prev = c.n(prev)
    for k in range(1, 9):
        # no step is ever small enough for a negative tolerance
        gl, rl, info = grf.solve(c.a(cl), t1, t2, maxiter=k, gltol=-1.0, **opts)
        gl = c.n(gl)
        if info or not np.all(np.isfinite(gl)) or not np.all(np.isfinite(c.n(rl))):
            break
        x = gl - prev
        if np.all(x == 0):
            break  # ended for want of a finite step, or a step too small to see
        with np.errstate(all="ignore"):
            # the step is known to the rounding of the spectra
            lo = np.max(np.where(x != 0, np.maximum(np.abs(x) - 4e-16 * np.abs(gl) - 4e-16 * np.abs(prev), 0) / np.abs(prev), 0))
            hi = np.max((np.abs(x) + 4e-16 * np.abs(gl) + 4e-16 * np.abs(prev)) / np.where(prev != 0, np.abs(prev), 1e-300))
        _, _, info = grf.solve(c.a(cl), t1, t2, maxiter=k, gltol=gltol, **opts)
        if hi <= gltol * 0.999:
            c.check(int(info) & 2, f"steps below the tolerance after {k} iterations, but status does not say so", step=hi, gltol=gltol, info=int(info))
            c.event("small_steps")
            break
        if lo > gltol * 1.001:
            c.check(not int(info) & 2, f"status claims small steps after {k} iterations", step=lo, gltol=gltol, info=int(info))
            c.event("large_steps")
        else:
            break
        prev = gl
    c.key(c.bk, kind, n, gltol, mono, k)


@case(PID, q=150, t=2500, backends=("np", "np", "strict"), steps=20_000_000)
def pairwise(c):
    """Sets of spectra: own pair of transformations, order, empties, warnings for exactly the failing pairs."""
    import glass
    import glass.grf as grf

    r = c.r
    n = int(r.integers(0, 5))
    fields = []
    sq = r.random() < 0.15
    for i in range(n):
        if sq:
            fields.append(grf.SquaredNormal(float(r.uniform(0.7, 0.99))))
        else:
            fields.append(grf.Normal() if r.random() < 0.3 else grf.Lognormal(float(r.uniform(0.3, 2))))
    cls = []
    scale = 10.0 ** r.uniform(-18, -6) if r.random() < 0.15 else 1.0
    for i, j in order(n):
        if r.random() < 0.2:
            cls.append(np.zeros(0))
        else:
            m = int(r.integers(1, 20)) if c.idx % 8 != 5 else int(r.integers(1, 200))
            cl = target(r, m, str(r.choice(["steep", "flat", "cross", "noisy", "infeasible"], p=[0.35, 0.2, 0.15, 0.2, 0.1])))
            cl = cl * scale
            if r.random() < 0.3:
                cl[0] = 0.0
            elif r.random() < 0.1:  # almost no monopole is still one
                cl[0] *= 10.0 ** r.uniform(-12, -3)
            cls.append(cl)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        got = glass.solve_gaussian_spectra(fields, [c.a(x) for x in cls])
    c.check(len(got) == len(cls), f"{len(got)} spectra from {len(cls)}")
    warned = sorted(str(w.message) for w in rec if "did not converge" in str(w.message))
    expect = []
    for (i, j), cl, g in zip(order(n), cls, got):
        c.is_backend(g, "spectrum")
        if cl.size == 0:
            c.check(c.n(g).shape == (0,), "empty spectrum not kept")
            continue
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            want, _, info = grf.solve(cl, fields[i], fields[j], pad=2 * cl.size, monopole=0.0 if cl[0] == 0 else None)
        c.close(g, want, f"solution for fields ({i}, {j})", rtol=1e-9, atol=1e-14 * max(scale, 1e-10))
        if info == 0:
            expect.append((i, j))
    c.check(len(warned) == len(expect), f"{len(warned)} warnings for {len(expect)} pairs that did not converge", warned=warned, expect=expect)
    for i, j in expect:
        c.check(any(f"({i}, {j})" in w for w in warned), f"no warning names the pair ({i}, {j})", warned=warned)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        # not for array-api-strict, which transformcl.corrtocl does not support
        got = glass.compute_gaussian_spectra(fields, [x.copy() for x in cls])
    for (i, j), cl, g in zip(order(n), cls, got):
        if cl.size == 0:
            c.check(c.n(g).shape == (0,), "empty spectrum not kept by compute_gaussian_spectra")
        else:
            with np.errstate(all="ignore"):
                want = transformcl.corrtocl(grf.icorr(fields[i], fields[j], transformcl.cltocorr(cl)))
            c.close(g, want, f"band-limited spectrum for fields ({i}, {j})", rtol=1e-9, atol=1e-14)
    c.event("pairs", len(cls))
    c.event("not_converged", len(expect))
    c.key(c.bk, n, len(expect), tuple(x.size for x in cls))


@case(PID, q=30, t=200, backends=("np", "strict"))
def refusals(c):
    import glass
    import glass.grf as grf

    r = c.r
    n = int(r.integers(1, 5))
    m = n * (n + 1) // 2 + int(r.choice([-1, 1]))
    F = [grf.Normal()] * n
    cls = [c.a(np.ones(3))] * m
    c.raises(ValueError, lambda: glass.solve_gaussian_spectra(F, cls), "wrong number of spectra")
    c.raises(ValueError, lambda: glass.compute_gaussian_spectra(F, cls), "wrong number of spectra")
    c.raises(ValueError, lambda: grf.solve(c.a(np.ones(4)), F[0], pad=-int(r.integers(1, 4))), "negative pad")
    c.key(n, m, c.bk)
