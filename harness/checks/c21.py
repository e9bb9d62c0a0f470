"""C21: partitions are optimal and preserve the total."""

import numpy as np
from scipy import optimize

from ..core import case

PID = "C21"
B = ("np", "strict", "np")


def trapz(y, x):
    return ((y[..., 1:] + y[..., :-1]) / 2 * np.diff(x)).sum(axis=-1)


# ------------------------------------------------------------------ the solver


def problem(r):
    k = int(r.integers(0, 9))
    n = int(r.integers(1, 10))
    m = n + int(r.integers(0, 8))
    if k == 0:
        a, b = r.normal(size=(m, n)), r.normal(size=m)
    elif k == 1:  # correlated columns: the active set has to back out
        base = r.normal(size=(m, 1))
        a = base + 0.3 * r.normal(size=(m, n))
        b = r.normal(size=m)
    elif k == 2:  # non-negative overlap like windows
        a, b = r.uniform(0, 1, (m, n)), r.normal(size=m)
    elif k == 3:  # solution all zero
        a = r.uniform(0, 1, (m, n))
        b = -r.uniform(0, 1, m)
    elif k == 4:  # feasible unconstrained solution
        a = r.normal(size=(m, n))
        b = a @ r.uniform(0.1, 2, n)
    elif k == 5:  # sparse solution
        a = r.normal(size=(m, n))
        b = a @ (r.uniform(0.1, 2, n) * (r.random(n) < 0.4))
    elif k == 6:  # strongly overlapping windows
        t = np.linspace(0, 1, m + 6)
        cen = np.linspace(0.2, 0.8, n)
        a = np.exp(-((t[:, None] - cen) ** 2) / 2 / 0.1**2)
        b = np.abs(t - 0.4) + 0.1 * r.normal(size=t.size)
    elif k == 8:  # columns in very different units
        a = np.linalg.qr(r.normal(size=(m, n)))[0] * 10.0 ** r.uniform(-5, 5, n)
        b = r.normal(size=m)
    else:
        a = r.normal(size=(m, n)) * 10.0 ** r.uniform(-3, 3, n)
        b = r.normal(size=m) * 10.0 ** r.uniform(-3, 3)
    return a, b, k


def kkt(c, a, b, x, msg, rtol=1e-7, **kw):
    c.check(np.all(np.isfinite(x)), f"{msg}: not finite", **kw)
    c.check(np.all(x >= 0), f"{msg}: negative values", x=x, **kw)
    norm = np.linalg.norm(a, axis=0) + 1e-300
    g = (a.T @ (b - a @ x)) / norm
    tol = rtol * (np.linalg.norm(b) + 1e-300)
    c.check(np.all(g <= tol), f"{msg}: objective falls when increasing a component", g=g, x=x, **kw)
    c.check(np.all(np.abs(g[x > 0]) <= tol), f"{msg}: gradient does not vanish for positive components", g=g, x=x, **kw)
    c.event("kkt_certificates")


@case(PID, q=1200, t=40000, backends=B)
def nnls(c):
    import glass.algorithm as ga

    r = c.r
    a, b, k = problem(r)
    # every duplicate subset of columns is far from singular, or the comparison says nothing
    if np.linalg.cond(a / np.linalg.norm(a, axis=0)) > 1e6:
        b = b * 1.0
        ref = optimize.nnls(a, b, maxiter=1000)[1]
        x = c.n(ga.nnls(c.a(a), c.a(b)))
        c.check(np.all(x >= 0), "negative values")
        c.check(np.linalg.norm(a @ x - b) <= ref * (1 + 1e-3) + 1e-3 * np.linalg.norm(b), "objective far above the optimum", k=k)
        c.event("ill_conditioned")
        return
    if r.random() < 0.3:  # the scale of the problem is free
        b = b * 10.0 ** r.uniform(-30, 30)
        if r.random() < 0.5:
            a = a * 10.0 ** r.uniform(-15, 15)
    got = ga.nnls(c.a(a), c.a(b))
    c.is_backend(got, "solution")
    x = c.n(got)
    c.check(x.shape == (a.shape[1],), "shape of the solution")
    kkt(c, a, b, x, "nnls", k=k, mat=a, rhs=b)
    ref = optimize.nnls(a, b, maxiter=1000)[0]
    scale = np.linalg.norm(a, axis=0)
    c.close(x * scale, ref * scale, "solution", atol=1e-6 * np.linalg.norm(b), rtol=1e-6, k=k)
    c.event("active_components", int((x == 0).sum()))
    c.key(c.bk, k, a.shape, int((x > 0).sum()))


@case(PID, q=12, t=200, backends=B)
def nnls_large(c):
    """Many unknowns, most of them positive: as many steps of the active set as unknowns, and more."""
    import glass.algorithm as ga

    r = c.r
    n = int(r.integers(20, 130))
    m = n + int(r.integers(0, 40))
    k = c.idx % 4
    if k == 0:  # all positive
        a = np.eye(m, n) + 0.3 / np.sqrt(n) * r.normal(size=(m, n))
        b = a @ r.uniform(0.1, 2, n)
    elif k == 1:
        a, b = r.normal(size=(2 * m, n)), r.normal(size=2 * m)
    elif k == 2:  # neighbours overlap
        a = np.eye(m, n) + 0.4 * np.eye(m, n, 1) + 0.4 * np.eye(m, n, -1)
        b = a @ r.uniform(0.1, 2, n) + 0.3 * r.normal(size=m)
    else:
        a = r.uniform(0, 1, (2 * m, n))
        b = a @ (r.uniform(0.1, 2, n) * (r.random(n) < 0.6)) + 0.05 * r.normal(size=2 * m)
    x = c.n(ga.nnls(c.a(a), c.a(b)))
    kkt(c, a, b, x, "large nnls", k=k, n=n, m=m)
    c.event("positive_components", int((x > 0).sum()))
    c.key(c.bk, k, n, m)


@case(PID, q=6, t=60, backends=B)
def many_shells(c):
    """A distribution split over many shells."""
    import glass

    r = c.r
    n = int(r.integers(40, 110))
    e = np.concatenate([[0.0], np.cumsum(r.uniform(0.02, 0.05, n + 1))])
    shells = (glass.linear_windows if r.random() < 0.5 else glass.cubic_windows)(c.a(e), 0.01)
    z = np.unique(np.concatenate([c.n(s.za) for s in shells]))
    x = r.uniform(0.1, 2, (n,))
    f = glass.combine(c.a(z), c.a(x), shells)
    method = "nnls" if c.idx % 3 < 2 else "lstsq"
    got = c.n(glass.partition(c.a(z), f, shells, method=method))
    c.close(got, x, "weights of a combination of many windows", rtol=1e-5, atol=1e-5, method=method, n=n)
    c.close(got.sum(), trapz(c.n(f), z), "sum of weights", rtol=1e-6)
    c.key(c.bk, method, n)


@case(PID, q=150, t=2000, backends=B)
def nnls_degenerate(c):
    """Zero matrices, rank deficient but consistent problems, options."""
    import glass.algorithm as ga

    r = c.r
    k = int(r.integers(0, 6))
    n, m = int(r.integers(1, 5)), int(r.integers(5, 9))
    if k >= 4:  # linearly dependent columns: the optimal objective is still unique
        a = r.uniform(-1, 1, (m, n + 1))
        a = np.concatenate([a, a[:, :1], a[:, :1] + a[:, 1:2]][: k - 1], axis=1)
        a = a[:, r.permutation(a.shape[1])]
        b = r.normal(size=m)
        x = c.n(ga.nnls(c.a(a), c.a(b)))
        kkt(c, a, b, x, "nnls with dependent columns")
    elif k == 0:
        x = c.n(ga.nnls(c.a(np.zeros((m, n))), c.a(r.normal(size=m))))
        c.same(x, np.zeros(n), "zero matrix")
    elif k == 1:
        x = c.n(ga.nnls(c.a(r.normal(size=(m, n))), c.a(np.zeros(m))))
        c.same(x, np.zeros(n), "zero right-hand side")
    elif k == 2:  # a column of zeros stays at zero
        a, b = r.uniform(0, 1, (m, n + 1)), r.uniform(0, 1, m)
        j = int(r.integers(0, n + 1))
        a[:, j] = 0
        x = c.n(ga.nnls(c.a(a), c.a(b)))
        c.check(x[j] == 0, "zero column used")
        kkt(c, a, b, x, "nnls with a zero column")
    else:  # tolerance: gradients up to tol are left alone
        a, b = np.eye(n), r.uniform(0.1, 1, n)
        tol = float(np.median(b))
        x = c.n(ga.nnls(c.a(a), c.a(b), tol=tol))
        c.close(x, np.where(b > tol, b, 0.0), "tolerance", rtol=1e-12)
        x = c.n(ga.nnls(c.a(a), c.a(b), maxiter=1))
        want = np.zeros(n)
        want[np.argmax(b)] = b.max()
        c.close(x, want, "one iteration", rtol=1e-12)
        x = c.n(ga.nnls(c.a(a), c.a(b), maxiter=0))
        c.same(x, np.zeros(n), "no iterations")
        for k_ in range(2, n + 1):
            x = c.n(ga.nnls(c.a(a), c.a(b), maxiter=k_))
            want = np.where(b >= np.sort(b)[-k_], b, 0.0)
            c.close(x, want, f"{k_} iterations", rtol=1e-12)
    c.key(c.bk, k, n, m)


@case(PID, q=60, t=600, backends=B)
def refusals(c):
    import glass
    import glass.algorithm as ga

    r = c.r
    a, b = r.normal(size=(4, 3)), r.normal(size=4)
    c.raises(ValueError, lambda: ga.nnls(c.a(b), c.a(b)), "vector as matrix")
    c.raises(ValueError, lambda: ga.nnls(c.a(a[None]), c.a(b)), "three-dimensional matrix")
    c.raises(ValueError, lambda: ga.nnls(c.a(a), c.a(a)), "matrix as vector")
    c.raises(ValueError, lambda: ga.nnls(c.a(a), c.a(b[:-1])), "mismatched shapes")
    c.raises(ValueError, lambda: ga.nnls(c.a(a.T), c.a(b)), "mismatched shapes")
    z = np.linspace(0, 1, 5)
    shells = glass.linear_windows(c.a(np.array([0.0, 0.5, 1.0])), 0.1)
    for m in ("", "foo", "NNLS", "lsq"):
        c.raises(ValueError, lambda m=m: glass.partition(c.a(z), c.a(z), shells, method=m), "unknown method")
    c.key(c.bk, c.idx)


# ------------------------------------------------------------------ partitions


def windows(r):
    """Window functions with linearly independent shapes."""
    k = int(r.integers(0, 4))
    n = int(r.integers(1, 7))
    out = []
    if k == 0:  # tophat
        e = np.cumsum(r.uniform(0.1, 0.5, n + 1)) - 0.1
        for i in range(n):
            out.append((np.linspace(e[i], e[i + 1], 9), np.ones(9)))
    elif k == 1:  # triangles
        e = np.concatenate([[0.0], np.cumsum(r.uniform(0.1, 0.5, n + 1))])
        for i in range(n):
            out.append((np.unique(np.concatenate([np.linspace(e[i], e[i + 1], 5), np.linspace(e[i + 1], e[i + 2], 6)])), None))
            za = out[-1][0]
            out[-1] = (za, np.interp(za, e[i : i + 3], [0, 1, 0]))
    elif k == 2:  # wide overlaps
        e = np.linspace(0.3, 2, n) if n > 1 else np.array([1.0])
        for i in range(n):
            za = np.linspace(max(0, e[i] - 0.6), e[i] + 0.6, 25)
            out.append((za, np.exp(-((za - e[i]) ** 2) / 2 / 0.2**2)))
    else:  # random amplitudes, gaps
        e = 0.0
        for i in range(n):
            e += float(r.uniform(0, 0.2))
            za = np.linspace(e, e + 0.4, 7)
            out.append((za, r.uniform(0.1, 3, 7)))
            e += 0.3
    if r.random() < 0.15:  # the same window twice
        out.insert(int(r.integers(0, n + 1)), out[int(r.integers(0, n))])
    # amplitudes do not matter
    return [(za, wa * float(10 ** r.uniform(-2, 2))) for za, wa in out], k


def system(z, f, ws, sumtol):
    """The documented least-squares problem, from its definition."""
    grid = np.unique(np.concatenate([z] + [w[0] for w in ws]))
    dz = np.gradient(grid)
    cols = []
    for za, wa in ws:
        w = np.interp(grid, za, wa, left=0, right=0)
        cols.append(w / trapz(w, grid) * dz)
    a = np.concatenate([np.array(cols).T, np.full((1, len(ws)), 1 / sumtol)])
    fi = np.interp(grid, z, f, left=0, right=0) * dz
    b = np.concatenate([fi, [trapz(f, z) / sumtol]])
    return a, b


def target(r, ws, lead):
    hi = max(w[0][-1] for w in ws)
    k = int(r.integers(0, 4))
    z = np.unique(np.concatenate([[0.0], r.uniform(0, hi * 1.2, int(r.integers(3, 25)))]))
    if k == 0:
        f = r.uniform(0, 2, lead + z.shape)
    elif k == 1:
        f = z**2 * np.exp(-((z / 0.5) ** 1.5)) * r.uniform(0.5, 2, lead + (1,))
    elif k == 2:
        f = r.normal(size=lead + z.shape)
    else:
        f = np.zeros(lead + z.shape)
        f[..., int(r.integers(0, z.size))] = 1.0
    return z, f, k


def solve(c, z, f, shells, method, sumtol):
    import glass
    import glass.shells

    if sumtol is None:
        if method == "nnls" and c.r.random() < 0.5:
            return glass.partition(c.a(z), c.a(f), shells)
        return glass.partition(c.a(z), c.a(f), shells, method=method)
    return getattr(glass.shells, f"partition_{method}")(c.a(z), c.a(f), shells, sumtol=sumtol)


@case(PID, q=700, t=15000, backends=B)
def optimal(c):
    import glass

    r = c.r
    method = str(r.choice(["nnls", "lstsq"]))
    ws, kw = windows(r)
    lead = [(), (), (3,), (2, 2), (1, 3, 2)][int(r.integers(0, 5))]
    z, f, kf = target(r, ws, lead)
    f = f * float(r.choice([1.0, 1.0, 1.0, 1e-12, 1e9]))
    sumtol = [None, None, 0.01, 0.1, 1e-3, 1.0, 1e-4, 1e-6][int(r.integers(0, 8))]
    eff = max(sumtol if sumtol is not None else 0.01, 1e-4)
    shells = [glass.RadialWindow(c.a(za), c.a(wa), float(za.mean())) for za, wa in ws]
    got = solve(c, z, f, shells, method, sumtol)
    c.is_backend(got, "partition")
    x = c.n(got)
    c.check(x.shape == (len(ws),) + lead, f"shape {x.shape} of the partition, lead {lead}, {len(ws)} windows", method=method)
    for i in np.ndindex(lead):
        a, b = system(z, f[i], ws, eff)
        xi = x[(slice(None),) + i]
        cond = np.linalg.cond(a)
        obj = np.linalg.norm(a @ xi - b)
        scale = np.linalg.norm(b) + 1e-300
        if method == "nnls":
            c.check(np.all(xi >= 0), "negative weights", x=xi)
            ref = optimize.nnls(a, b, maxiter=2000)[0]
        else:
            ref = np.linalg.lstsq(a, b, rcond=None)[0]
        # conditioning limits what either solver can do
        tol = 1e-15 * cond**2 * 50
        best = np.linalg.norm(a @ ref - b)
        c.check(obj <= best * (1 + 1e-6) + max(1e-9, min(1e-5, tol * 1e-2)) * scale, "partition is not optimal", obj=obj, best=best, method=method, sumtol=sumtol, kw=kw, kf=kf, cnd=cond, x=xi, ref=ref)
        if tol < 1e-4:
            size = np.max(np.abs(ref)) + scale * eff
            c.close(xi, ref, "weights", rtol=1e-5, atol=max(1e-6, 10 * tol) * size, method=method, cnd=cond, sumtol=sumtol)
        c.event("functions")
    c.note(windows=len(ws), lead=lead, method=method, sumtol=sumtol)
    c.key(c.bk, method, kw, kf, lead, sumtol, len(ws))


@case(PID, q=150, t=3000, backends=B)
def exact(c):
    """Combinations of the windows are recovered, and the total is kept."""
    import glass

    r = c.r
    method = str(r.choice(["nnls", "lstsq"]))
    e = np.concatenate([[0.0], np.cumsum(r.uniform(0.1, 0.5, int(r.integers(2, 7))))])
    n = e.size - 2
    if n < 1:
        e = np.array([0.0, 0.3, 0.7])
        n = 1
    shells = glass.linear_windows(c.a(e), 0.03)
    z = np.unique(np.concatenate([c.n(s.za) for s in shells]))
    lead = [(), (2,), (2, 3)][int(r.integers(0, 3))]
    x = r.uniform(0, 2, (n,) + lead)
    x[r.random(x.shape) < 0.2] = 0
    f = glass.combine(c.a(z), c.a(x), shells)
    got = c.n(glass.partition(c.a(z), f, shells, method=method))
    c.close(got, x, "weights of a combination of windows", rtol=1e-6, atol=1e-6, method=method)
    c.close(got.sum(axis=0), trapz(c.n(f), z), "sum of weights", rtol=1e-6, atol=1e-7)
    # a general density: sum close to the integral
    z2 = np.linspace(0, e[-1], 80)
    d = z2 * (e[-1] - z2)
    d /= trapz(d, z2)
    s = c.n(glass.partition(c.a(z2), c.a(d), shells, method=method)).sum()
    if n >= 3:
        c.check(abs(s - 1) < 0.02, "sum of weights is not close to the integral", s=s, method=method)
    c.key(c.bk, method, n, lead)


@case(PID, q=12, t=60, backends=("jax",))
def jax_lstsq(c):
    import glass

    r = c.r
    shells = glass.linear_windows(c.a(np.array([0.0, 0.3, 0.6, 1.0])), 0.1)
    z = np.linspace(0, 1, 11)
    f = r.uniform(0, 1, (2, 11))
    got = glass.partition(c.a(z), c.a(f), shells, method="lstsq")
    ws = [(c.n(s.za), c.n(s.wa)) for s in shells]
    for i in range(2):
        a, b = system(z, f[i], ws, 0.01)
        c.close(c.n(got)[:, i], np.linalg.lstsq(a, b, rcond=None)[0], "weights", rtol=1e-6, atol=1e-8)
    c.key("jax", c.idx)
