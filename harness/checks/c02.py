"""C02: iterative sampling vectors reproduce the covariance."""

import numpy as np

from ..core import case

PID = "C02"


def ref_rows(cov, ks):
    """Rows [var_i, cov(i,i-1), ..., cov(i,i-k)] with zeros before the first field."""
    n = cov.shape[-1]
    rows = []
    for i in range(n):
        k = ks[i]
        row = np.zeros(cov.shape[:-2] + (k + 1,))
        for d in range(min(i, k) + 1):
            row[..., d] = cov[..., i, i - d]
        rows.append(row)
    return rows


def replay(ws, shape, n):
    """Give every variate its own axis: returns the matrix X with x_i = X[i] . z."""
    X = np.zeros(shape + (n, n))
    for i, w in enumerate(ws):
        k = w.shape[-1] - 1
        for q in range(k + 1):
            j = i - k + q
            if j >= 0:
                X[..., i, j] = w[..., q]
    return X


def ref_min_s(cov, ks):
    """Smallest conditional variance met by the truncated recursion (independent)."""
    n = cov.shape[-1]
    X = np.zeros((n, n))
    lo = np.inf
    for i in range(n):
        j0 = max(0, i - ks[i])
        A = X[j0:i, j0:i]
        a = np.linalg.lstsq(A, cov[i, j0:i], rcond=None)[0] if i > j0 else np.zeros(0)
        s = cov[i, i] - a @ a
        lo = min(lo, s)
        X[i, j0:i] = a
        X[i, i] = np.sqrt(max(s, 0))
    return lo


def run(c, cov, ks):
    import glass

    rows = [c.a(x) for x in ref_rows(cov, ks)]
    ws = []
    for i, w in enumerate(glass.iternorm(iter(rows))):
        c.is_backend(w, "scaling vector")
        c.check(tuple(w.shape) == cov.shape[:-2] + (ks[i] + 1,), f"scaling vector {i} has shape {tuple(w.shape)}")
        ws.append(np.array(c.n(w)))
    c.check(len(ws) == len(rows), f"{len(ws)} scaling vectors for {len(rows)} rows")
    return ws


def verify(c, cov, ks, ws, tol=1e-9):
    n = cov.shape[-1]
    X = replay(ws, cov.shape[:-2], n)
    got = X @ np.swapaxes(X, -1, -2)
    scale = np.max(np.abs(cov)) + 1e-300
    for i in range(n):
        c.check(np.all(ws[i][..., -1] >= 0), "negative standard deviation in scaling vector")
        for d in range(min(i, ks[i]) + 1):
            c.close(got[..., i, i - d], cov[..., i, i - d], f"realised covariance of fields ({i}, {i - d})", rtol=tol, atol=tol * scale, ks=ks)
    c.event("pairs", n * (n + 1) // 2)


def lengths(c, n):
    r = c.r
    mode = c.idx % 4
    if mode == 0:
        return [n - 1] * n
    if mode == 1:
        return list(range(n))
    if mode == 2:
        return [int(r.integers(0, n))] * n
    ks = [int(r.integers(0, 3))]
    for _ in range(n - 1):
        ks.append(int(r.integers(0, ks[-1] + 2)))
    return ks


@case(PID, q=160, t=4000, backends=("np", "np", "strict", "np", "jax", "np", "strict", "np"))
def positive_definite(c):
    """Random well conditioned (stacks of) covariance matrices, all correlation lengths."""
    r = c.r
    n = int(r.integers(1, 9 if c.bk != "jax" else 4))
    shape = [(), (3,), (2, 3), (1,), (7,)][int(r.integers(0, 5))]
    ks = lengths(c, n)
    L = np.tril(r.normal(size=shape + (n, n)) * 0.35, -1)
    d = np.exp(r.normal(size=shape + (n,)) * 0.4)
    L[..., np.arange(n), np.arange(n)] = d
    sc = np.exp(r.normal(size=shape + (n,)) * float(r.choice([0, 1, 3])))
    if c.idx % 3 == 2:  # tiny and huge variances, as those of matter at large angular mode numbers
        sc = sc * 10.0 ** r.uniform(-20, 20, size=(n,) if r.random() < 0.5 else ())
    cov = (L @ np.swapaxes(L, -1, -2)) * sc[..., :, None] * sc[..., None, :]
    flat = cov.reshape(-1, n, n)
    rel = min(ref_min_s(f / np.sqrt(np.outer(np.diag(f), np.diag(f))), ks) for f in flat)
    c.note(n=n, shape=list(shape), ks=ks)
    if rel < 1e-6:
        c.event("assertions")
        return  # truncation makes this one (nearly) indefinite
    ws = run(c, cov, ks)
    # tolerance per stack entry: rescale to correlations
    X = replay(ws, shape, n)
    got = X @ np.swapaxes(X, -1, -2)
    s = np.sqrt(np.einsum("...ii->...i", cov))
    nrm = s[..., :, None] * s[..., None, :]
    for i in range(n):
        c.check(np.all(ws[i][..., -1] >= 0), "negative standard deviation in scaling vector")
        for dd in range(min(i, ks[i]) + 1):
            c.close((got / nrm)[..., i, i - dd], (cov / nrm)[..., i, i - dd], f"realised correlation of fields ({i}, {i - dd})", rtol=1e-8, atol=1e-8, ks=ks)
    c.key(c.bk, n, shape, c.idx % 4, tuple(ks))


@case(PID, q=60, t=1500, backends=("np", "np", "strict"))
def singular_exact(c):
    """Exactly representable singular matrices: zero variance, duplicated and dependent fields."""
    r = c.r
    n = int(r.integers(1, 7))
    shape = [(), (2,), (3, 2)][int(r.integers(0, 3))]
    L = np.tril(r.integers(-3, 4, size=shape + (n, n)), -1).astype(float)
    diag = r.choice([0.0, 1.0, 2.0, 4.0], size=shape + (n,))
    L[..., np.arange(n), np.arange(n)] = diag
    # columns of zero-diagonal variates carry nothing
    L = np.where(diag[..., None, :] > 0, L, 0.0)
    if r.random() < 0.4:
        z = int(r.integers(0, n))
        L[..., z, :] = 0.0  # a field of zero variance
        L[..., :, z] = 0.0
    cov = L @ np.swapaxes(L, -1, -2)
    if c.idx % 3 == 2:
        cov = cov * 4.0 ** int(r.integers(-60, 60))  # exact
    ks = [n - 1] * n if c.idx % 2 else list(range(n))
    ws = run(c, cov, ks)
    verify(c, cov, ks, ws, tol=1e-12)
    c.event("singular")
    c.key(c.bk, n, shape, int((diag == 0).sum()))


@case(PID, q=60, t=1500, backends=("np", "np", "strict"))
def indefinite_rejected(c):
    """Clearly indefinite covariances are refused with ValueError."""
    import glass

    r = c.r
    n = int(r.integers(1, 7))
    L = np.tril(r.normal(size=(n, n)) * 0.3, -1) + np.diag(np.exp(r.normal(size=n) * 0.3))
    cov = L @ L.T
    i = int(r.integers(0, n))
    # lower the conditional variance of field i well below zero
    if i == 0:
        cov[0, 0] = -float(r.uniform(1e-3, 2))
    else:
        a = np.linalg.solve(np.linalg.cholesky(cov[:i, :i]), cov[i, :i])
        cov[i, i] = a @ a - float(r.uniform(1e-3, 1.0))
    scale = 10.0 ** float(r.uniform(-40, 40)) if c.idx % 3 == 2 else 1.0
    cov, L = cov * scale, L * np.sqrt(scale)
    ks = [n - 1] * n if c.idx % 2 else list(range(n))
    stack = [(), (4,)][c.idx // 2 % 2]
    if stack:
        # only one of the stacked matrices is bad
        good = L @ L.T
        full = np.stack([good] * 4)
        full[int(r.integers(0, 4))] = cov
        cov = full
    rows = [c.a(x) for x in ref_rows(cov, ks)]
    c.raises(ValueError, lambda: list(glass.iternorm(rows)), f"indefinite covariance at field {i}", cov=cov)
    c.key(n, i, stack, c.bk)


@case(PID, q=60, t=400, backends=("np", "strict"))
def malformed(c):
    """Empty rows and changing stack shapes are refused."""
    import glass

    r = c.r
    k = int(r.integers(1, 4))
    at = int(r.integers(0, 3))
    rows = [np.concatenate([np.ones((2, 1)), np.zeros((2, k))], axis=-1) for _ in range(4)]
    kind = c.idx % 4
    if kind == 3:
        # stacks that would broadcast against each other
        a, b = [((1,), (3,)), ((3,), (1,)), ((2, 1), (2, 3)), ((1, 2), (2, 2)), ((2, 3), (1, 3))][int(r.integers(0, 5))]
        at = at + 1
        rows = [np.concatenate([np.ones((*(b if i >= at else a), 1)), np.zeros((*(b if i >= at else a), k))], axis=-1) for i in range(at + int(r.integers(1, 3)))]
    elif kind == 0:
        rows[at] = np.zeros((2, 0))
    elif kind == 1:
        at = at + 1
        rows[at] = np.concatenate([np.ones((3, 1)), np.zeros((3, k))], axis=-1)
    else:
        at = at + 1
        rows[at] = np.concatenate([np.ones((1,)), np.zeros((k,))], axis=-1)
    c.raises(ValueError, lambda: list(glass.iternorm([c.a(x) for x in rows])), f"malformed row {at} (kind {kind})")
    c.key(kind, at, k, c.bk)
