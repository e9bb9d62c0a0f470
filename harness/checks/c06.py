"""C06: effective spectra are the bilinear form of weights and spectra."""

import numpy as np

from ..core import case
from .c01 import order

PID = "C06"


def cube(cls, n, lmax):
    C = np.zeros((n, n, lmax + 1))
    for (i, j), cl in zip(order(n), cls):
        m = min(lmax + 1, cl.size)
        C[i, j, :m] = C[j, i, :m] = cl[:m]
    return C


def dense(w1, w2, C):
    n = C.shape[0]
    a, b = w1.reshape(n, -1), w2.reshape(n, -1)
    return np.einsum("ip,jq,ijl->pql", a, b, C).reshape(w1.shape[1:] + w2.shape[1:] + (C.shape[-1],))


def make(c, nmax=6):
    r = c.r
    n = int(r.integers(1, nmax))
    ragged = r.random() < 0.6
    L = int(r.integers(1, 12))
    cls = [r.normal(size=int(r.integers(0, L + 1)) if ragged else L) for _ in range(n * (n + 1) // 2)]
    if max(x.size for x in cls) == 0:
        cls[0] = r.normal(size=L)
    lmax = None if r.random() < 0.5 else int(r.integers(0, 16))
    return n, cls, lmax, (max(x.size for x in cls) - 1 if lmax is None else lmax)


def weights(r, n, naxes):
    shape = (n,) + tuple(int(r.integers(1, 4)) for _ in range(naxes))
    w = r.normal(size=shape)
    if r.random() < 0.2:
        w[r.integers(0, n)] = 0
    return w


@case(PID, q=300, t=6000, backends=("np", "strict") * 6 + ("jax",))
def one_set(c):
    import glass

    r = c.r
    n, cls, lmax, L = make(c, 6 if c.bk != "jax" else 3)
    w = weights(r, n, int(r.integers(0, 4 if c.bk != "jax" else 2)))
    arr, wa = [c.a(x) for x in cls], c.a(w)
    got = glass.effective_cls(arr, wa, lmax=lmax)
    c.is_backend(got, "effective spectra")
    want = dense(w, w, cube(cls, n, L))
    c.close(got, want, "effective spectra of one weight set", rtol=1e-9, atol=1e-10, n=n, lmax=lmax, weights=w.shape)
    g = c.n(got)
    k = w.ndim - 1
    swapped = np.moveaxis(g, range(k, 2 * k), range(k)) if k else g
    c.close(g, swapped, "effective spectra not symmetric", rtol=1e-12, atol=1e-12)
    c.close(glass.effective_cls(arr, wa, c.a(w), lmax=lmax), want, "weight set passed twice (as a copy)", rtol=1e-9, atol=1e-10)
    c.close(glass.effective_cls(arr, wa, wa, lmax=lmax), want, "weight set passed twice (same object)", rtol=1e-9, atol=1e-10)
    c.key(c.bk, n, w.shape, lmax)


@case(PID, q=300, t=6000, backends=("np", "strict") * 6 + ("jax",))
def two_sets(c):
    import glass

    r = c.r
    n, cls, lmax, L = make(c, 6 if c.bk != "jax" else 3)
    top = 4 if c.bk != "jax" else 2
    w1, w2 = weights(r, n, int(r.integers(0, top))), weights(r, n, int(r.integers(0, top)))
    near = r.random()
    if near < 0.2:  # almost equal sets are still two sets
        w2 = w1 * (1 + 10.0 ** r.uniform(-7, -2) * r.normal(size=w1.shape))
    elif near < 0.3:  # sets that differ in a single weight
        w2 = w1.copy()
        w2.flat[int(r.integers(0, w2.size))] += 10.0 ** r.uniform(-7, 0)
    got = glass.effective_cls([c.a(x) for x in cls], c.a(w1), c.a(w2), lmax=lmax)
    c.is_backend(got, "effective spectra")
    c.close(got, dense(w1, w2, cube(cls, n, L)), "effective spectra of two weight sets", rtol=1e-9, atol=1e-10, n=n, lmax=lmax, w1=w1.shape, w2=w2.shape)
    c.key(c.bk, n, w1.shape, w2.shape, lmax)


@case(PID, q=12, t=80, backends=("np", "np", "strict"))
def many_modes(c):
    """Spectra and limits of thousands of modes, and tens of fields."""
    import glass

    r = c.r
    n = int(r.choice([1, 2, 3])) if c.idx % 3 else int(r.integers(12, 30))
    top = int(10 ** r.uniform(3, 4.3)) if n < 4 else int(r.integers(2, 20))
    cls = [r.normal(size=max(1, int(top * r.uniform(0.3, 1)))) for _ in order(n)]
    longest = max(x.size for x in cls)
    lmax = [None, longest - 1, int(longest * 1.3), int(longest * 0.8)][int(r.integers(0, 4))]
    L = longest - 1 if lmax is None else lmax
    w1 = r.normal(size=n if r.random() < 0.5 else (n, 2))
    w2 = None if r.random() < 0.5 else r.normal(size=n)
    args = [c.a(w1)] + ([] if w2 is None else [c.a(w2)])
    got = glass.effective_cls([c.a(x) for x in cls], *args, lmax=lmax)
    want = dense(w1, w1 if w2 is None else w2, cube(cls, n, L))
    c.close(got, want, "effective spectra of many modes or fields", rtol=1e-9, atol=1e-10, n=n, lmax=lmax, longest=longest)
    c.key(n, longest, lmax, c.bk)


@case(PID, q=60, t=600, backends=("np", "strict"))
def refusals(c):
    import glass

    r = c.r
    n, cls, lmax, L = make(c)
    arr = [c.a(x) for x in cls]
    bad = n + int(r.choice([-1, 1, 2])) if n > 1 else n + 1
    good = c.a(weights(r, n, 1))
    c.raises(ValueError, lambda: glass.effective_cls(arr, c.a(np.ones((bad, 2)))), "wrong first axis of weights1")
    c.raises(ValueError, lambda: glass.effective_cls(arr, good, c.a(np.ones((bad,)))), "wrong first axis of weights2")
    c.raises(ValueError, lambda: glass.effective_cls(arr, c.a(np.ones((bad,))), good), "wrong first axis of weights1 of two")
    if n > 1:
        c.raises(ValueError, lambda: glass.effective_cls(arr, c.a(np.float64(1.0))), "scalar weights")
    c.key(n, bad, c.bk)


@case(PID, q=40, t=400)
def integer_weights(c):
    """Integer unit-vector weights pick out single spectra (numpy)."""
    import glass

    r = c.r
    n = int(r.integers(2, 8))
    L = int(r.integers(1, 6))
    cls = [np.full(L, float(k + 1)) for k in range(n * (n + 1) // 2)]
    w = np.eye(n) if r.random() < 0.5 else np.eye(n, dtype=np.int64)
    got = glass.effective_cls(cls, w)
    c.same(got, cube(cls, n, L - 1), "unit weights do not select the spectra")
    c.key(n, L, w.dtype)
