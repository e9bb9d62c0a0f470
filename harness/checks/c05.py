"""C05: discretising spectra keeps only what was asked for."""

import numpy as np

from .. import datapath
from ..core import case
from .c01 import order

PID = "C05"
NSIDES = (1, 2, 4, 8, 16)


def spectra(c, n, top=70, none=False):
    r = c.r
    out = []
    for _ in range(n * (n + 1) // 2):
        u = r.random()
        if none and u < 0.15:
            out.append(None)
        elif u < 0.3:
            out.append(np.zeros(0))
        else:
            out.append(r.normal(size=int(r.integers(1, top))))
    return out


@case(PID, q=500, t=12000, backends=("np", "strict", "np", "np", "jax"))
def filtering(c):
    import glass

    r = c.r
    n = int(r.integers(0, 7 if c.bk != "jax" else 4))
    cls = spectra(c, n)
    opts = {}
    if r.random() < 0.6:
        opts["lmax"] = int(r.choice([0, 1, 2, 3, 5, 10, 20, 47, 60, 100]))
    if r.random() < 0.6:
        opts["ncorr"] = int(r.integers(0, n + 2))
    win = None
    if r.random() < 0.6:
        opts["nside"] = int(r.choice(NSIDES))
        win = datapath.make(NSIDES, seed=int(r.integers(3)))[opts["nside"]][0]
        # healpy's own window length (band limit 3 nside - 1) unless lmax is given
        win = win[: opts.get("lmax", 3 * opts["nside"] - 1) + 1]
    arr = [c.a(x) for x in cls]
    got = glass.discretized_cls(arr, **opts)
    c.check(len(got) == len(cls), f"{len(got)} spectra from {len(cls)}")
    for (i, j), cl, g in zip(order(n), cls, got):
        want = cl
        if "ncorr" in opts and i - j > opts["ncorr"]:
            want = np.zeros(0)
        elif cl.size:
            if "lmax" in opts:
                want = want[: opts["lmax"] + 1]
            if win is not None:
                m = min(want.size, win.size)
                want = want[:m] * win[:m] ** 2
        c.is_backend(g, "spectrum")
        if win is not None:
            c.close(g, want, f"discretised spectrum ({i}, {j})", rtol=1e-13, opts=opts, length=cl.size)
        else:
            c.same(g, want, f"discretised spectrum ({i}, {j})", opts=opts, length=cl.size)
    c.event("spectra", len(cls))
    c.key(c.bk, n, sorted(opts.items()))


@case(PID, q=20, t=200, backends=("np", "strict"))
def bad_number(c):
    import glass

    m = int(c.r.choice([2, 4, 5, 7, 8, 9, 11]))
    c.raises(ValueError, lambda: glass.discretized_cls([c.a(np.ones(4))] * m, ncorr=1), f"{m} spectra with ncorr")
    c.raises(ValueError, lambda: glass.cov_from_spectra([c.a(np.ones(4))] * m), f"{m} spectra")
    c.key(m, c.bk)


@case(PID, q=300, t=8000, backends=("np", "strict", "np", "jax"))
def assembly(c):
    import glass

    r = c.r
    n = int(r.integers(1, 8 if c.bk != "jax" else 4))
    cls = spectra(c, n, top=12, none=c.bk != "strict" and r.random() < 0.4)
    kind = str(r.choice(["f8", "f8", "f4", "c16", "int", "mixed"]))
    if kind == "mixed" and c.bk == "strict":  # the standard leaves mixed kinds open
        kind = "mixed floats"
    dt = {"f8": np.float64, "f4": np.float32, "c16": np.complex128, "int": np.int64}.get(kind)
    conv = []
    for x in cls:
        if x is None:
            conv.append(None)
        elif kind == "c16":
            conv.append(x + 1j * r.normal(size=x.shape))
        elif kind == "int":
            conv.append(np.asarray(10 * x).astype(dt))
        elif kind.startswith("mixed"):
            t = [np.float32, np.float64, np.int64][int(r.integers(0, 3 if kind == "mixed" else 2))]
            conv.append(np.asarray(10 * x).astype(t))
        else:
            conv.append(x.astype(dt))
    if all(x is None for x in conv):
        conv[0] = np.ones(3)
    lmax = None if r.random() < 0.5 else int(r.integers(0, 15))
    k = max([x.size for x in conv if x is not None], default=0) if lmax is None else lmax + 1
    got = glass.cov_from_spectra([None if x is None else c.a(x) for x in conv], lmax=lmax)
    c.is_backend(got, "covariance")
    want = np.zeros((k, n, n), dtype=np.result_type(*[x for x in conv if x is not None]))
    for (i, j), cl in zip(order(n), conv):
        if cl is not None:
            m = min(k, cl.size)
            want[:m, i, j] = want[:m, j, i] = cl[:m]
    c.same(got, want, "covariance from spectra", n=n, lmax=lmax, kind=kind)
    c.note(n=n, lmax=lmax, kind=kind)
    c.key(c.bk, n, lmax, kind, k)
