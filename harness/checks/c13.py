"""C13: bias models and clustering weights equal their definitions."""

import numpy as np

from ..core import case

PID = "C13"
JB = ("np", "strict", "np", "np", "strict", "np", "strict", "np", "np", "np", "strict", "jax")


def merged_product(funcs):
    """Trapezoidal integral of the product of piecewise-linear functions on their merged grids (common range)."""
    lo = max(x[0] for x, _ in funcs)
    hi = min(x[-1] for x, _ in funcs)
    grid = np.unique(np.concatenate([x for x, _ in funcs]))
    grid = grid[(grid >= lo) & (grid <= hi)]
    y = np.ones(grid.size)
    for x, f in funcs:
        y = y * np.interp(grid, x, f)
    return float(((y[1:] + y[:-1]) / 2 * np.diff(grid)).sum())


def grid(r, lo, hi, n):
    x = np.sort(r.uniform(lo, hi, n))
    x = np.unique(np.concatenate([[lo], x, [hi]]))
    return x


@case(PID, q=400, t=10000, backends=JB)
def effective_bias(c):
    import glass

    r = c.r
    za = grid(r, float(r.uniform(0, 0.5)), float(r.uniform(0.6, 2)), int(r.integers(0, 12)))
    wa = r.uniform(0, 2, za.size)
    if r.random() < 0.3:
        wa[0] = wa[-1] = 0
    if wa.sum() == 0:
        wa[:] = 1
    k = int(r.integers(0, 4))
    if k == 0:
        z = za.copy()
    elif k == 1:
        z = grid(r, 0.0, 3.0, int(r.integers(1, 20)))
    elif k == 2:
        z = grid(r, za[0] + 0.1 * (za[-1] - za[0]), za[-1] - 0.2 * (za[-1] - za[0]), 5)
    else:
        z = np.unique(np.concatenate([za[:: 2], grid(r, 0.0, 2.5, 4)]))
    bz = r.uniform(0.2, 4, z.size) if r.random() < 0.7 else np.full(z.size, float(r.uniform(0.5, 3)))
    w = glass.RadialWindow(c.a(za), c.a(wa), float(za.mean()))
    got = glass.effective_bias(c.a(z), c.a(bz), w)
    norm = float(((wa[1:] + wa[:-1]) / 2 * np.diff(za)).sum())
    want = merged_product([(z, bz), (za, wa)]) / norm
    c.close(got, np.float64(want), "effective bias", rtol=1e-10, kind=k, za=za, z=z)
    if k == 1 and np.ptp(bz) == 0 and z[0] <= za[0] and z[-1] >= za[-1]:
        full = merged_product([(z, bz), (za, wa)]) / merged_product([(z, np.ones_like(bz)), (za, wa)])
        c.close(np.float64(full), np.float64(bz[0]), "oracle", rtol=1e-9)
        c.close(got, np.float64(bz[0]), "effective bias of a constant", rtol=1e-9)
    c.key(c.bk, k, za.size, z.size)


@case(PID, q=300, t=5000, backends=JB)
def models(c):
    import glass

    r = c.r
    shape = tuple(int(r.integers(0, 5)) for _ in range(int(r.integers(1, 3))))
    if c.idx % 40 == 7:
        shape = (int(10.0 ** r.uniform(4, 5.5)),)
    delta = r.uniform(-0.999, 5, shape)
    if r.random() < 0.4:
        delta = np.where(r.random(shape) < 0.5, delta, r.normal(size=shape) * 10.0 ** r.uniform(-16, -1, shape))
    bs = [(), shape, shape[-1:], (1,)][int(r.integers(0, 4))]
    b = r.uniform(0, 4, bs) if bs != () else float(r.choice([0.0, 1.0, 1.7, 0.5, -1.0]))
    ba = c.a(b) if bs != () else (b if r.random() < 0.5 or c.bk == "strict" else c.a(b))
    arr = c.a(delta)
    lin, log = glass.linear_bias(arr, ba), glass.loglinear_bias(arr, ba)
    c.is_backend(lin, "linear bias")
    c.is_backend(log, "log-linear bias")
    c.close(lin, np.asarray(b) * delta, "linear bias", rtol=1e-12)
    with np.errstate(all="ignore"):
        c.close(log, (1 + delta) ** np.asarray(b) - 1, "log-linear bias", rtol=1e-9, atol=1e-11, b=b)
        ld = np.longdouble
        c.close(log, np.expm1(np.asarray(b, ld) * np.log1p(delta.astype(ld))).astype(float), "log-linear bias", rtol=1e-10, atol=0, b=b)
    small = r.normal(size=4) * 1e-12
    c.close(glass.loglinear_bias(c.a(small), 2.0), 2.0 * small, "log-linear bias of tiny contrasts", rtol=1e-9)
    c.same(arr, delta, "input contrast modified")
    c.key(c.bk, shape, bs)


@case(PID, q=300, t=5000, backends=JB)
def weights(c):
    import glass

    r = c.r
    n = int(r.integers(1, 7))
    extra = tuple(int(r.integers(1, 4)) for _ in range(int(r.integers(0, 3))))
    d = r.uniform(0.01, 5, (n,) + extra)
    kind = int(r.integers(0, 5))
    want = d / d.sum(axis=0)
    if kind == 0:
        got = glass.position_weights(c.a(d))
        c.close(c.n(got).sum(axis=0), np.ones(extra), "weights do not sum to one over shells", rtol=1e-12)
    elif kind == 1:
        b = float(r.uniform(0.1, 3)) if r.random() < 0.6 else int(r.integers(0, 4))
        got, want = glass.position_weights(c.a(d), b), want * b
    elif kind == 2:
        b = r.uniform(0.1, 3, n)
        got, want = glass.position_weights(c.a(d), c.a(b)), want * b.reshape((n,) + (1,) * len(extra))
    elif kind == 3:
        b = r.uniform(0.1, 3, (n,) + extra)
        got, want = glass.position_weights(c.a(d), c.a(b)), want * b
    else:
        # densities per shell only, bias with more axes
        d1 = d[(slice(None),) + (0,) * len(extra)]
        b = r.uniform(0.1, 3, (n,) + extra)
        got, want = glass.position_weights(c.a(d1), c.a(b)), (d1 / d1.sum()).reshape((n,) + (1,) * len(extra)) * b
    c.is_backend(got, "weights")
    c.close(got, want, "position weights", rtol=1e-11, kind=kind, shape=d.shape)
    c.key(c.bk, kind, d.shape)


@case(PID, q=40, t=400, backends=("np", "strict", "jax"))
def scale_of_densities(c):
    """Weights depend on the ratios of the densities only, however small or large they are."""
    import glass

    r = c.r
    n = int(r.integers(1, 6))
    extra = tuple(int(r.integers(1, 4)) for _ in range(int(r.integers(0, 2))))
    d = r.uniform(0.01, 5, (n,) + extra)
    scale = 10.0 ** r.uniform(-30, 30, extra)
    c.close(glass.position_weights(c.a(d * scale)), d / d.sum(axis=0), "weights depend on the scale of the densities", rtol=1e-12, scale=scale)
    x = np.linspace(0.2, 1.0, 6)
    w = glass.RadialWindow(c.a(x), c.a(np.ones(6) * float(10.0 ** r.uniform(-20, 20))), 0.6)
    b = r.uniform(0.5, 2, 6)
    c.close(glass.effective_bias(c.a(x), c.a(b), w), np.float64(((b[1:] + b[:-1]) / 2 * np.diff(x)).sum() / 0.8), "effective bias depends on the scale of the window", rtol=1e-10)
    c.key(c.bk, n, extra, c.idx)
