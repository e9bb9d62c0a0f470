"""C20: restricting and combining functions agree with the windows."""

import numpy as np

from ..core import case

PID = "C20"
JB = ("np", "strict", "np", "np", "strict", "np", "np", "strict", "np", "np", "strict", "np", "np", "strict", "np", "jax")


def trapz(y, x):
    return ((y[..., 1:] + y[..., :-1]) / 2 * np.diff(x)).sum(axis=-1)


def window(r, lo=0.0, hi=3.0):
    n = int(r.integers(2, 12))
    za = np.unique(np.concatenate([r.uniform(lo, hi, n)]))
    if za.size < 2:
        za = np.array([lo, hi])
    wa = r.uniform(0, 2, za.size)
    if r.random() < 0.5:
        wa[0] = wa[-1] = 0
    if not np.any(wa > 0):
        wa[:] = 1.0
    return za, wa


def function(r, za, lead, kind=None):
    """Function grid relative to a window."""
    k = int(r.integers(0, 7)) if kind is None else kind
    a, b = za[0], za[-1]
    if k == 0:  # finer, wider
        z = np.unique(np.concatenate([np.linspace(a - 0.1, b + 0.1, 60)]))
    elif k == 1:  # coarse: no point inside
        z = np.array([a - 0.3, b + 0.4])
    elif k == 2:  # shares nodes
        z = np.unique(np.concatenate([za[::2], r.uniform(a, b, 5)]))
    elif k == 3:  # narrower than the window
        z = np.linspace(a + 0.3 * (b - a), b - 0.2 * (b - a), 9)
    elif k == 4:  # identical grid
        z = za.copy()
    elif k == 5:  # no overlap
        z = b + 0.5 + np.arange(4) * 0.1
    elif r.random() < 0.03:  # very fine
        z = np.linspace(a - 0.1, b + 0.1, 70_000)
    elif r.random() < 0.2:  # steps next to the window's own nodes
        z = np.unique(np.concatenate([za - 1e-10, za + 1e-10, za + 0.02]))
    else:  # partial overlap
        z = np.linspace(a + 0.4 * (b - a), b + 1, 8)
    return z, r.normal(size=lead + (z.size,)), k


def interp(x, xp, fp):
    out = np.empty(fp.shape[:-1] + x.shape)
    for i in np.ndindex(fp.shape[:-1]):
        out[i] = np.interp(x, xp, fp[i], left=0.0, right=0.0)
    return out


def lead_shape(r):
    return [(), (), (3,), (2, 2), (1, 2, 3)][int(r.integers(0, 5))]


@case(PID, q=500, t=12000, backends=JB)
def restrict(c):
    import glass

    r = c.r
    za, wa = window(r)
    lead = lead_shape(r)
    z, f, k = function(r, za, lead, 3 if c.bk == "jax" else None)
    if c.bk == "jax":
        za, wa = np.linspace(0, 1, 5), np.array([0, 1, 2, 1, 0.0])
        z, f = np.linspace(0.1, 0.9, 4), r.normal(size=(2, 4))
    w = glass.RadialWindow(c.a(za), c.a(wa), float(za.mean()))
    zr, fr = glass.restrict(c.a(z), c.a(f), w)
    c.is_backend(zr, "redshifts")
    c.is_backend(fr, "values")
    want = np.unique(np.concatenate([za, z[(z > za[0]) & (z < za[-1])]]))
    c.same(zr, want, "restricted grid", kind=k)
    c.close(fr, interp(want, z, f) * np.interp(want, za, wa), "restricted values", rtol=1e-11, atol=1e-13, kind=k, za=za, z=z)
    c.note(za=za, z=z, kind=k)
    c.key(c.bk, k, f.shape, za.size)


@case(PID, q=500, t=12000, backends=JB)
def combine(c):
    import glass

    r = c.r
    n = int(r.integers(1, 6)) if c.bk != "jax" else 2
    ws = [window(r) for _ in range(n)]
    lead = lead_shape(r)
    if c.bk == "np" and r.random() < 0.02:  # a hundred shells
        ws, lead = [window(r) for _ in range(int(r.integers(60, 250)))], ()
    n = len(ws)
    z = np.sort(r.uniform(-0.2, 3.4, int(r.integers(0, 40))))
    if r.random() < 0.5:
        z = np.unique(np.concatenate([z] + [w[0] for w in ws]))
    if c.bk == "jax":
        ws = [(np.linspace(i, i + 2, 5), r.uniform(0.1, 1, 5)) for i in range(2)]
        n = 2
        z, lead = np.linspace(-0.5, 3.5, 12), (3,)
    x = r.normal(size=(n,) + lead)
    shells = [glass.RadialWindow(c.a(a), c.a(b), float(a.mean())) for a, b in ws]
    got = glass.combine(c.a(z), c.a(x), shells)
    c.is_backend(got, "combination")
    want = np.zeros(lead + z.shape)
    for i, (a, b) in enumerate(ws):
        want += x[i][..., None] * np.interp(z, a, b / trapz(b, a), left=0.0, right=0.0)
    c.close(got, want, "combination of windows", rtol=1e-10, atol=1e-11, n=n, lead=lead)
    c.note(n=n, lead=lead, z=z)
    c.key(c.bk, n, lead, z.size)


@case(PID, q=400, t=8000, backends=JB)
def partition_restrict(c):
    import glass

    r = c.r
    n = int(r.integers(1, 6)) if c.bk != "jax" else 2
    ws = [window(r) for _ in range(n)]
    lead = lead_shape(r)
    if c.bk == "np" and r.random() < 0.02:  # a hundred shells
        ws, lead = [window(r) for _ in range(int(r.integers(60, 250)))], ()
    n = len(ws)
    z, f, k = function(r, ws[0][0], lead)
    if c.bk == "jax":
        ws = [(np.linspace(i, i + 2, 5), r.uniform(0.1, 1, 5)) for i in range(2)]
        z, f, lead = np.linspace(0.1, 0.9, 4), r.normal(size=(2, 4)), (2,)
    shells = [glass.RadialWindow(c.a(a), c.a(b), float(a.mean())) for a, b in ws]
    got = glass.partition(c.a(z), c.a(f), shells, method="restrict")
    c.is_backend(got, "partition")
    want = np.empty((n,) + lead)
    for i, (a, b) in enumerate(ws):
        g = np.unique(np.concatenate([a, z[(z > a[0]) & (z < a[-1])]]))
        want[i] = trapz(interp(g, z, f) * np.interp(g, a, b), g)
    c.close(got, want, "partition by restriction", rtol=1e-10, atol=1e-12, kind=k)
    c.key(c.bk, n, lead, k)


@case(PID, q=60, t=600, backends=("np", "strict", "np", "np", "strict", "jax"))
def tophat_total(c):
    """Restricting to windows that tile the range keeps the total."""
    import glass

    r = c.r
    zb = np.concatenate([[0.0], np.cumsum(r.uniform(0.05, 0.4, 4))]) if c.bk != "jax" else np.arange(5) / 5
    shells = glass.tophat_windows(c.a(zb), 0.02 if c.bk != "jax" else 0.1)
    z = np.unique(np.concatenate([zb, r.uniform(0, zb[-1], 10)])) if c.bk != "jax" else np.arange(5) / 5
    f = r.uniform(0, 1, (2, z.size))
    got = c.n(glass.partition(c.a(z), c.a(f), shells, method="restrict"))
    c.close(got.sum(axis=0), trapz(f, z), "total over tiling windows", rtol=1e-9)
    c.raises(ValueError, lambda: glass.restrict(c.a(f), c.a(f), shells[0]), "two-dimensional redshifts")
    c.key(c.bk, c.idx)
