"""C14: redshift samples follow their distribution and population order."""

import warnings

import numpy as np
from scipy import stats

from ..core import case
from ..fits import uniform_fit
from ..rngs import RecRNG

PID = "C14"
P = 1e-9


def cdf_of(z, nz):
    c = np.concatenate([[0], np.cumsum((nz[1:] + nz[:-1]) / 2 * np.diff(z))])
    return c / c[-1]


def dist(r, lo, hi, n=None):
    n = int(r.integers(2, 15)) if n is None else n
    z = np.sort(r.uniform(lo, hi, n - 2)) if n > 2 else np.zeros(0)
    z = np.concatenate([[lo], z, [hi]])
    nz = r.uniform(0.1, 2, n)
    if n > 5 and r.random() < 0.5:
        k = int(r.integers(1, n - 3))
        nz[k : k + 3] = 0
    if r.random() < 0.3:
        nz[0] = nz[-1] = 0
        if nz.sum() == 0:
            nz[:] = 1
    return z, nz


def follows(c, x, z, nz, what):
    """All samples inside the support and KS-consistent with the piecewise-linear cdf."""
    c.check(np.all((x >= z[0]) & (x <= z[-1])), f"{what}: redshift outside the support", x=x[(x < z[0]) | (x > z[-1])][:3])
    cdf = cdf_of(z, nz)
    # stretches of zero probability are not visited
    flat = np.flatnonzero(np.diff(cdf) == 0)
    for k in flat:
        inside = (x > z[k] + 1e-9) & (x < z[k + 1] - 1e-9)
        c.check(not inside.any(), f"{what}: redshift where the distribution vanishes", x=x[inside][:3])
    if x.size >= 30:
        uniform_fit(c, np.interp(x, z, cdf), f"{what}: does not follow the cumulative distribution")


def replay(c, rng, counts, zs, nzs, got, what):
    """Exact inverse of the recorded uniforms, if the sampler drew them that way."""
    calls = rng.calls("uniform")
    if [np.size(o) for _, o in calls] != list(counts) or any(np.any(kw["low"] != 0) or np.any(kw["high"] != 1) for kw, _ in calls):
        return
    want = np.concatenate([np.interp(np.ravel(o), cdf_of(z, nz), z) for (_, o), z, nz in zip(calls, zs, nzs)] + [np.zeros(0)])
    c.close(got, want, f"{what}: not the inverse of the cumulative distribution", rtol=0, atol=1e-10)
    c.event("replays")


@case(PID, q=300, t=6000, backends=("np", "strict", "np", "np", "jax"))
def from_nz(c):
    import glass

    r = c.r
    dims = tuple(int(r.integers(1, 4)) for _ in range(int(r.integers(0, 3)))) if c.bk != "jax" else [(), (2,)][c.idx // 5 % 2]

    def lead():
        s = dims[len(dims) - int(r.integers(0, len(dims) + 1)) :]
        return tuple(1 if r.random() < 0.25 else v for v in s)

    lc, lz, ln = lead(), lead(), lead()
    full = np.broadcast_shapes(lc, lz, ln)
    n = int(r.integers(2, 12))
    # every population in its own redshift range if z has its axes
    z = np.zeros(lz + (n,))
    for q, k in enumerate(np.ndindex(lz)):
        z[k] = dist(r, 0.1 + 2 * q, 1.1 + 2 * q, n)[0]
    nz = np.zeros(ln + (n,))
    for q, k in enumerate(np.ndindex(ln)):
        nz[k] = dist(r, 0, 1, n)[1]
    cmax = int(r.choice([1, 5, 200])) if c.bk != "jax" else 20
    count = r.integers(0, cmax + 1, lc) if lc else int(r.integers(0, cmax + 1))
    if c.bk == "jax" and c.idx % 2:
        count = int(count) if lc == () else count
    rng = RecRNG(int(r.integers(1 << 30)))
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        warn = bool(r.random() < 0.5)
        if warn:
            got = glass.redshifts_from_nz(c.a(count) if np.ndim(count) else count, c.a(z), c.a(nz), rng=rng)
        else:
            got = glass.redshifts_from_nz(c.a(count) if np.ndim(count) else count, c.a(z), c.a(nz), rng=rng, warn=False)
    hit = any("often not the function" in str(w.message) for w in rec)
    c.check(hit == warn, "warning about redshifts_from_nz")
    c.is_backend(got, "redshifts")
    x = c.n(got)
    N = np.broadcast_to(count, full)
    c.check(x.shape == (int(N.sum()),), f"{x.shape} redshifts instead of {N.sum()}", dims=full)
    Z, Q = np.broadcast_to(z, full + (n,)), np.broadcast_to(nz, full + (n,))
    at = 0
    for k in np.ndindex(full):
        follows(c, x[at : at + int(N[k])], Z[k], Q[k], f"population {k}")
        at += int(N[k])
    replay(c, rng, [int(N[k]) for k in np.ndindex(full)], [Z[k] for k in np.ndindex(full)], [Q[k] for k in np.ndindex(full)], x, "populations")
    c.event("redshifts", x.size)
    c.event("populations", int(np.prod(full)))
    c.note(count=count, lz=lz, ln=ln)
    c.key(c.bk, lc, lz, ln, cmax)


@case(PID, q=100, t=1500, backends=("np", "strict", "np"))
def from_window(c):
    import glass

    r = c.r
    z, nz = dist(r, 0.2, 1.4)
    w = glass.RadialWindow(c.a(z), c.a(nz), 0.7)
    counts = int(r.choice([0, 1, 500])) if r.random() < 0.5 else r.integers(0, 100, int(r.integers(1, 4)))
    rng = RecRNG(int(r.integers(1 << 30)))
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        got = glass.redshifts(c.a(counts) if np.ndim(counts) else counts, w, rng=rng)
    c.check(not any("redshifts_from_nz" in str(x.message) for x in rec), "redshifts() warns about itself")
    c.is_backend(got, "redshifts")
    x = c.n(got)
    c.check(x.shape == (int(np.sum(counts)),), f"{x.shape} redshifts instead of {np.sum(counts)}")
    follows(c, x, z, nz, "window")
    if x.size:
        c.check(np.unique(x).size == x.size, "redshifts are repeated")
    c.key(c.bk, np.shape(counts), int(np.sum(counts)))


@case(PID, q=300, t=6000, backends=("np", "np", "strict", "np"))
def from_bins(c):
    import glass

    r = c.r
    nl = int(r.integers(1, 7)) if r.random() < 0.9 else int(r.integers(7, 40) if r.random() < 0.6 else r.integers(40, 300))
    kind = str(r.choice(["int", "neg", "float", "str"])) if c.bk == "np" else str(r.choice(["int", "neg", "float"]))
    if kind == "int":
        labels = [int(v) for v in r.permutation(400)[:nl]]
    elif kind == "neg":
        labels = [int(v) for v in r.permutation(400)[:nl] - 30]
    elif kind == "float":
        labels = [float(v) for v in r.permutation(400)[:nl] / 4.0]
    else:
        labels = [str(v) for v in r.permutation(["a", "bb", "C", "z1", "z10", "z2", "low"] + [f"bin {k}" for k in range(400)])[:nl]]
    shape = [(0,), (1,), (7,), (300,), (6, 5), (2, 3, 4), (50, 1), (1200,)][int(r.integers(0 if c.bk == "np" else 1, 8))]
    idx = r.integers(0, nl, shape)
    if r.random() < 0.3:
        idx = np.sort(idx.ravel()).reshape(shape)
    n = int(r.integers(2, 12))
    z = np.unique(np.concatenate([np.arange(0, nl + 1) * 1.0, r.uniform(0, nl, n)]))
    nzs = []
    for q in range(nl):
        # support of label q: only inside (q, q + 1)
        zz = np.where((z > q) & (z < q + 1), r.uniform(0.3, 2, z.size), 0.0)
        if zz.sum() == 0 or r.random() < 0.1:
            zz = np.where((z >= q) & (z <= q + 1), 1.0, 0.0)
        nzs.append(zz)
    perm = r.permutation(nl)
    d = {labels[q]: c.a(nzs[q]) for q in perm}
    if r.random() < 0.4:
        d[{"str": "unused", "float": 999.25}.get(kind, 999)] = c.a(np.ones(z.size))
    if shape == (0,):
        return c.event("assertions")
    bins = np.array(labels)[idx]
    rng = RecRNG(int(r.integers(1 << 30)))
    got = glass.redshifts_from_bins(c.a(bins), c.a(z), d, rng=rng)
    c.is_backend(got, "redshifts")
    x = c.n(got)
    c.check(x.shape == shape, f"shape {x.shape} instead of {shape}")
    for q in range(nl):
        mine = x[idx == q]
        if mine.size:
            follows(c, mine, z, nzs[q], f"label {labels[q]!r}")
            lo, hi = z[nzs[q] > 0].min(), z[nzs[q] > 0].max()
            c.check(np.all((mine >= max(lo - 1, 0)) & (mine <= hi + 1)), "redshift of another label")
    c.check(np.unique(x).size == x.size, "redshifts are repeated")
    if np.unique(idx).size > 1 and x.size > 200:
        pass
    c.event("redshifts", x.size)
    c.note(kind=kind, shape=shape, labels=labels)
    c.key(c.bk, kind, shape, nl)


@case(PID, q=12, t=120, backends=("np", "np", "strict"))
def independence(c):
    """Populations with the same distribution do not share their draws; positions of one label are exchangeable."""
    import glass

    r = c.r
    z, nz = dist(r, 0.0, 1.0)
    m = 400
    x = c.n(glass.redshifts_from_nz(c.a(np.full(4, m)), c.a(z), c.a(nz), rng=np.random.default_rng(c.idx), warn=False)).reshape(4, m)
    for a in range(4):
        for b in range(a):
            c.check(np.intersect1d(x[a], x[b]).size == 0, "populations share redshifts")
            rho = stats.spearmanr(x[a], x[b])[0]
            c.check(abs(rho) * np.sqrt(m) < 6.5, "populations are correlated", rho=rho)
    # two labels, same distribution: no order inside a label
    bins = r.integers(0, 2, 3000)
    y = c.n(glass.redshifts_from_bins(c.a(bins), c.a(z), {0: c.a(nz), 1: c.a(nz)}, rng=np.random.default_rng(c.idx)))
    for q in (0, 1):
        s = y[bins == q]
        rho = stats.spearmanr(np.arange(s.size), s)[0]
        c.check(abs(rho) * np.sqrt(s.size) < 6.5, "redshifts are ordered inside a label", rho=rho)
    c.key(c.bk, c.idx)


@case(PID, q=2, t=40)
def large(c):
    """A million redshifts of one distribution."""
    import glass

    r = c.r
    z, nz = dist(r, 0.0, 2.0, 9)
    rng = RecRNG(int(r.integers(1 << 30)))
    n = int(r.choice([1_000_000, 123_457]))
    x = glass.redshifts_from_nz(n, z, nz, rng=rng, warn=False)
    follows(c, x, z, nz, "large sample")
    replay(c, rng, [n], [z], [nz], x, "large sample")
    z2, nz2 = dist(r, 0.0, 2.0, 5)
    nz2i = np.interp(z, z2, nz2)
    lab = r.integers(0, 2, 800_000)
    x = glass.redshifts_from_bins(lab, z, {0: nz, 1: nz2i}, rng=rng)
    follows(c, x[lab == 0], z, nz, "large sample of one bin")
    follows(c, x[lab == 1], z, nz2i, "large sample of another bin")
    c.key(c.idx)


@case(PID, q=6, t=60, backends=("np", "np", "strict"))
def fine_grids(c):
    """Distributions tabulated at thousands of redshifts, and many populations."""
    import glass

    r = c.r
    m = int(10 ** r.uniform(3, 4.7))
    z = np.linspace(r.uniform(0, 1), r.uniform(2, 5), m) if r.random() < 0.5 else np.cumsum(r.uniform(0.1, 1, m)) * 1e-4
    nz = np.exp(-((z - z.mean()) ** 2) / 2 / np.ptp(z) ** 2) * r.uniform(0.2, 1, m)
    rng = RecRNG(int(r.integers(1 << 30)))
    n = int(r.integers(200, 3000))
    x = c.n(glass.redshifts_from_nz(n, c.a(z), c.a(nz), rng=rng, warn=False))
    follows(c, x, z, nz, "fine grid")
    replay(c, rng, [n], [z], [nz], x, "fine grid")
    # many populations
    k = int(r.integers(20, 300))
    counts = r.integers(0, 4, k)
    lo = np.arange(k) * 1.0
    zz = lo[:, None] + np.linspace(0, 1, 4)
    nn = r.uniform(0.2, 1, (k, 4))
    rng = RecRNG(int(r.integers(1 << 30)))
    x = c.n(glass.redshifts_from_nz(c.a(counts), c.a(zz), c.a(nn), rng=rng, warn=False))
    owner = np.repeat(np.arange(k), counts)
    c.check(x.shape == owner.shape, f"{x.shape} redshifts instead of {owner.size}")
    c.check(np.all((x >= owner) & (x <= owner + 1)), "redshifts are not in the order of the populations", k=k)
    replay(c, rng, counts, zz, nn, x, "many populations")
    c.key(m, k, c.bk)


@case(PID, q=3, t=40, backends=("np", "strict", "np"))
def small(c):
    """Thousands of calls for a few redshifts each together follow the distribution."""
    import glass

    r = c.r
    z, nz = dist(r, 0.0, 2.0, 7)
    rng = np.random.default_rng(int(r.integers(1 << 30)))
    za, na = c.a(z), c.a(nz)
    w = glass.RadialWindow(za, na, 1.0)
    a, b, d, f = [], [], [], []
    for _ in range(700):
        a.append(c.n(glass.redshifts_from_nz(1, za, na, rng=rng, warn=False)))
        b.append(c.n(glass.redshifts(3, w, rng=rng)))
        x = c.n(glass.redshifts_from_bins(c.a(np.array([1, 0, 1])), za, {0: na, 1: na}, rng=rng))
        d.append(x[1:2])
        f.append(x[[0, 2]])
    for v, what in ((a, "one redshift"), (b, "three redshifts"), (d, "one redshift in a bin"), (f, "two redshifts in a bin")):
        follows(c, np.concatenate(v), z, nz, f"many calls for {what}")
    t = np.interp(np.stack(b), z, cdf_of(z, nz))
    for j in range(3):
        c.check(stats.kstest(t[:, j], "uniform").pvalue > P, "place within the result is not exchangeable")
    c.check(abs(np.corrcoef(t[:, 0], t[:, 1])[0, 1]) * np.sqrt(len(t)) < 6.5, "redshifts of one call are correlated")
    c.key(c.bk, c.idx)
