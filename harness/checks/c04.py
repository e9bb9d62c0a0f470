"""C04: transformed fields follow their transformation and Gaussian variance."""

import numpy as np

from ..core import case
from ..rngs import ReplayRNG
from .c01 import order
from .c03 import make_gls

PID = "C04"


class Recorder:
    """User-defined transformation that records what it is called with."""

    def __init__(self, tag, log):
        self.tag, self.log = tag, log

    def __call__(self, x, var, /):
        self.log.append((self.tag, np.array(x, copy=True), float(var)))
        return x + 10.0 * self.tag


def variance(gl):
    ell = np.arange(len(gl))
    return float(((2 * ell + 1) * gl).sum() / (4 * np.pi))


def ref(kind, par, x, var):
    if kind == "normal":
        return x
    if kind == "lognormal":
        return par[0] * (np.exp(x - var / 2) - 1)
    if kind == "squared":
        return par[1] * ((x - par[0]) ** 2 - 1)
    raise KeyError(kind)


def field(kind, par):
    import glass

    if kind == "normal":
        return glass.grf.Normal()
    if kind == "lognormal":
        return glass.grf.Lognormal(par[0]) if par[0] != 1.0 else glass.grf.Lognormal()
    return glass.grf.SquaredNormal(par[0], par[1])


def setup(c, nmax=5):
    r = c.r
    n = int(r.integers(1, nmax + 1 if c.bk != "jax" else 3))
    nside = int(r.choice([1, 2, 4]))
    nmodes = int(r.integers(1, 10))
    C, gls = make_gls(r, n, nmodes, ragged=r.random() < 0.6, zeros=False)
    amp = float(r.choice([0.05, 0.3, 1.0]))
    gls = [amp * g for g in gls]
    ncorr = None if r.random() < 0.5 else int(r.integers(0, n))
    if ncorr is not None and ncorr < n - 1:
        gls = [g if i == j else 0.3 * g for (i, j), g in zip(order(n), gls)]
    stream = r.normal(size=n * nmodes * (nmodes + 1) + 64)
    return n, nside, nmodes, gls, ncorr, stream


@case(PID, q=120, t=2500, backends=("np", "np", "strict", "np", "jax", "np", "np", "strict"))
def mixed_fields(c):
    """Same variates through Gaussian and transformed fields, mixed lists."""
    import glass

    r = c.r
    n, nside, nmodes, gls, ncorr, stream = setup(c)
    kinds, pars = [], []
    for _ in range(n):
        k = str(r.choice(["normal", "lognormal", "lognormal", "squared"]))
        kinds.append(k)
        pars.append((float(r.choice([1.0, 0.5, 2.3, 0.01, 1.5, 2.0])),) if k == "lognormal" else (float(r.uniform(0, 1)), float(r.choice([1.0, 0.4, 3.0]))))
    arr = [c.a(g) for g in gls]
    gauss = [np.array(c.n(m)) for m in glass.generate([glass.grf.Normal()] * n, arr, nside, ncorr=ncorr, rng=ReplayRNG(stream))]
    got = list(glass.generate([field(k, p) for k, p in zip(kinds, pars)], arr, nside, ncorr=ncorr, rng=ReplayRNG(stream)))
    c.check(len(got) == n, f"{len(got)} maps for {n} fields")
    for i in range(n):
        var = variance(gls[order(n).index((i, i))])
        c.is_backend(got[i], "map")
        g = c.n(got[i])
        c.close(g, ref(kinds[i], pars[i], gauss[i], var), f"field {i} ({kinds[i]}) is not its transformation of its own Gaussian map", rtol=1e-9, atol=1e-12, var=var, params=pars[i])
        if kinds[i] == "lognormal":
            c.check(g.min() >= -pars[i][0], "lognormal field below -lambda")
        if kinds[i] == "squared":
            c.check(g.min() >= -pars[i][1], "squared normal field below -lambda")
    c.event("fields", n)
    c.note(kinds=kinds, nside=nside, ncorr=ncorr)
    c.key(c.bk, "".join(k[0] for k in kinds), nside, ncorr)


@case(PID, q=60, t=1200, backends=("np", "strict", "np"))
def recorded_arguments(c):
    """Each transformation is called once, with its own map and that map's exact variance; result passed on."""
    import glass

    n, nside, nmodes, gls, ncorr, stream = setup(c)
    arr = [c.a(g) for g in gls]
    gauss = [np.array(c.n(m)) for m in glass.generate([glass.grf.Normal()] * n, arr, nside, ncorr=ncorr, rng=ReplayRNG(stream))]
    log = []
    out = [np.array(c.n(m)) for m in glass.generate([Recorder(i, log) for i in range(n)], arr, nside, ncorr=ncorr, rng=ReplayRNG(stream))]
    c.check([t for t, _, _ in log] == list(range(n)), "transformations called in the wrong order or number", calls=[t for t, _, _ in log])
    for i, (t, x, var) in enumerate(log):
        c.close(x, gauss[i], f"transformation {i} got another map", rtol=1e-12, atol=1e-14)
        c.close(var, variance(gls[order(n).index((i, i))]), f"variance passed to transformation {i}", rtol=1e-10)
        c.close(out[i], gauss[i] + 10.0 * i, f"map {i} is not the transformation's result", rtol=1e-12, atol=1e-12)
    c.key(c.bk, n, nside, ncorr, nmodes)


@case(PID, q=40, t=400, backends=("np", "strict", "jax", "np"))
def moments(c):
    """Zero mean and analytic variance of the transformations, by Gauss-Hermite quadrature of the callable."""
    import glass

    r = c.r
    x, w = np.polynomial.hermite_e.hermegauss(120)
    w = w / w.sum()
    var = float(r.uniform(0.0, 1.5))
    lam = float(r.choice([1.0, 0.3, 2.0, 7.5, 1.5]))
    X = np.sqrt(var) * x
    t = c.n(glass.grf.Lognormal(lam)(c.a(X), var))
    c.close((w * t).sum(), 0.0, "mean of lognormal field", rtol=0, atol=1e-9 * lam)
    c.close((w * t**2).sum(), lam**2 * np.expm1(var), "variance of lognormal field", rtol=1e-8, atol=1e-12)
    v = float(r.uniform(0, 1))
    a = float(np.sqrt(1 - v))
    t = c.n(glass.grf.SquaredNormal(a, lam)(c.a(np.sqrt(v) * x), v))
    c.close((w * t).sum(), 0.0, "mean of squared normal field", rtol=0, atol=1e-9 * lam)
    c.close((w * t**2).sum(), lam**2 * 2 * v * (v + 2 * a * a), "variance of squared normal field", rtol=1e-8, atol=1e-12)
    t = c.n(glass.grf.Normal()(c.a(X), var))
    c.same(t, X, "normal field changed")
    c.key(c.bk, round(var, 1), lam)


@case(PID, q=60, t=600)
def fields_for_shells(c):
    """One field per shell, in order, shift evaluated at the shell's effective redshift."""
    import glass

    r = c.r
    n = int(r.integers(0, 8))
    shells, zeffs = [], []
    for _ in range(n):
        za = np.sort(r.uniform(0, 3, size=4))
        ze = float(r.uniform(0.1, 3))
        zeffs.append(ze)
        shells.append(glass.RadialWindow(za, np.ones(4), ze))
    calls = []
    f = glass.lognormal_fields(shells, lambda z: calls.append(float(z)) or 0.1 + z)
    c.check(len(f) == n and [x.lamda for x in f] == [0.1 + z for z in zeffs], "lognormal shifts not those of the shells", got=[x.lamda for x in f], expected=[0.1 + z for z in zeffs])
    c.check(sorted(calls) == sorted(zeffs), "shift not evaluated at the effective redshifts")
    f = glass.lognormal_fields(shells)
    c.check(len(f) == n and all(type(x) is glass.grf.Lognormal and x.lamda == 1.0 for x in f), "default lognormal fields")
    f = glass.gaussian_fields(shells)
    c.check(len(f) == n and all(type(x) is glass.grf.Normal for x in f), "gaussian fields")
    z = float(r.uniform(0, 3))
    c.close(glass.lognormal_shift_hilbert2011(z), 0.008 * z + 0.029 * z**2 - 0.0079 * z**3 + 0.00065 * z**4, "Hilbert et al. shift", rtol=1e-12)
    c.key(n, c.idx)


@case(PID, q=40, t=400, backends=("np", "strict", "np", "jax"))
def small_signals(c):
    """Fields of tiny amplitude keep their relative precision."""
    import glass

    r = c.r
    amp = 10.0 ** r.uniform(-13, -6)
    lam = float(r.choice([1.0, 1.5, 2.0, 0.3, 7.5, 1e-3]))
    x = amp * r.normal(size=20)
    var = float(amp**2 * r.uniform(0, 2))
    t = x - var / 2
    # Taylor series: the next term is below 1e-24 relative
    c.close(glass.grf.Lognormal(lam)(c.a(x), var), lam * (t + t * t / 2 + t**3 / 6), "lognormal field of small amplitude", rtol=1e-12, atol=0, amp=amp)
    c.same(glass.grf.Normal()(c.a(x), var), x, "normal field changed")
    c.key(c.bk, lam, round(np.log10(amp)))


@case(PID, q=60, t=600, backends=("np", "strict", "np", "jax"))
def wide_signals(c):
    """The formulas hold for any value a Gaussian field may take, however rare."""
    import glass

    r = c.r
    lam = float(r.choice([1.0, 1.5, 0.3, 1e-3, 40.0]))
    var = float(r.choice([0.0, 0.5, 4.0, 30.0, 400.0]))
    x = np.concatenate([r.normal(size=20) * np.sqrt(var), r.uniform(-80, 80, 20), [0.0, var / 2, -600.0, 300.0]])
    t = c.n(glass.grf.Lognormal(lam)(c.a(x), var))
    c.close(t, lam * np.expm1(x - var / 2), "lognormal field of large values", rtol=1e-12, atol=0, var=var)
    c.close(t[t < 0] + lam, lam * np.exp((x - var / 2)[t < 0]), "distance of the lognormal field from its floor", rtol=1e-9, atol=1e-15 * lam, var=var)
    c.check(np.all(t >= -lam), "lognormal field below its floor")
    a = float(r.uniform(-2, 2))
    s = c.n(glass.grf.SquaredNormal(a, lam)(c.a(x), var))
    c.close(s, lam * ((x - a) ** 2 - 1), "squared normal field of large values", rtol=1e-12, atol=1e-12 * lam)
    c.same(glass.grf.Normal()(c.a(x), var), x, "normal field changed")
    c.key(c.bk, lam, var)
