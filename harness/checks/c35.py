"""C35: deprecated entry points equal their replacements."""

import os
import warnings

import numpy as np

from .. import datapath
from ..core import case, to_np
from ..rngs import RecRNG

PID = "C35"


def spectra(r, n, nl, empties=True):
    """Valid Gaussian spectra of n fields in standard order (i, j = i, i-1, ..., 0), some empty."""
    amp = np.exp(-np.arange(nl) / r.uniform(3, 12)) * r.uniform(1e-4, 2e-2)
    s = r.uniform(0.5, 1.5, size=n)
    out = []
    for i in range(n):
        for j in range(i, -1, -1):
            # diagonally dominant at every l, however the cross-spectra are cut
            c = amp * s[i] * s[j] * (1.0 if i == j else r.uniform(-0.9, 0.9) / n)
            if i != j and empties and r.random() < 0.25:
                c = np.zeros(0)
            elif i != j and r.random() < 0.3:
                c = c[: int(r.integers(1, nl + 1))]
            out.append(c)
    return out


def quietly(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


# calls that come from nowhere in this file
_GO = {}
exec(compile("def go(fn):\n    return fn()\n", "<elsewhere>", "exec"), _GO)


def warned(c, fn, name):
    """Result of a deprecated call, which must announce itself on the call."""
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        out = _GO["go"](fn)
        hits = [w for w in log if issubclass(w.category, DeprecationWarning) and "glass" in str(w.message)]
    c.check(len(hits) >= 1, f"{name} gives no DeprecationWarning")
    c.check(any("use" in str(w.message) for w in hits), f"{name}: warning does not name a replacement", msg_=[str(w.message) for w in hits])
    c.check(any(os.path.realpath(w.filename) == os.path.realpath(__file__) for w in hits), f"{name}: warning is not attributed to the line of the call", where=[w.filename for w in hits])
    with warnings.catch_warnings():
        warnings.simplefilter("error", DeprecationWarning)
        try:
            fn()
        except DeprecationWarning:
            pass
        else:
            c.check(False, f"{name}: DeprecationWarning cannot be turned into an error")
    return out


@case(PID, q=40, t=600, backends=("np", "np", "strict", "np", "np"))
def gls(c):
    import glass

    r = c.r
    n = int(r.integers(1, 4))
    cls = spectra(r, n, int(r.integers(2, 40)))
    arg = [c.a(x) for x in cls]
    shift = float(r.choice([1.0, r.uniform(0.1, 3)]))
    if shift == 1.0 and r.random() < 0.7:
        got = warned(c, lambda: glass.lognormal_gls(arg), "lognormal_gls")
    elif r.random() < 0.5:
        got = warned(c, lambda: glass.lognormal_gls(arg, shift), "lognormal_gls")
    elif r.random() < 0.5:
        got = warned(c, lambda: glass.lognormal_gls(arg, shift=shift), "lognormal_gls")
    else:
        got = warned(c, lambda: glass.lognormal_gls(cls=arg, shift=shift), "lognormal_gls")
    want = quietly(lambda: glass.solve_gaussian_spectra([glass.grf.Lognormal(shift)] * n, [c.a(x) for x in cls]))
    c.check(len(got) == len(want), "number of spectra")
    for g, w in zip(got, want):
        c.is_backend(g, "spectrum")
        c.close(g, to_np(w), "Gaussian spectrum", rtol=1e-12, atol=1e-300, shift=shift)
    # and it is what the method promises
    for x, a in zip(cls, arg):
        c.same(a, x, "input spectra changed")
    c.key(c.bk, n, shift, [x.size for x in cls])


def make_rng(c, seed, kind):
    if kind == "none":
        return None
    if kind == "rec":
        return RecRNG(seed)
    if c.bk == "jax":
        import glass.jax

        return glass.jax.Generator(seed)
    return np.random.default_rng(seed)


@case(PID, q=70, t=1200, backends=("np", "np", "strict", "np", "np", "np"))
def fields(c):
    import glass

    r = c.r
    n = int(r.integers(1, 5))
    nl = int(r.integers(2, 17))
    gls = spectra(r, n, nl)
    gls[0] = gls[0] if gls[0].size else np.ones(2) * 1e-3
    nside = int(2 ** r.integers(0, 5))
    call = {}
    if r.random() < 0.6:
        call["ncorr"] = int(r.integers(0, n + 1))
    kind = str(r.choice(["none", "rec", "own"]))
    seed = int(r.integers(1 << 30))
    logn = bool(r.integers(0, 2))
    shift = float(r.choice([1.0, r.uniform(0.1, 3)]))
    arg = [c.a(x) for x in gls]

    def pair():
        r1, r2 = make_rng(c, seed, kind), make_rng(c, seed, kind)
        k1 = dict(call) if kind == "none" and seed % 2 else dict(call, rng=r1)
        k2 = dict(call, rng=r2)
        return r1, r2, k1, k2

    r1, r2, k1, k2 = pair()
    named = r.random() < 0.3
    if named and logn:
        old = lambda: glass.generate_lognormal(gls=arg, nside=nside, shift=shift, **k1)
    elif named:
        old = lambda: glass.generate_gaussian(gls=arg, nside=nside, **k1)
    elif logn:
        if shift == 1.0 and seed % 3:
            old = lambda: glass.generate_lognormal(arg, nside, **k1)
        elif seed % 2:
            old = lambda: glass.generate_lognormal(arg, nside, shift, **k1)
        else:
            old = lambda: glass.generate_lognormal(arg, nside, shift=shift, **k1)
    else:
        old = lambda: glass.generate_gaussian(arg, nside, **k1)
    fl = [glass.grf.Lognormal(shift) if logn else glass.grf.Normal()] * n
    name = "generate_lognormal" if logn else "generate_gaussian"
    it = warned(c, old, name)
    ref = glass.generate(fl, [c.a(x) for x in gls], nside, **k2)
    count = 0
    while True:
        g, w = next(it, None), next(ref, None)
        c.check((g is None) == (w is None), f"{name}: number of fields", count=count, n=n)
        if g is None:
            break
        count += 1
        c.is_backend(g, "field")
        c.close(g, to_np(w), f"{name} field {count}", rtol=1e-12, atol=1e-14, call=call, kind=kind)
        if kind == "rec":
            # the same draws are used up, field by field
            c.check(len(r1.log) == len(r2.log), f"{name}: different number of draws", a=len(r1.log), b=len(r2.log))
    c.check(count == n, f"{count} fields instead of {n}")
    if kind == "rec":
        for (m1, _, o1), (m2, _, o2) in zip(r1.log, r2.log):
            c.check(m1 == m2 and np.array_equal(o1, o2), f"{name}: different draws")
    c.event("fields", count)
    c.key(c.bk, n, nl, nside, call.get("ncorr"), kind, logn)


@case(PID, q=1, t=6, backends=("jax",))
def fields_jax(c):
    import glass

    gls = [c.a(np.exp(-np.arange(5.0)))] + [c.a(0.3 * np.exp(-np.arange(5.0))) for _ in range(2)]
    for old, fl in ((glass.generate_gaussian, glass.grf.Normal()), (glass.generate_lognormal, glass.grf.Lognormal(1.0))):
        got = list(quietly(lambda: old(gls, 2, rng=make_rng(c, 3 + c.idx, "own"))))
        want = list(glass.generate([fl, fl], gls, 2, rng=make_rng(c, 3 + c.idx, "own")))
        c.check(len(got) == len(want) == 2, "number of fields")
        for g, w in zip(got, want):
            c.is_backend(g, "field")
            c.close(g, to_np(w), "field", rtol=1e-10, atol=1e-12)


@case(PID, q=20, t=300, backends=("np", "strict"))
def refusals(c):
    """The deprecated functions refuse what their replacements refuse."""
    import glass

    r = c.r
    bad = [c.a(np.ones(3))] * int(r.choice([2, 4, 5, 7]))
    for fn in (
        lambda: glass.lognormal_gls(bad),
        lambda: list(glass.generate_gaussian(bad, 2)),
        lambda: list(glass.generate_lognormal(bad, 2)),
    ):
        c.raises(ValueError, lambda: quietly(fn), "wrong number of spectra accepted")
    empty = [c.a(np.zeros(0))] * 3
    for fn in (lambda: list(glass.generate_gaussian(empty, 2)), lambda: list(glass.generate_lognormal(empty, 2))):
        c.raises(ValueError, lambda: quietly(fn), "empty spectra accepted")
    c.key(c.bk, len(bad))


@case(PID, q=60, t=1000, backends=("np",))
def shear(c):
    import glass

    r = c.r
    nside = int(2 ** r.integers(1, 5))
    datapath.make([nside], int(r.integers(0, 2)))
    lmax = None if r.random() < 0.4 else int(r.integers(2, 3 * nside))
    disc = bool(r.integers(0, 2))
    kappa = r.normal(size=12 * nside**2)
    call = {} if (disc and r.random() < 0.5) else dict(discretized=disc)
    old = glass.shear_from_convergence(kappa, lmax, **call)
    (new,) = glass.from_convergence(kappa, lmax, shear=True, **call)
    c.check(len(old) == 2, "two components")
    tol = 1e-10 * np.abs(new).max()
    c.close(old[0], new.real, "first shear component", rtol=1e-9, atol=tol, disc=disc, lmax=lmax)
    c.close(old[1], new.imag, "second shear component", rtol=1e-9, atol=tol, disc=disc, lmax=lmax)
    c.key(nside, lmax, disc)


def unit(lon, lat):
    lon, lat = np.radians(lon), np.radians(lat)
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], -1)


@case(PID, q=200, t=5000, backends=("np", "np", "np", "strict", "np", "strict", "np") * 3 + ("jax",))
def deflect(c):
    """deflect() counts bearings clockwise where displace() counts them counter-clockwise."""
    import glass

    r = c.r
    shape = (6,) if c.bk == "jax" else [(6,), (2, 3), (1,)][int(r.integers(3))]
    lon = r.uniform(-360, 360, size=shape)
    lat = np.degrees(np.arcsin(r.uniform(-1, 1, size=shape)))
    if r.random() < 0.3:
        lat[(0,) * len(shape)] = float(r.choice([-90, 90, 0]))
    al = (r.normal(size=shape) + 1j * r.normal(size=shape)) * 10 ** r.uniform(-6, 0)
    pair = bool(r.integers(0, 2))
    pack = lambda a: c.a(np.stack([a.real, a.imag])) if pair else c.a(a)
    lo, la = glass.deflect(c.a(lon), c.a(lat), pack(al))
    wo, wa = glass.displace(c.a(lon), c.a(lat), pack(al.conj()))
    c.is_backend(lo, "longitudes")
    c.is_backend(la, "latitudes")
    d = np.linalg.norm(unit(c.n(lo), c.n(la)) - unit(c.n(wo), c.n(wa)), axis=-1)
    c.check(d.max() < 3e-8, "deflected position", dist=float(d.max()))
    c.key(c.bk, shape, pair)
