"""Catalogue of the public functions of glass with hostile but valid inputs.

Every entry builds a *call*: a function, a tree of numpy arguments and keyword
arguments.  The drivers of C30, C31 and C32 convert the tree to a backend, run
the call, and watch.  ``r`` draws values, ``s`` draws shapes and options (so
that shapes can be kept fixed for backends that compile per shape).
"""

from __future__ import annotations

import types

import numpy as np

from .core import backend, backend_name
from .cosmo import Cosmo

ALL = ("np", "strict", "jax")
NS = ("np", "strict")
ENTRIES = {}


class Spec:
    def __init__(self, name, fn, rng, backends, rtol, atol, bad, nside, copies, shares, heavy):
        self.name, self.build, self.rng, self.backends = name, fn, rng, backends
        self.rtol, self.atol, self.bad, self.nside = rtol, atol, bad, nside
        self.copies = copies  # keyword arguments allow in-place changes / results share buffers by design
        self.shares = shares
        self.heavy = heavy


def entry(rng=False, backends=ALL, rtol=1e-9, atol=1e-11, bad=None, nside=None, copies=True, shares=False, heavy=False):
    def deco(fn):
        ENTRIES[fn.__name__] = Spec(fn.__name__, fn, rng, backends, rtol, atol, bad, nside, copies, shares, heavy)
        return fn

    return deco


class _XP:
    pass


XP = _XP()


class Call:
    def __init__(self, fn, *args, **kw):
        self.fn, self.args, self.kw = fn, args, kw


def walk(tree, leaf):
    """Rebuild a tree with leaf() applied to arrays and sentinels."""
    import glass

    if isinstance(tree, np.ndarray) or tree is XP:
        return leaf(tree)
    if isinstance(tree, np.generic):
        return tree.item()
    if isinstance(tree, glass.RadialWindow):
        return glass.RadialWindow(walk(tree.za, leaf), walk(tree.wa, leaf), float(tree.zeff))
    if isinstance(tree, tuple):
        return tuple(walk(t, leaf) for t in tree)
    if isinstance(tree, list):
        return [walk(t, leaf) for t in tree]
    if isinstance(tree, dict):
        return {k: walk(t, leaf) for k, t in tree.items()}
    return tree


def arrays_of(tree, path="arg"):
    """All array leaves of a tree of any backend, with their place."""
    import glass

    if isinstance(tree, glass.RadialWindow):
        yield from arrays_of([tree.za, tree.wa], f"{path}.window")
    elif isinstance(tree, (tuple, list)):
        for i, t in enumerate(tree):
            yield from arrays_of(t, f"{path}[{i}]")
    elif isinstance(tree, dict):
        for k, t in tree.items():
            yield from arrays_of(t, f"{path}[{k!r}]")
    elif backend_name(tree) in ALL:
        yield path, tree


def converter(bk, layout="C"):
    xp = backend(bk)

    def leaf(a):
        if a is XP:
            return xp
        if bk == "jax":
            return xp.array(a, copy=True)
        if bk == "strict":
            return xp.asarray(a.copy())
        if layout == "F" and a.ndim > 1:
            return np.asfortranarray(a)
        if layout == "strided" and a.ndim:
            big = np.full(tuple(2 * n + 1 for n in a.shape), 7, dtype=a.dtype)
            view = big[tuple(slice(1, None, 2) for _ in a.shape)]
            view[...] = a
            return view
        if layout == "reversed" and a.ndim:
            return np.ascontiguousarray(a[::-1])[::-1]
        return a.copy()

    return leaf


def run(call, bk, rng=None, layout="C", seen=None):
    """Run a call on a backend; iterators are collected (seen gets copies made as they arrive)."""
    leaf = converter(bk, layout)
    args = walk(list(call.args), leaf)
    kw = walk(dict(call.kw), leaf)
    if rng is not None:
        kw["rng"] = rng
    return args, kw, invoke(call.fn, args, kw, seen)


def invoke(fn, args, kw, seen=None):
    out = fn(*args, **kw)
    if isinstance(out, types.GeneratorType) or (hasattr(out, "__next__") and not isinstance(out, np.ndarray)):
        items = []
        for x in out:
            items.append(x)
            if seen is not None:
                seen.append(freeze(x))
        return items
    return out


def freeze(out):
    """Numpy deep copy of an output tree, with types noted."""
    import glass

    if isinstance(out, glass.RadialWindow):
        return ("window", freeze(out.za), freeze(out.wa), float(out.zeff))
    if isinstance(out, (tuple, list)):
        return ("seq", *[freeze(o) for o in out])
    if isinstance(out, dict):
        return ("dict", *[(k, freeze(v)) for k, v in out.items()])
    if backend_name(out) in ALL:
        return np.array(out, copy=True)
    return out


def same(a, b, rtol=0.0, atol=0.0, where="result"):
    """First difference of two frozen trees, or None."""
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
            return f"{where}: structure {brief(a)} and {brief(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, rtol, atol, f"{where}[{i - 1}]" if i else where)
            if d:
                return d
        return None
    if isinstance(a, (str, bytes, type(None))) or isinstance(b, (str, bytes, type(None))):
        return None if a == b else f"{where}: {a!r} and {b!r}"
    try:
        x, y = np.asarray(a), np.asarray(b)
    except Exception:  # noqa: BLE001
        return None
    if x.dtype == object or y.dtype == object:
        return None if (type(a) is type(b) and a == b) else f"{where}: {a!r} and {b!r}"
    if x.shape != y.shape:
        return f"{where}: shapes {x.shape} and {y.shape}"
    if x.dtype.kind in "fc" and y.dtype.kind in "fc":
        scale = np.max(np.abs(y[np.isfinite(y)]), initial=0.0)
        with np.errstate(all="ignore"):
            ok = (np.abs(x - y) <= rtol * np.abs(y) + atol * scale) | (x == y) | (np.isnan(x) & np.isnan(y))
    else:
        ok = x == y
    if not np.all(ok):
        i = tuple(int(v) for v in np.argwhere(~ok)[0])
        return f"{where}: values {x[i]!r} and {y[i]!r} at {i}"
    return None


def brief(a):
    return type(a).__name__ if not isinstance(a, tuple) else f"sequence of {len(a) - 1}"


# ----------------------------------------------------------------- inputs


def shape_of(s, lo=0, hi=2, top=4):
    return tuple(int(v) for v in s.integers(1, top + 1, size=int(s.integers(lo, hi + 1))))


def windows(r, s, n=None, weighted=True):
    """Overlapping windows on different grids."""
    import glass

    n = n or int(s.integers(1, 5))
    out = []
    for i in range(n):
        m = int(s.integers(5, 12))
        za = np.linspace(0.3 * i, 0.3 * i + 0.7, m)
        wa = r.uniform(0.2, 1, size=m)
        if s.random() < 0.5:
            wa[0] = wa[-1] = 0.0
        out.append(glass.RadialWindow(za, wa, float(0.3 * i + 0.35)))
    return out


def spectra(r, s, n=None, nl=None, empty=False):
    n = n or int(s.integers(1, 4))
    nl = nl or int(s.integers(2, 9))
    base = np.exp(-np.arange(nl) / 4.0) * 1e-2
    out = []
    for i in range(n):
        for j in range(i, -1, -1):
            c = base * (r.uniform(1, 2) if i == j else r.uniform(-0.9, 0.9) / n)
            if empty and i != j and s.random() < 0.3:
                c = np.zeros(0)
            out.append(c)
    return out, n, nl


def cosmo(r):
    return Cosmo(float(r.uniform(0.2, 0.4)), 0.0, float(r.uniform(0.6, 0.8)), xp=None)


def nz_of(r, s, lead=()):
    m = int(s.integers(5, 12))
    z = np.linspace(0.1, 2.0, m)
    return z, r.uniform(0.1, 1.0, size=(*lead, m))


def healpix_map(r, s, nside, lead=()):
    return r.normal(size=(*lead, 12 * nside**2))


# ------------------------------------------------------------ two-point


@entry()
def iternorm(r, s):
    import glass

    n = int(s.integers(1, 4))
    size = int(s.integers(1, 5))
    rows = []
    for k in range(n):
        c = r.uniform(-0.2, 0.2, size=(size, n + 1))
        c[:, 0] = r.uniform(1, 2, size=size)
        rows.append(c)
    return Call(glass.iternorm, rows)


@entry(shares=True)
def cls2cov(r, s):
    import glass

    cls, n, nl = spectra(r, s)
    fn = lambda *a: [_copy(x) for x in glass.cls2cov(*a)]
    return Call(fn, cls, nl, n, int(s.integers(0, n)))


def _copy(x):
    xp = backend(backend_name(x))
    return xp.asarray(np.array(x))


@entry()
def discretized_cls(r, s):
    import glass

    cls, n, nl = spectra(r, s, empty=True)
    return Call(glass.discretized_cls, cls, lmax=int(s.integers(0, 10)), ncorr=int(s.integers(0, n)))


@entry(nside=4)
def discretized_cls_nside(r, s):
    import glass

    cls, n, nl = spectra(r, s)
    kw = dict(lmax=int(s.integers(0, 10))) if s.random() < 0.5 else {}
    return Call(glass.discretized_cls, cls, nside=4, **kw)


@entry(backends=NS, rtol=1e-6, atol=1e-8)
def lognormal_gls(r, s):
    import glass

    return Call(glass.lognormal_gls, spectra(r, s, n=2)[0], float(s.uniform(0.5, 2)))


@entry(rng=True, heavy=True)
def generate(r, s):
    import glass

    cls, n, nl = spectra(r, s, n=int(s.integers(1, 4)))
    tr = [glass.grf.Normal(), glass.grf.Lognormal(0.7), glass.grf.SquaredNormal(0.4, 1.3)]
    kw = dict(ncorr=int(s.integers(0, n))) if s.random() < 0.5 else {}
    return Call(glass.generate, [tr[(i + nl) % 3] for i in range(n)], cls, 2, **kw)


@entry(rng=True, backends=NS)
def generate_gaussian(r, s):
    import glass

    return Call(glass.generate_gaussian, spectra(r, s)[0], int(2 ** s.integers(0, 3)))


@entry(rng=True, backends=NS)
def generate_lognormal(r, s):
    import glass

    return Call(glass.generate_lognormal, spectra(r, s)[0], int(2 ** s.integers(0, 3)), float(s.uniform(0.5, 2)))


@entry()
def getcl(r, s):
    import glass

    cls, n, nl = spectra(r, s)
    kw = dict(lmax=int(s.integers(0, 12))) if s.random() < 0.7 else {}
    return Call(glass.getcl, cls, int(s.integers(n)), int(s.integers(n)), **kw)


@entry()
def enumerate_spectra(r, s):
    import glass

    return Call(glass.enumerate_spectra, spectra(r, s)[0])


@entry()
def spectra_indices(r, s):
    import glass

    return Call(glass.spectra_indices, int(s.integers(0, 6)), xp=XP)


@entry()
def effective_cls(r, s):
    import glass

    cls, n, nl = spectra(r, s, empty=False)
    w1 = r.normal(size=(n, *shape_of(s, 0, 1, 3)))
    kw = dict(lmax=int(s.integers(0, 12))) if s.random() < 0.5 else {}
    if s.random() < 0.5:
        kw["weights2"] = r.normal(size=(n, *shape_of(s, 0, 1, 3)))
    return Call(glass.effective_cls, cls, w1, **kw)


@entry(backends=("np",), rtol=1e-7)
def compute_gaussian_spectra(r, s):
    import glass

    cls, n, _ = spectra(r, s)
    return Call(glass.compute_gaussian_spectra, [glass.grf.Lognormal(float(1 + 0.1 * i)) for i in range(n)], cls)


@entry(backends=NS, rtol=1e-6, atol=1e-8)
def solve_gaussian_spectra(r, s):
    import glass

    cls, n, _ = spectra(r, s, n=2)
    return Call(glass.solve_gaussian_spectra, [glass.grf.Lognormal(1.0), glass.grf.Lognormal(0.8)], cls)


@entry()
def glass_to_healpix_spectra(r, s):
    import glass

    return Call(glass.glass_to_healpix_spectra, spectra(r, s)[0])


@entry()
def healpix_to_glass_spectra(r, s):
    import glass

    return Call(glass.healpix_to_glass_spectra, spectra(r, s)[0])


@entry()
def cov_from_spectra(r, s):
    import glass

    kw = dict(lmax=int(s.integers(0, 10))) if s.random() < 0.5 else {}
    return Call(glass.cov_from_spectra, spectra(r, s)[0], **kw)


@entry()
def check_posdef_spectra(r, s):
    import glass

    return Call(glass.check_posdef_spectra, spectra(r, s)[0])


@entry(rtol=1e-7, atol=1e-9)
def regularized_spectra(r, s):
    import glass

    cls, n, nl = spectra(r, s, n=3)
    cls = [c + 2e-3 * r.normal(size=c.size) * (k not in (0, 1, 3)) for k, c in enumerate(cls)]
    return Call(glass.regularized_spectra, cls, method=str(s.choice(["nearest", "clip"])), lmax=nl - 1)


# ------------------------------------------------------------------- grf


@entry()
def grf_corr(r, s):
    import glass

    t = [glass.grf.Normal(), glass.grf.Lognormal(0.7), glass.grf.SquaredNormal(0.4, 1.3)]
    a = t[int(s.integers(3))]
    b = a if isinstance(a, glass.grf.SquaredNormal) else t[int(s.integers(2))]
    x = r.uniform(0.01, 0.2, size=6)
    fn = [glass.grf.corr, glass.grf.icorr, glass.grf.dcorr][int(s.integers(3))]
    return Call(fn, a, b, x)


@entry()
def grf_transform(r, s):
    import glass

    t = [glass.grf.Normal(), glass.grf.Lognormal(0.7), glass.grf.SquaredNormal(0.4, 1.3)][int(s.integers(3))]
    return Call(lambda x: t(x, 0.3), r.normal(size=7))


@entry(backends=NS, rtol=1e-6, atol=1e-8)
def grf_solve(r, s):
    import glass

    cl = np.exp(-np.arange(12) / 4.0) * 1e-2 * r.uniform(0.5, 2)
    kw = dict(initial=cl * 0.9) if s.random() < 0.5 else {}
    if s.random() < 0.5:
        kw["monopole"] = 0.0
    return Call(glass.grf.solve, cl, glass.grf.Lognormal(1.0), pad=int(s.integers(0, 20)), **kw)


# -------------------------------------------------------------- galaxies


@entry(rng=True)
def redshifts(r, s):
    import glass

    return Call(glass.redshifts, int(s.integers(0, 20)), windows(r, s, 1)[0])


@entry(rng=True)
def redshifts_from_nz(r, s):
    import glass

    lead = shape_of(s, 0, 1, 3)
    z, nz = nz_of(r, s, lead)
    count = s.integers(1, 6, size=lead) if lead and s.random() < 0.7 else int(s.integers(1, 9))
    return Call(glass.redshifts_from_nz, count, z, nz, warn=False)


@entry(rng=True, backends=NS)
def redshifts_from_bins(r, s):
    import glass

    z, n1 = nz_of(r, s)
    bins = s.integers(0, 3, size=shape_of(s, 1, 2, 5))

    def per_bin(bins, *a, **kw):
        # the order within a bin is free (argsort need not be stable)
        out = glass.redshifts_from_bins(bins, *a, **kw)
        return [out.shape, *[np.sort(np.array(out)[np.array(bins) == k]).tolist() for k in range(3)]]

    return Call(per_bin, bins, z, {0: n1, 1: n1[::-1].copy(), 2: n1**2})


@entry()
def galaxy_shear(r, s):
    import glass

    n, nside = int(s.integers(1, 9)), int(2 ** s.integers(0, 3))
    z = r.uniform(-1, 1, size=n)
    m = [0.1 * healpix_map(r, s, nside) for _ in range(3)]
    eps = 0.2 * (r.normal(size=n) + 1j * r.normal(size=n))
    return Call(
        glass.galaxy_shear, r.uniform(-180, 360, size=n), np.degrees(np.arcsin(z)), eps, *m, reduced_shear=bool(s.integers(0, 2))
    )


@entry(rng=True)
def gaussian_phz(r, s):
    import glass

    sh = shape_of(s, 0, 2, 4)
    z = r.uniform(0, 2, size=sh)
    kw = {}
    if s.random() < 0.5:
        kw["lower"] = 0.05 if s.random() < 0.5 else np.full(sh, 0.05)
    if s.random() < 0.5:
        kw["upper"] = 2.5 if s.random() < 0.5 else np.full(sh, 2.5)
    sig = 0.05 if s.random() < 0.5 else r.uniform(0.01, 0.1, size=sh)
    return Call(glass.gaussian_phz, z, sig, **kw, xp=XP)


# --------------------------------------------------------------- lensing


@entry(nside=4, atol=1e-9)
def from_convergence(r, s):
    import glass

    return Call(
        glass.from_convergence, healpix_map(r, s, 4), None if s.random() < 0.3 else int(s.integers(2, 12)),
        potential=bool(s.integers(0, 2)), deflection=bool(s.integers(0, 2)), shear=True, discretized=bool(s.integers(0, 2)),
    )


@entry(nside=4, backends=("np",), atol=1e-9)
def shear_from_convergence(r, s):
    import glass

    return Call(glass.shear_from_convergence, healpix_map(r, s, 4), discretized=bool(s.integers(0, 2)))


@entry()
def multi_plane_convergence(r, s):
    import glass

    ws = windows(r, s, 4)
    n = int(s.integers(1, 5))

    def planes(cosmo, ws, deltas):
        m = glass.MultiPlaneConvergence(cosmo)
        out = []
        for w, d in zip(ws, deltas):
            m.add_window(d, w)
            out.append(_copy(m.kappa))
        return out, m.zsrc, m.wlens, m.delta

    return Call(planes, cosmo(r), ws, [r.normal(size=n) for _ in ws])


@entry()
def multi_plane_matrix(r, s):
    import glass

    return Call(glass.multi_plane_matrix, windows(r, s, 3), cosmo(r))


@entry()
def multi_plane_weights(r, s):
    import glass

    return Call(glass.multi_plane_weights, r.uniform(0.1, 1, size=(3, *shape_of(s, 0, 2, 3))), windows(r, s, 3), cosmo(r))


def positions(r, s, sh):
    return r.uniform(-180, 360, size=sh), np.degrees(np.arcsin(r.uniform(-1, 1, size=sh)))


def deflections(r, s, sh):
    al = 0.3 * (r.normal(size=sh) + 1j * r.normal(size=sh))
    return al if s.random() < 0.5 else np.stack([al.real, al.imag])


@entry(atol=1e-9)
def deflect(r, s):
    import glass

    sh = shape_of(s, 1, 2)
    return Call(glass.deflect, *positions(r, s, sh), deflections(r, s, sh))


# ---------------------------------------------------------- observations


@entry(backends=NS)
def vmap_galactic_ecliptic(r, s):
    import glass

    g, e = sorted(s.uniform(0.3, 2.8, size=2)), sorted(s.uniform(0.3, 2.8, size=2))
    return Call(glass.vmap_galactic_ecliptic, 4, tuple(map(float, g)), tuple(map(float, e)), xp=XP)


@entry()
def gaussian_nz(r, s):
    import glass

    lead = shape_of(s, 0, 2, 3)
    return Call(glass.gaussian_nz, np.linspace(0, 3, 20), r.uniform(0.5, 2, size=lead), r.uniform(0.2, 0.5, size=lead), norm=3.0 if s.random() < 0.5 else None)


@entry()
def smail_nz(r, s):
    import glass

    lead = shape_of(s, 0, 2, 3)
    return Call(
        glass.smail_nz, np.linspace(0, 3, 20), r.uniform(0.5, 2, size=lead), r.uniform(1, 2, size=lead), r.uniform(1, 2, size=lead),
        norm=3.0 if s.random() < 0.5 else None,
    )


@entry()
def fixed_zbins(r, s):
    import glass

    kw = dict(nbins=int(s.integers(1, 9))) if s.random() < 0.5 else dict(dz=float(s.uniform(0.05, 0.7)))
    return Call(glass.fixed_zbins, float(s.uniform(0, 1)), float(s.uniform(1.5, 3)), xp=XP, **kw)


@entry()
def equal_dens_zbins(r, s):
    import glass

    z, nz = nz_of(r, s)
    return Call(glass.equal_dens_zbins, z, nz, int(s.integers(1, 6)))


@entry()
def tomo_nz_gausserr(r, s):
    import glass

    z, nz = nz_of(r, s)
    return Call(glass.tomo_nz_gausserr, z, nz, 0.05, [(0.1, 0.5), (0.5, 1.1), (1.1, 2.0)])


# ---------------------------------------------------------------- points


@entry()
def effective_bias(r, s):
    import glass

    z = np.linspace(0, 2, int(s.integers(4, 12)))
    return Call(glass.effective_bias, z, r.uniform(1, 2, size=z.size), windows(r, s, 1)[0])


@entry()
def linear_bias(r, s):
    import glass

    return Call(glass.linear_bias, r.normal(size=12), 1.3 if s.random() < 0.5 else r.uniform(1, 2, size=12))


@entry()
def loglinear_bias(r, s):
    import glass

    return Call(glass.loglinear_bias, r.uniform(-0.9, 2, size=12), 1.3 if s.random() < 0.5 else r.uniform(1, 2, size=12))


def unbiased(delta, bias):
    """A user's bias model which hands back its argument."""
    return delta


def identity_weight(z):
    """A user's weight function which hands back its argument."""
    return z


def delta_args(r, s):
    import glass

    nside = int(2 ** s.integers(0, 3))
    lead = shape_of(s, 0, 1, 2)
    delta = np.clip(0.5 * healpix_map(r, s, nside, lead), -1, None)
    ngal = (40.0 / 148510660) * r.uniform(0.5, 2, size=lead)
    kw = {}
    if s.random() < 0.6:
        kw["bias"] = r.uniform(0.5, 2, size=lead)
        if s.random() < 0.6:
            kw["bias_model"] = glass.loglinear_bias if s.random() < 0.5 else unbiased
    if s.random() < 0.5:
        kw["vis"] = r.uniform(0, 1, size=delta.shape[-1:])
    if s.random() < 0.5:
        kw["remove_monopole"] = True
    if s.random() < 0.5:
        kw["batch"] = int(s.integers(3, 30))
    return ngal, delta, kw


@entry(rng=True, heavy=True)
def positions_from_delta(r, s):
    import glass

    ngal, delta, kw = delta_args(r, s)
    return Call(glass.positions_from_delta, ngal, delta, **kw)


@entry(rng=True, backends=NS)
def uniform_positions(r, s):
    import glass

    lead = shape_of(s, 0, 1, 3)
    return Call(glass.uniform_positions, (30.0 / 148510660) * r.uniform(0.5, 2, size=lead), xp=XP)


@entry()
def position_weights(r, s):
    import glass

    n = int(s.integers(1, 5))
    d = r.uniform(0.1, 1, size=(n, *shape_of(s, 0, 2, 3)))
    kw = {}
    if s.random() < 0.7:
        kw["bias"] = 1.4 if s.random() < 0.4 else r.uniform(0.5, 2, size=n)
    return Call(glass.position_weights, d, **kw)


@entry(atol=1e-9)
def displace(r, s):
    import glass

    sh = shape_of(s, 1, 2)
    return Call(glass.displace, *positions(r, s, sh), deflections(r, s, sh))


@entry(atol=1e-9)
def displacement(r, s):
    import glass

    sh = shape_of(s, 1, 2)
    return Call(glass.displacement, *positions(r, s, sh), *positions(r, s, sh))


# ---------------------------------------------------------------- shapes


@entry(rng=True)
def triaxial_axis_ratio(r, s):
    import glass

    sh = shape_of(s, 0, 2, 4)
    zeta = r.uniform(0.3, 1, size=sh)
    kw = dict(size=(3, *sh)) if s.random() < 0.3 else {}
    return Call(glass.triaxial_axis_ratio, zeta, zeta * r.uniform(0.2, 1, size=sh), **kw, xp=XP)


@entry(rng=True, backends=NS)
def ellipticity_ryden04(r, s):
    import glass

    sh = shape_of(s, 0, 2, 4)
    p = [np.full(sh, v) if s.random() < 0.5 else v for v in (-1.85, 0.89, 0.222, 0.056)]
    kw = dict(size=(3, *sh)) if s.random() < 0.5 or not sh else {}
    return Call(glass.ellipticity_ryden04, *p, **kw, xp=XP)


@entry(rng=True, backends=NS)
def ellipticity_gaussian(r, s):
    import glass

    sh = shape_of(s, 0, 1, 3)
    return Call(glass.ellipticity_gaussian, s.integers(0, 7, size=sh) if sh else int(s.integers(0, 7)), r.uniform(0.1, 0.6, size=sh), xp=XP)


@entry(rng=True, backends=NS)
def ellipticity_intnorm(r, s):
    import glass

    sh = shape_of(s, 0, 1, 3)
    return Call(glass.ellipticity_intnorm, s.integers(0, 7, size=sh) if sh else int(s.integers(0, 7)), r.uniform(0.1, 0.6, size=sh), xp=XP)


@entry(rng=True)
def resample_shapes(r, s):
    import glass

    n = int(s.integers(2, 12))
    eps = 0.3 * (r.normal(size=n) + 1j * r.normal(size=n))
    eps /= np.maximum(1, np.abs(eps) * 1.05)
    v = float(np.var(eps))
    kw = dict(varg=0.3 * v) if s.random() < 0.5 else dict(vargamma=0.01 * v)
    kw = dict(varg=0.3 * v)
    return Call(glass.resample_shapes, eps, **kw)


# ---------------------------------------------------------------- shells


@entry()
def tophat_windows(r, s):
    import glass

    z = np.cumsum(r.uniform(0.05, 0.2, size=int(s.integers(2, 6))))
    kw = dict(weight=(lambda z: 1 + z) if s.random() < 0.5 else identity_weight) if s.random() < 0.7 else {}
    return Call(glass.tophat_windows, z, dz=0.011, **kw)


@entry()
def linear_windows(r, s):
    import glass

    z = np.concatenate([[0.0], np.cumsum(r.uniform(0.05, 0.2, size=int(s.integers(2, 6))))])
    kw = dict(weight=(lambda z: 1 + z) if s.random() < 0.5 else identity_weight) if s.random() < 0.7 else {}
    return Call(glass.linear_windows, z, dz=0.011, **kw)


@entry()
def cubic_windows(r, s):
    import glass

    z = np.concatenate([[0.0], np.cumsum(r.uniform(0.05, 0.2, size=int(s.integers(2, 6))))])
    kw = dict(weight=(lambda z: 1 + z) if s.random() < 0.5 else identity_weight) if s.random() < 0.7 else {}
    return Call(glass.cubic_windows, z, dz=0.011, **kw)


@entry()
def radial_window(r, s):
    import glass

    w = windows(r, s, 1)[0]
    return Call(lambda za, wa: glass.RadialWindow(za, wa), w.za, w.wa)


@entry()
def weight_functions(r, s):
    import glass

    cls = [glass.DistanceWeight, glass.VolumeWeight, glass.DensityWeight][int(s.integers(3))]
    return Call(lambda c, z: cls(c)(z), cosmo(r), r.uniform(0, 2, size=7))


@entry()
def restrict(r, s):
    import glass

    z, f = nz_of(r, s, shape_of(s, 0, 1, 3))
    return Call(glass.restrict, z, f, windows(r, s, 1)[0])


@entry(backends=NS, rtol=1e-7, atol=1e-9)
def partition_nnls(r, s):
    import glass

    z, f = nz_of(r, s, shape_of(s, 0, 1, 3))
    return Call(glass.partition, z, f, windows(r, s, 3))


@entry(rtol=1e-7, atol=1e-9)
def partition_lstsq(r, s):
    import glass

    z, f = nz_of(r, s, shape_of(s, 0, 1, 3))
    return Call(glass.partition, z, f, windows(r, s, 3), method="lstsq")


@entry()
def partition_restrict(r, s):
    import glass

    z, f = nz_of(r, s, shape_of(s, 0, 1, 3))
    return Call(glass.partition, z, f, windows(r, s, 3), method="restrict")


@entry()
def redshift_grid(r, s):
    import glass

    kw = dict(num=int(s.integers(1, 9))) if s.random() < 0.5 else dict(dz=float(s.uniform(0.05, 0.7)))
    return Call(glass.redshift_grid, float(s.uniform(0, 1)), float(s.uniform(1.5, 3)), xp=XP, **kw)


@entry()
def combine(r, s):
    import glass

    z = np.linspace(0, 2, int(s.integers(4, 12)))
    return Call(glass.combine, z, r.uniform(0, 1, size=(3, *shape_of(s, 0, 1, 3))[::-1]), windows(r, s, 3))


@entry(rng=True, backends=NS)
def distribute(r, s):
    import glass

    return Call(glass.distribute, r.uniform(0, 1.2, size=shape_of(s, 1, 2, 30)), windows(r, s, 4))


# ------------------------------------------------------------- algorithm


@entry(backends=NS, rtol=1e-7, atol=1e-9)
def nnls(r, s):
    import glass.algorithm as al

    m, n = int(s.integers(2, 8)), int(s.integers(1, 5))
    return Call(al.nnls, r.normal(size=(m, n)), r.normal(size=m))


def symmetric(r, s):
    n = int(s.integers(2, 5))
    a = r.normal(size=(*shape_of(s, 0, 2, 3), n, n))
    return a + np.swapaxes(a, -1, -2)


@entry(rtol=1e-7, atol=1e-9)
def nearcorr(r, s):
    import glass.algorithm as al

    a = np.tanh(symmetric(r, s))
    i = np.arange(a.shape[-1])
    a[..., i, i] = 1.0
    return Call(al.nearcorr, a)


@entry(rtol=1e-7, atol=1e-9)
def cov_clip(r, s):
    import glass.algorithm as al

    return Call(al.cov_clip, symmetric(r, s))


@entry(rtol=1e-7, atol=1e-9)
def cov_nearest(r, s):
    import glass.algorithm as al

    a = symmetric(r, s)
    i = np.arange(a.shape[-1])
    a[..., i, i] = np.abs(a[..., i, i]) + 0.1
    return Call(al.cov_nearest, a)


# ------------------------------------------------------------ arraytools


@entry()
def broadcast_first(r, s):
    import glass.arraytools as at

    return Call(at.broadcast_first, r.normal(size=(3, 2, 4)), r.normal(size=3), r.normal(size=(3, 4)))


@entry()
def broadcast_leading_axes(r, s):
    import glass.arraytools as at

    return Call(at.broadcast_leading_axes, (r.normal(size=(2, 1, 3)), 1), (r.normal(size=(4,)), 0))


@entry()
def ndinterp(r, s):
    import glass.arraytools as at

    return Call(at.ndinterp, r.uniform(-1, 5, size=shape_of(s, 0, 2)), np.arange(4.0), r.normal(size=(2, 4)), left=0.0, right=1.0)


@entry()
def trapezoid_product(r, s):
    import glass.arraytools as at

    f = [(np.sort(r.uniform(0, 2, size=5)), r.normal(size=5)) for _ in range(3)]
    return Call(at.trapezoid_product, *f)


@entry()
def cumulative_trapezoid(r, s):
    import glass.arraytools as at

    return Call(at.cumulative_trapezoid, r.normal(size=(*shape_of(s, 0, 2), 6)), np.sort(r.uniform(0, 2, size=6)))


# --------------------------------------------------------------- healpix


def alm(r, lmax):
    n = (lmax + 1) * (lmax + 2) // 2
    a = r.normal(size=n) + 1j * r.normal(size=n)
    a[: lmax + 1] = a[: lmax + 1].real
    return a


@entry(atol=1e-9)
def hp_alm2map(r, s):
    import glass.healpix as hp

    return Call(hp.alm2map, alm(r, 5), 4, lmax=5)


@entry(atol=1e-9)
def hp_alm2map_spin(r, s):
    import glass.healpix as hp

    return Call(hp.alm2map_spin, [alm(r, 5), alm(r, 5)], 4, int(s.integers(1, 3)), 5)


@entry()
def hp_almxfl(r, s):
    import glass.healpix as hp

    return Call(hp.almxfl, alm(r, 5), r.normal(size=int(s.integers(1, 9))))


@entry()
def hp_multalm(r, s):
    import glass.harmonics as hm

    return Call(hm.multalm, alm(r, 5), r.normal(size=6))


@entry(atol=1e-9, nside=4)
def hp_map2alm(r, s):
    import glass.healpix as hp

    return Call(hp.map2alm, healpix_map(r, s, 4), lmax=int(s.integers(2, 12)), use_pixel_weights=bool(s.integers(0, 2)))


@entry()
def hp_ang2pix(r, s):
    import glass.healpix as hp

    return Call(hp.ang2pix, 8, *positions(r, s, shape_of(s, 1, 2)), lonlat=True)


@entry()
def hp_ang2vec(r, s):
    import glass.healpix as hp

    return Call(hp.ang2vec, *positions(r, s, shape_of(s, 1, 2)), lonlat=True)


@entry()
def hp_query_strip(r, s):
    import glass.healpix as hp

    return Call(hp.query_strip, 4, (0.4, 1.3), xp=XP)


@entry(nside=4)
def hp_pixwin(r, s):
    import glass.healpix as hp

    return Call(hp.pixwin, 4, pol=bool(s.integers(0, 2)), lmax=int(s.integers(0, 12)), xp=XP)


@entry()
def hp_rotate(r, s):
    import glass.healpix as hp

    return Call(lambda m: hp.Rotator(coord="GC").rotate_map_pixel(m), healpix_map(r, s, 4))


@entry(rng=True)
def hp_randang(r, s):
    import glass.healpix as hp

    return Call(hp.randang, 4, r.integers(0, 192, size=shape_of(s, 1, 2)), lonlat=bool(s.integers(0, 2)))


# ------------------------------------------- the same object passed twice


@entry(atol=1e-9)
def aliased_displacement(r, s):
    import glass

    lon, lat = positions(r, s, (5,))
    return Call(lambda a: glass.displacement(a, a, a, a), lat)


@entry()
def aliased_galaxy_shear(r, s):
    import glass

    def fn(pos, eps, m):
        return glass.galaxy_shear(pos, pos, eps, m, m, m)

    lon, lat = positions(r, s, (5,))
    return Call(fn, lat, 0.1 * (r.normal(size=5) + 1j * r.normal(size=5)), 0.1 * healpix_map(r, s, 4))


@entry()
def aliased_effective_cls(r, s):
    import glass

    c = np.exp(-np.arange(6) / 3.0)
    return Call(lambda c, w: glass.effective_cls([c, c, c], w, w), c, r.normal(size=(2, 3)))


@entry(rng=True, heavy=True)
def aliased_generate(r, s):
    import glass

    c = 1e-2 * np.exp(-np.arange(6) / 3.0) * r.uniform(0.5, 2)
    return Call(lambda c, z, rng: list(glass.generate([glass.grf.Normal()] * 2, [c, c, z], 2, rng=rng)), c, 0.3 * c)


@entry()
def aliased_planes(r, s):
    import glass

    def fn(cosmo, ws, d):
        m = glass.MultiPlaneConvergence(cosmo)
        out = []
        for w in ws:
            m.add_window(d, w)
            out.append(_copy(m.kappa))
        return out

    return Call(fn, cosmo(r), windows(r, s, 3), r.normal(size=4))


@entry()
def aliased_restrict(r, s):
    import glass

    w = windows(r, s, 1)[0]
    return Call(lambda z, f: glass.restrict(z, f, glass.RadialWindow(z, f)), w.za, w.wa)


# ------------------------------------------------- calls that must be refused

BAD = {}


def refused(fn):
    BAD[fn.__name__] = fn
    return fn


@refused
def bad_position_shapes(r, s):
    import glass

    return Call(glass.arraytools.broadcast_first, r.normal(size=(2, 3)), r.normal(size=(2, 4)))


@refused
def bad_effective_cls(r, s):
    import glass

    cls, n, _ = spectra(r, s, n=2)
    return Call(glass.effective_cls, cls, r.normal(size=3))


@refused
def bad_number_of_spectra(r, s):
    import glass

    cls, n, _ = spectra(r, s, n=2)
    return Call(lambda c: list(glass.generate([glass.grf.Normal()] * 2, c, 2)), cls[:2])


@refused
def bad_cov_negative(r, s):
    import glass

    return Call(lambda c: list(glass.iternorm([c])), -np.ones((2, 2)))


@refused
def bad_cls2cov(r, s):
    import glass

    return Call(lambda c: list(glass.cls2cov(c, 3, 1, 0)), [-np.ones(3)])


@refused
def bad_phz_bounds(r, s):
    import glass

    return Call(glass.gaussian_phz, r.uniform(0, 2, size=4), 0.1, lower=1.0, upper=0.5)


@refused
def bad_phz_bound_shape(r, s):
    import glass

    return Call(glass.gaussian_phz, r.uniform(0, 2, size=4), 0.1, lower=np.zeros(3))


@refused
def bad_partition_method(r, s):
    import glass

    z, f = nz_of(r, s)
    return Call(glass.partition, z, f, windows(r, s, 2), method="best")


@refused
def bad_mpc_order(r, s):
    import glass

    def planes(cosmo, d):
        m = glass.MultiPlaneConvergence(cosmo)
        m.add_plane(d, 1.0)
        m.add_plane(d, 0.5)

    return Call(planes, cosmo(r), r.normal(size=3))


@refused
def bad_mpw(r, s):
    import glass

    return Call(glass.multi_plane_weights, r.uniform(size=4), windows(r, s, 3), cosmo(r))


@refused
def bad_intnorm(r, s):
    import glass

    return Call(glass.ellipticity_intnorm, 4, 0.9, xp=XP)


@refused
def bad_nearcorr(r, s):
    import glass.algorithm as al

    return Call(al.nearcorr, r.normal(size=(2, 3)))


@refused
def bad_nnls(r, s):
    import glass.algorithm as al

    return Call(al.nnls, r.normal(size=(3, 2)), r.normal(size=4))


@refused
def bad_windows_grid(r, s):
    import glass

    return Call(glass.linear_windows, np.asarray([0.0, 1.0]))


@refused
def bad_bias_model(r, s):
    import glass

    return Call(lambda d: list(glass.positions_from_delta(1e-6, d, bias_model=3)), np.zeros(12))


@refused
def bad_zbins(r, s):
    import glass

    return Call(glass.fixed_zbins, 0.0, 1.0, nbins=3, dz=0.1, xp=XP)


@refused
def bad_grid(r, s):
    import glass

    return Call(glass.redshift_grid, 0.0, 1.0, xp=XP)


@refused
def bad_squared_normal(r, s):
    import glass

    return Call(glass.grf.corr, glass.grf.SquaredNormal(0.4, 1.3), glass.grf.Lognormal(1.0), r.uniform(size=3))


@refused
def bad_regularize(r, s):
    import glass

    return Call(glass.regularized_spectra, spectra(r, s, n=2)[0], method="best")
