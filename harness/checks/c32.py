"""C32: NumPy, array-api-strict and JAX compute the same results.

Differential monitor: every catalogue entry runs on every backend it supports, random
draws come from one recorded numpy stream, and values, shapes, kinds, backends of all
output arrays and the type of errors are compared with the NumPy run.
"""

import numpy as np

from .. import catalog as C
from .. import datapath
from ..core import Inconclusive, Violation, backend, backend_name, case
from ..rngs import RecRNG

PID = "C32"
NAMES = sorted(C.ENTRIES)
BADS = sorted(C.BAD)


def rng_for(name, sp, seed):
    if not sp.rng:
        return None
    return np.random.default_rng(seed) if name == "hp_randang" else RecRNG(seed)


def outcome(name, sp, sub, sh, bk):
    call = sp.build(np.random.default_rng(sub), np.random.default_rng(sh))
    rng = rng_for(name, sp, sub % 1000)
    try:
        _, _, out = C.run(call, bk, rng)
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        return e, None, rng
    return out, C.freeze(out), rng


def kinds(f):
    if isinstance(f, tuple):
        for x in f[1:]:
            yield from kinds(x)
    elif isinstance(f, np.ndarray):
        yield f.dtype.kind


def compare(c, name, bk, sub, sh):
    sp = C.ENTRIES[name]
    ref, fref, rref = outcome(name, sp, sub, sh, "np")
    out, fout, rout = outcome(name, sp, sub, sh, bk)
    if isinstance(ref, Exception) or isinstance(out, Exception):
        c.check(
            type(ref) is type(out),
            f"{name}: on numpy {describe(ref)}, on {bk} {describe(out)}", entry=name,
        )
        c.event("errors_agreed")
        return
    for where, a in C.arrays_of(out, name):
        c.check(backend_name(a) == bk, f"{where}: a {backend_name(a)} array comes out for {bk} input", entry=name)
        c.event("output_arrays")
    d = C.same(fout, fref, sp.rtol, sp.atol, name)
    c.check(d is None, f"{name} on {bk} differs from numpy: {d}", entry=name)
    k1, k2 = list(kinds(fref)), list(kinds(fout))
    c.check(k1 == k2, f"{name} on {bk}: kinds of data {k2} instead of {k1}", entry=name)
    if isinstance(rref, RecRNG):
        c.check(
            [m for m, _, _ in rref.log] == [m for m, _, _ in rout.log],
            f"{name} on {bk} makes other random draws than on numpy",
            numpy=[m for m, _, _ in rref.log][:20], other=[m for m, _, _ in rout.log][:20],
        )
        c.event("draws_compared", len(rref.log))
    c.event(f"calls_{bk}")
    c.key(name, bk, sub if bk == "strict" else sh)


def describe(x):
    return f"raises {type(x).__name__}({str(x)[:120]})" if isinstance(x, Exception) else "returns a result"


@case(PID, q=len(NAMES) * 8, t=len(NAMES) * 250, backends=("np",))
def strict_matches_numpy(c):
    datapath.make([4], 1)
    name = NAMES[c.idx % len(NAMES)]
    if "strict" not in C.ENTRIES[name].backends:
        c.check(True, "skipped")
        return
    compare(c, name, "strict", int(c.r.integers(2**31)), int(c.r.integers(2**31)))
    c.note(entry=name)


@case(PID, q=len(NAMES), t=len(NAMES) * 6, backends=("np",))
def jax_matches_numpy(c):
    """Shapes are fixed by the entry (and, in the thorough tier, by the round)."""
    import glass.jax

    datapath.make([4], 1)
    name = NAMES[c.idx % len(NAMES)]
    if "jax" not in C.ENTRIES[name].backends:
        c.check(True, "skipped")
        return
    compare(c, name, "jax", int(c.r.integers(2**31)), 11 * c.seed + c.idx // len(NAMES))
    c.note(entry=name)


@case(PID, q=len(BADS) * 2, t=len(BADS) * 10, backends=("np",))
def refusals_agree(c):
    import glass.jax

    name = BADS[c.idx % len(BADS)]
    sub, sh = int(c.r.integers(2**31)), int(c.r.integers(2**31))
    got = {}
    for bk in C.ALL:
        try:
            C.run(C.BAD[name](np.random.default_rng(sub), np.random.default_rng(sh)), bk)
            got[bk] = "nothing"
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            got[bk] = type(e).__name__
    c.check(len(set(got.values())) == 1, f"{name}: backends refuse differently: {got}")
    c.check(got["np"] != "nothing", f"{name}: an impossible call is accepted on every backend")
    c.event("refusals")
    c.key(name)


@case(PID, q=40, t=400, backends=("np",))
def own_generators(c):
    """Without a generator every backend serves arrays of its own kind and of the same shape and type."""
    import glass
    import glass.rng

    bk = ["np", "strict"][c.idx % 2] if c.idx % 10 else "jax"
    if bk == "jax":
        import glass.jax
    xp = backend(bk)
    g = glass.rng.default_rng(xp=xp, seed=int(c.r.integers(1000))) if c.idx % 3 else glass.rng.default_rng(xp=xp)
    sh = (2, 3)
    lam = c.r.uniform(0.5, 5, size=sh)
    conv = C.converter(bk)
    calls = {
        "random": (g.random(sh), sh, "f"),
        "random_none": (g.random(4), (4,), "f"),
        "normal": (g.normal(conv(lam), 2.0), sh, "f"),
        "normal_size": (g.normal(1.0, 2.0, sh), sh, "f"),
        "poisson": (g.poisson(conv(lam)), sh, "iu"),
        "poisson_size": (g.poisson(3.0, sh), sh, "iu"),
        "standard_normal": (g.standard_normal(sh), sh, "f"),
        "uniform": (g.uniform(conv(lam), conv(lam + 1)), sh, "f"),
        "uniform_size": (g.uniform(-1.0, 1.0, sh), sh, "f"),
    }
    if bk != "jax":
        calls["multinomial"] = (g.multinomial(10, conv(np.array([0.2, 0.3, 0.5]))), (3,), "iu")
    for what, (x, shape, kind) in calls.items():
        c.check(backend_name(x) == bk, f"{what} of the {bk} generator is a {backend_name(x)} array")
        a = np.array(x)
        c.check(a.shape == shape and a.dtype.kind in kind, f"{what} of the {bk} generator has shape {a.shape} and type {a.dtype}, not {shape} of kind {kind}")
        c.event("own_draws", a.size)
    u = np.array(calls["uniform"][0])
    c.check(np.all((u >= lam) & (u <= lam + 1)), "uniform() leaves its interval")
    if bk == "jax":
        return c.key(bk)
    # the wrapper serves the wrapped numpy stream, draw by draw
    seed = int(c.r.integers(1000))
    a, b = glass.rng.default_rng(xp=xp, seed=seed), np.random.default_rng(seed)
    for _ in range(8):
        k = int(c.r.integers(6))
        size = (int(c.r.integers(1, 5)), 2)
        lo = c.r.normal(size=size)
        pairs = [
            lambda g, f: g.random(size), lambda g, f: g.normal(f(lo), f(np.abs(lo))), lambda g, f: g.poisson(f(np.abs(lo)), size),
            lambda g, f: g.standard_normal(size), lambda g, f: g.uniform(f(lo), f(lo + 2)),
            lambda g, f: g.multinomial(9, f(np.array([0.5, 0.25, 0.25])), 4),
        ]
        c.same(pairs[k](a, conv), pairs[k](b, lambda v: v), f"draw {k} of the {bk} generator")
    c.key(bk, c.idx % 3)
