"""C36: integer and single-precision inputs.

Differential monitor over the catalogue of public functions: a call with (a random choice of)
its arrays given as integers, or in single precision, is compared with the call on the
double-precision arrays of exactly the same values.  A call may be refused with an error;
it may not silently give something else.
"""

import numpy as np

from .. import catalog as C
from .. import datapath
from ..core import Violation, case
from ..rngs import RecRNG

PID = "C36"
NAMES = sorted(C.ENTRIES)
REFUSALS = (TypeError, ValueError)  # numpy's casting errors are TypeErrors
# angles: whole turns, and the longitude of a point at a pole, are free
ANGLES = {"deflect", "displace"}
# rounding makes these problems degenerate, without a stable answer
DEGENERATE = {"partition_nnls", "partition_lstsq", "nnls", "aliased_generate"}


def vec(out):
    lon, lat = (np.radians(np.asarray(x, dtype=float)) for x in out[1:3])
    return ("seq", np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat))


def compare(c, name, bk, low, pick):
    """``low`` maps a value array to the one in the low type or None."""
    sp = C.ENTRIES[name]
    sub, sh = int(c.r.integers(2**31)), int(c.r.integers(2**31))
    outs, logs, used = [], [], 0
    for down in (False, True):
        call = sp.build(np.random.default_rng(sub), np.random.default_rng(sh))
        leaf = C.converter(bk)
        choose = np.random.default_rng(sub + 1)
        used = 0

        def conv(a):
            nonlocal used
            if a is C.XP:
                return leaf(a)
            small = low(a)
            if small is None or choose.random() > pick:
                return leaf(a)
            used += 1
            return leaf(small if down else small.astype(a.dtype))

        args, kw = C.walk(list(call.args), conv), C.walk(dict(call.kw), conv)
        rng = None
        if sp.rng:
            rng = kw["rng"] = np.random.default_rng(5) if name == "hp_randang" else RecRNG(sub % 1000, max_calls=3000)
        try:
            outs.append(C.freeze(C.invoke(call.fn, args, kw)))
        except Violation as e:
            outs.append(e)
        except Exception as e:  # noqa: BLE001
            outs.append(e)
        logs.append([m for m, _, _ in rng.log] if isinstance(rng, RecRNG) else None)
    return outs, logs, used


def widen(f):
    """Numbers of a frozen result in double precision."""
    if isinstance(f, tuple):
        return (f[0], *[widen(x) for x in f[1:]])
    if isinstance(f, np.ndarray) and f.dtype.kind in "iufb":
        return f.astype(np.float64)
    if isinstance(f, np.ndarray) and f.dtype.kind == "c":
        return f.astype(np.complex128)
    if isinstance(f, (int, float, np.number)) and not isinstance(f, bool):
        return np.asarray(float(f))
    return f


def judge(c, name, bk, outs, used, rtol, atol, kind):
    ref, got = outs
    if isinstance(ref, Exception):
        c.check(True, "not a valid call")  # the values themselves are refused
        c.event("invalid_values")
        return
    if isinstance(got, Exception):
        c.check(isinstance(got, REFUSALS), f"{name} on {bk}: {kind} input fails with {type(got).__name__}: {got}", entry=name)
        c.event("refused")
        return
    if name in ANGLES:
        ref, got = vec(ref), vec(got)
    d = C.same(widen(got), widen(ref), rtol, atol, name)
    c.check(d is None, f"{name} on {bk}: {kind} input gives other results than double precision of equal values: {d}", entry=name)
    c.event("compared" if used else "nothing_to_convert")
    c.event(f"arrays_{kind.split()[0]}", used)


@case(PID, q=len(NAMES) * 30, t=len(NAMES) * 200, backends=("np",))
def integers(c):
    datapath.make([4], 1)
    name = NAMES[c.idx % len(NAMES)]
    sp = C.ENTRIES[name]
    if name in DEGENERATE or "np" not in sp.backends:
        c.check(True, "skipped")
        return
    scale = float(c.r.choice([1, 3, 10]))
    t = [np.int64, np.int32][int(c.r.integers(2))]

    def low(a):
        return np.round(a * scale).astype(t) if a.dtype.kind == "f" else None

    outs, _, used = compare(c, name, "np", low, float(c.r.choice([1.0, 0.5])))
    judge(c, name, "np", outs, used, max(1e-9, sp.rtol), max(1e-10, sp.atol), "integer")
    c.key(name, scale)
    c.note(entry=name)


@case(PID, q=len(NAMES) * 30, t=len(NAMES) * 200, backends=("np", "strict"))
def single_precision(c):
    datapath.make([4], 1)
    name = NAMES[(c.idx // 2) % len(NAMES)]
    sp = C.ENTRIES[name]
    if name in DEGENERATE or c.bk not in sp.backends:
        c.check(True, "skipped")
        return

    def low(a):
        return a.astype({"f": np.float32, "c": np.complex64}[a.dtype.kind]) if a.dtype.kind in "fc" else None

    outs, logs, used = compare(c, name, c.bk, low, float(c.r.choice([1.0, 1.0, 0.5])))
    if logs[0] != logs[1]:
        # rounding moved a draw over a boundary: another random history
        c.check(True, "other draws")
        c.event("other_draws")
        return
    judge(c, name, c.bk, outs, used, 5e-3, 2e-3, "single precision")
    c.key(name, c.bk)
    c.note(entry=name)
