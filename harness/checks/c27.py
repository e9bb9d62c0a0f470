"""C27: files written can be read back unchanged."""

import os
import pathlib
import tempfile

import numpy as np

from .. import core
from ..core import case

PID = "C27"


def scratch(c):
    return tempfile.mkdtemp(prefix=f"c27-{c.idx}-", dir=core.SCRATCH)


def cleanup(d):
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    os.rmdir(d)


@case(PID, q=300, t=8000)
def spectra(c):
    """Lists of ragged spectra survive a round trip bit by bit."""
    import glass

    r = c.r
    d = scratch(c)
    k = int(r.integers(0, 6))
    n = int(r.integers(1, 12))
    if k == 0:
        lens = r.integers(0, 30, n)
    elif k == 1:
        lens = np.full(n, int(r.integers(1, 50)))
    elif k == 2:
        lens = np.zeros(n, dtype=int)
    elif k == 3:
        lens = r.integers(0, 2, n) * r.integers(1, 20, n)
    elif k == 4:
        lens = np.append(np.zeros(n, dtype=int), [5, 0])
    else:
        lens = np.append([4000], r.integers(0, 3, n))
    if r.random() < 0.15:  # a single spectrum, few values
        lens = r.integers(0, 3, 1)
    elif r.random() < 0.03:
        lens = r.integers(0, 4, int(r.integers(200, 700)))
    elif r.random() < 0.04:  # tens of thousands of values
        lens = r.choice([0, 3, 9000, 30000], int(r.integers(3, 9)))
    dt = str(r.choice(["f8", "f4", "i8", "c16"], p=[0.7, 0.1, 0.1, 0.1]))
    plain = int(r.choice([0, 0, 0, 1, 2]))
    cls = []
    for m in lens:
        x = r.normal(size=int(m)) * 10.0 ** r.integers(-300, 300, int(m)) if dt == "f8" else r.normal(size=int(m)) * 100
        x = x.astype(dt)
        if dt == "f8" and x.size and r.random() < 0.2:
            x[int(r.integers(0, x.size))] = r.choice([np.nan, np.inf, -0.0, 5e-324])
        if plain == 1:  # zeros, negative zeros and small whole numbers only
            x = (r.choice([0.0, 0.0, -0.0, 1.0, -1.0, 3.0], x.size)).astype(dt)
        elif plain == 2 and dt == "f8":  # nothing but special values
            x = r.choice([np.nan, np.inf, -np.inf, -0.0, 0.0, 5e-324, 1e308], x.size)
        if r.random() < 0.2 and x.size:
            x = np.repeat(x, 2)[::2]  # not contiguous
        cls.append(x)
    keep = [x.copy() for x in cls]
    fn = os.path.join(d, str(r.choice(["cls.npz", "a b.npz", "x.1.npz"])))
    path = fn if r.random() < 0.5 else pathlib.Path(fn)
    if r.random() < 0.3:
        glass.save_cls(path, [np.ones(3)] * 2)  # replaced below
    glass.save_cls(path, cls)
    got = glass.load_cls(path)
    c.check(len(got) == len(keep), f"{len(got)} spectra instead of {len(keep)}", lens=lens)
    for i, (a, b) in enumerate(zip(got, keep)):
        a = np.asarray(a)
        c.check(a.shape == b.shape, f"length of spectrum {i}: {a.shape} instead of {b.shape}")
        c.check(a.dtype == b.dtype and a.tobytes() == b.tobytes(), f"values of spectrum {i} changed", dtype=str(a.dtype))
    c.check(os.listdir(d) == [os.path.basename(fn)], "other files written", files=os.listdir(d))
    c.event("spectra", len(got))
    for a, b in zip(cls, keep):
        c.check(a.tobytes() == b.tobytes(), "spectra modified by saving")
    cleanup(d)
    c.note(kind=k, lens=lens[:12], dtype=dt)
    c.key(k, n, dt)


# ---------------------------------------------------------------- catalogues

TYPES = ["f8", "f4", "i4", "i8", "i2", "S5", "2f8"]


def schema(r):
    n = int(r.integers(1, 7))
    names = list(r.permutation(["RA", "DEC", "E1", "E2", "WHT", "Z_TRUE", "id", "mixedCase"])[:n])
    return [(str(nm), str(r.choice(TYPES))) for nm in names]


def chunk(r, sch, rows, serial):
    out = np.zeros(rows, dtype=sch)
    ids = serial + np.arange(rows)
    for j, (nm, t) in enumerate(sch):
        if t.startswith("S"):
            out[nm] = [f"{chr(97 + j)}{i % 10000}".encode() for i in ids]
        elif t == "2f8":
            out[nm] = np.stack([ids + j * 0.5, -ids + r.random(rows)], axis=1) if rows else 0
        elif t == "i2":
            out[nm] = (ids * (j + 1)) % 30000
        else:
            out[nm] = ids * (j + 1) + (0.25 * j if t[0] == "f" else 0)
    return out


class Boom(Exception):
    pass


def read(fn):
    from astropy.io import fits

    with fits.open(fn, memmap=False) as f:
        f.verify("exception")
        return [(type(h).__name__, h.name, None if h.data is None else np.array(h.data)) for h in f]


@case(PID, q=400, t=10000)
def catalogue(c):
    import glass

    r = c.r
    d = scratch(c)
    fn = os.path.join(d, "cat.fits")
    sch = schema(r)
    ext = None if r.random() < 0.5 else str(r.choice(["CATALOG", "cat", "My-Cat", "SOURCES 1"]))
    n = int(r.integers(1, 7))
    rows = [int(v) for v in r.choice([1, 2, 3, 17, 100, 2500], n, p=[0.2, 0.2, 0.2, 0.2, 0.15, 0.05])]
    if r.random() < 0.01 and n > 2:
        rows[0], rows[1] = 40_000, 70_000
    if r.random() < 0.25 and n > 1:
        rows[int(r.integers(1, n))] = 0  # an empty chunk in between
    if r.random() < 0.1:
        rows[0] = 0
    if r.random() < 0.4:  # something to be replaced
        if r.random() < 0.5:
            with glass.write_catalog(fn, ext=ext) as out:
                out.write(OLD=np.arange(50.0), RA=np.arange(50.0))
        else:
            with open(fn, "wb") as f:
                f.write(b"not a FITS file" * 1000)
    fail = r.random() < 0.2
    written, serial, modes = [], 0, []
    path = fn if r.random() < 0.6 else pathlib.Path(fn)
    kw = {} if ext is None and r.random() < 0.5 else {"ext": ext}
    try:
        with glass.write_catalog(path, **kw) as out:
            for m in rows:
                ch = chunk(r, sch, m, serial)
                serial += m
                mode = str(r.choice(["struct", "cols", "shuffled", "strided"]))
                keep = ch.copy()
                if mode == "struct":
                    out.write(ch)
                elif mode == "strided":
                    big = np.repeat(ch, 2)
                    out.write(**{nm: big[nm][::2] for nm, _ in sch})
                elif mode == "cols" or not written:
                    out.write(**{nm: ch[nm] for nm, _ in sch})
                else:
                    out.write(**{sch[j][0]: ch[sch[j][0]] for j in r.permutation(len(sch))})
                c.check(ch.tobytes() == keep.tobytes(), "chunk modified by writing")
                written.append(keep)
                modes.append(mode)
                c.event("chunks")
            if fail:
                raise Boom
        c.check(not fail, "exception swallowed by the context")
    except Boom:
        c.check(fail, "unexpected exception")
        c.event("exceptions_in_context")
    want = np.concatenate(written)
    hdus = read(fn)
    c.check(len(hdus) == 2, f"{len(hdus)} HDUs: {[h[:2] for h in hdus]} instead of a primary one and one table", modes=modes)
    c.check(hdus[0][2] is None, "data in the primary HDU")
    kind, name, data = hdus[1]
    c.check(kind == "BinTableHDU", f"second HDU is a {kind}")
    if ext is not None:
        c.check(name.upper() == ext.upper(), f"extension name {name!r} instead of {ext!r}")
    c.check([x.upper() for x in data.dtype.names] == [x[0].upper() for x in sch], "columns", got=data.dtype.names, want=[x[0] for x in sch])
    c.check(data.shape == want.shape, f"{data.shape[0]} rows instead of {want.shape[0]}", rows=rows, modes=modes)
    for (nm, t), got_nm in zip(sch, data.dtype.names):
        a = np.asarray(data[got_nm])
        if t.startswith("S"):
            a = np.char.encode(a.astype(str), "ascii") if a.dtype.kind == "U" else a
            c.check(np.array_equal(a.astype("S5"), want[nm]), f"column {nm} changed", rows=rows, modes=modes)
        else:
            c.check(a.dtype.newbyteorder("=") == want[nm].dtype, f"data type {a.dtype} of column {nm}")
            c.same(a, want[nm], f"column {nm}", rows=rows, modes=modes, type=t)
    c.event("rows", want.size)
    cleanup(d)
    c.note(schema=sch, rows=rows, modes=modes, ext=ext, fail=fail)
    c.key(ext, "/".join(modes), len(sch), fail)


@case(PID, q=40, t=600)
def both_at_once(c):
    """A structured array and named columns in one call are two chunks; two catalogues can be open at once."""
    import glass

    r = c.r
    d = scratch(c)
    sch = [("A", "f8"), ("B", "i4")]
    x, y, z = (chunk(r, sch, int(r.integers(1, 9)), s) for s in (0, 100, 200))
    f1, f2 = os.path.join(d, "1.fits"), os.path.join(d, "2.fits")
    with glass.write_catalog(f1) as a, glass.write_catalog(f2, ext="T") as b:
        a.write(x, A=y["A"], B=y["B"])
        b.write(z)
        a.write(z)
        b.write(x)
    for fn, want in ((f1, [x, y, z]), (f2, [z, x])):
        hdus = read(fn)
        c.check(len(hdus) == 2, "number of HDUs")
        want = np.concatenate(want)
        for nm in ("A", "B"):
            c.same(np.asarray(hdus[1][2][nm]), want[nm], f"column {nm}")
    cleanup(d)
    c.key(c.idx)
