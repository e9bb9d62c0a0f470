"""C01: one standard order of two-point functions."""

import numpy as np

from ..core import case, Violation

PID = "C01"


def order(n):
    """The standard order, written out independently: (i, i), (i, i-1), ..., (i, 0)."""
    return [(i, j) for i in range(n) for j in range(i, -1, -1)]


def healpix_order(n):
    """New HEALPix order: by diagonal."""
    return [(i + k, i) for k in range(n) for i in range(n - k)]


@case(PID, q=60, t=400)
def bijection(c):
    """Index list, enumeration, lookup and reordering agree with one order."""
    import glass

    n = c.idx + 1 if c.idx < 40 else int(c.r.integers(1, 120 if c.tier == "quick" else 400))
    if c.tier == "quick" and c.idx >= 40:
        n = int(c.r.integers(1, 120))
    ref = order(n)
    m = len(ref)
    c.note(n=n)
    c.key(n)
    got = [tuple(int(v) for v in row) for row in np.asarray(glass.spectra_indices(n))]
    c.check(got == ref, f"spectra_indices({n}) is not the standard order", first=[g for g, r in zip(got, ref) if g != r][:1])
    ids = [np.array([float(k), k + 0.5]) for k in range(m)]
    enum = [(int(i), int(j), cl) for i, j, cl in glass.enumerate_spectra(ids)]
    c.check(len(enum) == m, "enumerate_spectra yields a different number of entries", n=n)
    for k, (i, j, cl) in enumerate(enum):
        c.check((i, j) == ref[k] and cl is ids[k], f"enumerate_spectra entry {k} is ({i}, {j}), expected {ref[k]}", n=n)
    pos = {p: k for k, p in enumerate(ref)}
    pairs = ref if m < 900 else [ref[k] for k in c.r.integers(0, m, 900)]
    for i, j in pairs:
        for a, b in ((i, j), (j, i)):
            got = np.asarray(glass.getcl(ids, a, b))
            c.check(got.shape == (2,) and got[0] == pos[i, j] and got[1] == pos[i, j] + 0.5, f"getcl({a}, {b}) of {n} fields returned another spectrum", got=got, expected=pos[i, j])
    c.check(glass.nfields_from_nspectra(m) == n, f"nfields_from_nspectra({m}) is not {n}")
    if n <= 60:
        # any sequence entries
        tags = [f"s{k}" for k in range(m)]
        hp = glass.glass_to_healpix_spectra(tags)
        want = [tags[pos[p]] for p in healpix_order(n)]
        c.check(list(hp) == want, f"glass_to_healpix_spectra wrong for n={n}", got=hp[:10], expected=want[:10])
        back = glass.healpix_to_glass_spectra(want)
        c.check(list(back) == tags, f"healpix_to_glass_spectra wrong for n={n}", got=back[:10], expected=tags[:10])
    c.event("pairs_checked", len(pairs))


@case(PID, q=6, t=40)
def many_fields(c):
    """The order holds for hundreds of fields (a survey's shells and bins)."""
    import glass

    n = int(c.r.integers(130, 700 if c.tier == "quick" else 1400))
    ref = order(n)
    m = len(ref)
    c.note(n=n)
    c.key(n)
    got = np.asarray(glass.spectra_indices(n))
    c.same(got, np.array(ref), f"spectra_indices({n})")
    ids = list(range(m))
    enum = [(int(i), int(j), k) for i, j, k in glass.enumerate_spectra(ids)]
    c.check(enum == [(i, j, k) for k, (i, j) in enumerate(ref)], f"enumerate_spectra of {n} fields is not in the standard order")
    c.check(glass.nfields_from_nspectra(m) == n, f"nfields_from_nspectra({m}) is not {n}")
    some = np.concatenate([c.r.integers(0, m, 600), [0, m - 1, m - n, max(m - 2 * n, 0)]])
    for k in some.tolist():
        i, j = ref[k]
        for a, b in ((i, j), (j, i)):
            c.check(glass.getcl(ids, a, b) == k, f"getcl({a}, {b}) of {n} fields returned another spectrum")
    c.event("pairs_checked", len(some))


@case(PID, q=40, t=400)
def triangle_numbers(c):
    """Valid numbers of spectra give n; invalid ones raise ValueError."""
    import glass

    if c.idx == 0:
        lo, ns = 0, range(0, 2500)
        valid = {n * (n + 1) // 2: n for n in range(0, 80)}
        for k in ns:
            if k in valid:
                c.check(glass.nfields_from_nspectra(k) == valid[k], f"nfields_from_nspectra({k})")
            else:
                c.raises(ValueError, lambda k=k: glass.nfields_from_nspectra(k), f"nfields_from_nspectra({k})")
        c.key("exhaustive<2500")
        return
    top = [10**3, 10**4, 10**5, 10**6][c.idx % 4]
    for _ in range(50):
        n = int(c.r.integers(3, top))
        t = n * (n + 1) // 2
        c.check(glass.nfields_from_nspectra(t) == n, f"nfields_from_nspectra({t}) != {n}")
        for d in (-2, -1, 1, 2, n // 2):
            if d and 0 < d < n + 1 or d < 0:
                c.raises(ValueError, lambda t=t, d=d: glass.nfields_from_nspectra(t + d), f"nfields_from_nspectra({t + d})")
        # every function that needs n refuses a bad number
    bad = [None] * (int(c.r.integers(2, 40)))
    k = len(bad)
    if int(np.floor(np.sqrt(2 * k))) * (int(np.floor(np.sqrt(2 * k))) + 1) // 2 != k:
        c.raises(ValueError, lambda: glass.glass_to_healpix_spectra(bad), f"glass_to_healpix_spectra with {k} spectra")
        c.raises(ValueError, lambda: glass.healpix_to_glass_spectra(bad), f"healpix_to_glass_spectra with {k} spectra")
    c.key(top, c.idx)


@case(PID, q=60, t=900, backends=("np", "strict", "np", "jax"))
def mode_cut(c):
    """getcl(lmax) returns exactly lmax+1 values, original then zeros."""
    import glass

    r = c.r
    n = int(r.integers(1, 6 if c.bk != "jax" else 3))
    cls = [r.normal(size=int(r.choice([0, 1, 2, 3, 5, 8, 13]))) for _ in order(n)]
    arr = [c.a(x) for x in cls]
    for k, (i, j) in enumerate(order(n)):
        for a, b in ((i, j), (j, i)):
            out = glass.getcl(arr, a, b)
            c.same(out, cls[k], f"getcl({a},{b}) without lmax")
            for lmax in {0, 1, len(cls[k]) - 1, len(cls[k]), len(cls[k]) + 3, int(r.integers(0, 20))}:
                if lmax < 0:
                    continue
                out = glass.getcl(arr, a, b, lmax=lmax)
                c.is_backend(out, "getcl")
                want = np.zeros(lmax + 1)
                want[: len(cls[k])] = cls[k][: lmax + 1]
                c.same(out, want, f"getcl({a},{b},lmax={lmax}) of length {len(cls[k])}")
            c.key(c.bk, len(cls[k]), n)


@case(PID, q=8, t=40, backends=("np", "strict", "jax"))
def index_array_backend(c):
    """spectra_indices on every backend, including n = 0 and an integer dtype."""
    import glass

    n = [0, 1, 2, 3, 7, 12][c.idx % 6]
    out = glass.spectra_indices(n, xp=c.xp)
    c.is_backend(out, "spectra_indices")
    got = c.n(out)
    c.check(got.dtype.kind in "iu", "spectra_indices is not an integer array", dtype=str(got.dtype))
    if n:
        c.same(got, np.array(order(n)), f"spectra_indices({n})")
    else:
        c.check(got.size == 0, "spectra_indices(0) not empty")
    c.key(c.bk, n)
