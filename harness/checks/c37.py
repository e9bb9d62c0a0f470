"""C37: streaming.

Resource monitors on running iterators: the draws made and the rows consumed at the time of
each result, the numpy memory retained between results (tracemalloc), and which of the
arrays handed in or out earlier are still alive (weak references).
"""

import gc
import os
import tracemalloc
import weakref

import numpy as np

from .. import core
from ..core import Violation, case
from ..rngs import RecRNG

PID = "C37"
KB = 1024


class CountRNG(RecRNG):
    """Counts what is drawn without keeping it."""

    def __init__(self, seed):
        super().__init__(seed)
        self.drawn = {}
        self.calls_made = 0

    def _rec(self, method, out, **kw):
        self.calls_made += 1
        self.drawn[method] = self.drawn.get(method, 0) + int(np.size(out))
        return out

    def total(self):
        return sum(self.drawn.values())


class Memory:
    """Memory in use by Python objects and numpy arrays, relative to the start."""

    def __enter__(self):
        gc.collect()
        tracemalloc.start()
        self.base = tracemalloc.get_traced_memory()[0]
        return self

    def __exit__(self, *exc):
        tracemalloc.stop()

    def held(self):
        gc.collect()
        return tracemalloc.get_traced_memory()[0] - self.base

    def peak(self):
        out = tracemalloc.get_traced_memory()[1] - self.base
        tracemalloc.reset_peak()
        return out


def spectra_of(n, lmax, ncorr):
    base = 1e-2 * np.exp(-np.arange(lmax + 1) / 30.0)
    return [base * (1.0 if i == j else (0.3 / n if i - j <= ncorr else 0.0)) for i in range(n) for j in range(i, -1, -1)]


@case(PID, q=16, t=300, backends=("np",), steps=30_000_000)
def fields(c):
    """Maps are made on demand, from at most ncorr previous ones."""
    import glass

    r = c.r
    n = int(r.integers(9, 15))
    ncorr = int(r.integers(0, 3))
    lmax = int(r.integers(100, 160))
    nside = int(r.choice([16, 32, 32]))
    alm = 16 * (lmax + 1) * (lmax + 2) // 2
    unit = max(alm, 8 * 12 * nside**2)
    cls = spectra_of(n, lmax, ncorr)
    entry = int(r.integers(0, 3))
    rng = CountRNG(int(r.integers(1 << 30)))
    list(glass.generate([glass.grf.Normal()], cls[:1], nside, rng=CountRNG(0)))  # first-call caches
    if entry == 0:
        t = [glass.grf.Lognormal(1.0), glass.grf.Normal(), glass.grf.SquaredNormal(0.5, 1.2)]
        it = glass.generate([t[i % 3] for i in range(n)], cls, nside, ncorr=ncorr, rng=rng)
    elif entry == 1:
        it = glass.generate_gaussian(cls, nside, ncorr=ncorr, rng=rng)
    else:
        it = glass.generate_lognormal(cls, nside, 0.8, ncorr=ncorr, rng=rng)
    draws, held, peaks, refs = [], [], [], []
    with Memory() as mem:
        for k, m in enumerate(it):
            refs.append(weakref.ref(m))
            draws.append(rng.total())
            m = None
            held.append(mem.held())
            peaks.append(mem.peak())
            c.event("maps_watched")
    c.check(len(held) == n, f"{len(held)} maps instead of {n}")
    per = np.diff([0, *draws])
    c.check(np.all(per == per[0]) and per[0] > 0, "numbers are not drawn map by map", draws=draws)
    warm = ncorr + 3
    for k in range(warm, n):
        c.check(held[k] < held[warm - 1] + 1.2 * unit, f"memory grows with the number of maps made: {held[k]} bytes held after map {k}, {held[warm - 1]} after map {warm - 1}", alm=alm, ncorr=ncorr, held=held)
        c.check(peaks[k] < peaks[warm - 1] * 1.3 + unit, "peak memory grows with the number of maps made", peaks=peaks, alm=alm)
    c.check(max(held) < (ncorr + 8) * unit + 600 * KB, f"{max(held)} bytes held with {ncorr} correlated fields of {unit} bytes", held=held)
    gc.collect()
    alive = [k for k, f in enumerate(refs[:-2]) if f() is not None]
    c.check(not alive, f"maps handed out earlier are still kept: {alive}")
    it = m = None
    gc.collect()
    alive = [k for k, f in enumerate(refs) if f() is not None]
    c.check(not alive, f"maps {alive} are still kept when all of it is over")
    c.key(n, ncorr, lmax, nside, entry)
    c.note(n=n, ncorr=ncorr, lmax=lmax, nside=nside, entry=entry, held=held)


@case(PID, q=2, t=30, backends=("np",), steps=60_000_000)
def long_correlations(c):
    """However many fields are correlated, what is beyond them is let go."""
    import glass

    r = c.r
    ncorr = int(r.integers(41, 70))
    n = ncorr + 16
    lmax, nside = int(r.integers(90, 110)), 4
    alm = 16 * (lmax + 1) * (lmax + 2) // 2
    cls = spectra_of(n, lmax, ncorr)
    list(glass.generate([glass.grf.Normal()], cls[:1], nside, rng=CountRNG(0)))
    held = []
    with Memory() as mem:
        for m in glass.generate_gaussian(cls, nside, ncorr=ncorr, rng=CountRNG(int(r.integers(1 << 30)))):
            m = None
            held.append(mem.held())
            c.event("maps_watched")
    warm = ncorr + 3
    c.check(len(held) == n, f"{len(held)} maps instead of {n}")
    grown = (held[-1] - held[warm]) / (len(held) - 1 - warm)
    c.check(grown < 0.4 * alm, f"{grown} bytes more held with every map, with modes of {alm} bytes", ncorr=ncorr, held=held)
    c.key(ncorr, lmax)
    c.note(ncorr=ncorr, lmax=lmax, grown=grown, alm=alm)


@case(PID, q=40, t=600, backends=("np",))
def draws_on_demand(c):
    """What is not asked for is not drawn, and stopping early is possible at any point."""
    import glass

    r = c.r
    n = int(r.integers(3, 7))
    cls = spectra_of(n, int(r.integers(3, 12)), n)
    cls = [x * (1 if k else 1) for k, x in enumerate(cls)]
    take = int(r.integers(1, n + 1))
    rng = CountRNG(1)
    it = glass.generate([glass.grf.Normal()] * n, cls, 2, rng=rng)
    for _ in range(take):
        next(it)
    a = rng.total()
    it.close()
    c.check(rng.total() == a, "numbers drawn while closing")
    full = CountRNG(1)
    list(glass.generate([glass.grf.Normal()] * n, cls, 2, rng=full))
    c.check(a * n == full.total() * take, f"{take} of {n} maps took {a} of {full.total()} numbers", take=take)
    npop = int(r.integers(1, 4))
    delta = r.uniform(-0.5, 0.5, size=12 * 4**2)
    ngal = np.full(npop, 3000 / 148510660.0)
    batch = int(r.choice([20, 50, 200]))

    def batches(rng):
        return glass.positions_from_delta(ngal, delta, batch=batch, rng=rng)

    # the counts of a population are drawn when its turn comes
    if npop > 1:
        rng = CountRNG(2)
        next(batches(rng))
        c.check(rng.drawn["poisson"] <= delta.size, "counts of all populations are drawn at once", drawn=rng.drawn)
    c.event("iterators_watched", 4)
    c.key(n, take, npop, batch)


@case(PID, q=12, t=200, backends=("np",), steps=60_000_000)
def positions_memory(c):
    """Memory of a batch depends on the batch size, not on the number of objects or populations."""
    import glass

    r = c.r
    nside = int(r.choice([16, 32]))
    npix = 12 * nside**2
    delta = r.uniform(-0.5, 0.5, size=npix)
    batch = int(r.integers(1000, 4000))

    def run(total, npop):
        rng = CountRNG(int(r.integers(1 << 30)))
        ngal = total / 148510660.0 * (np.ones(npop) if npop > 1 else 1.0)
        out, refs = 0, []
        with Memory() as mem:
            for lon, lat, cnt in glass.positions_from_delta(ngal, delta, batch=batch, rng=rng):
                out += lon.size
                refs += [weakref.ref(lon), weakref.ref(lat)]
                del lon, lat, cnt
                gc.collect()
            peak = mem.peak()
        gc.collect()
        c.check(all(f() is None for f in refs), "positions are still kept when all of it is over")
        return peak, out

    run(1000, 1), run(1000, 3)  # first-call caches
    lo, hi = 20_000, 200_000
    p1, n1 = run(lo, 1)
    p2, n2 = run(hi, 1)
    p3, n3 = run(lo, 10)
    c.check(n1 > 0.8 * lo and n2 > 0.8 * hi and n3 > 8 * lo, "objects are missing", n=(n1, n2, n3))
    slack = 1.6 * p1 + 300 * KB
    c.check(p2 < slack, f"peak memory grows with the number of objects: {p1} bytes for {n1}, {p2} for {n2}", batch=batch, npix=npix)
    c.check(p3 < slack, f"peak memory grows with the number of populations: {p1} bytes for one, {p3} for ten", batch=batch, npix=npix)
    c.event("objects_streamed", n1 + n2 + n3)
    c.key(nside, batch)
    c.note(peaks=(p1, p2, p3))


@case(PID, q=12, t=200, backends=("np",))
def uniform_memory(c):
    """Uniform positions are made one population at a time."""
    import glass

    r = c.r
    npop = int(r.integers(8, 20))
    total = float(r.integers(20_000, 60_000))
    rng = CountRNG(int(r.integers(1 << 30)))
    held, drawn, refs = [], [], []
    with Memory() as mem:
        for lon, lat, cnt in glass.uniform_positions(np.full(npop, total / 148510660.0), rng=rng, xp=np):
            refs += [weakref.ref(lon), weakref.ref(lat)]
            drawn.append((sum(v for k, v in rng.drawn.items() if k != "poisson"), lon.size))
            lon = lat = cnt = None
            held.append(mem.held())
    c.check(len(held) == npop, "number of populations")
    have, size = np.array(drawn).T
    per = have[-1] / size.sum()
    c.check(np.max(have - per * np.cumsum(size)) <= per * size.max(), "positions are drawn before they are asked for")
    c.check(max(held[2:]) < held[1] + 0.7 * 8 * total, f"memory grows with the number of populations: {held}")
    gc.collect()
    c.check(sum(f() is not None for f in refs[:-4]) == 0, "positions of former populations are still kept")
    lon = lat = cnt = None
    gc.collect()
    c.check(all(f() is None for f in refs), "positions are still kept when all of it is over")
    c.event("populations_watched", npop)
    c.key(npop, int(total))


@case(PID, q=40, t=600, backends=("np", "strict"))
def iternorm_rows(c):
    """Covariance rows are consumed one at a time, also from endless sources."""
    import glass

    r = c.r
    k = int(r.integers(1, 4))
    lead = (int(r.integers(500, 1500)),) if c.bk == "np" else (int(r.integers(1, 4)),)
    used = 0

    def rows():
        nonlocal used
        while True:
            used += 1
            if used > steps + 5:
                raise Violation(f"{used} rows consumed before the results were asked for")
            row = r.uniform(-0.1, 0.1, size=(*lead, k + 1))
            row[..., 0] = 1.0
            yield c.a(row)

    steps = int(r.integers(10, 40))
    held = []
    it = glass.iternorm(rows())
    with Memory() as mem:
        for i in range(steps):
            w = next(it)
            c.check(used == i + 1, f"{used} rows consumed for {i + 1} results")
            c.check(tuple(w.shape) == (*lead, k + 1), "shape of the scaling vectors")
            w = None
            if c.bk == "np":
                held.append(mem.held())
    if held:
        row = 8 * lead[0] * (k + 1)
        c.check(max(held[k + 3 :]) < held[k + 2] + 2 * row + 16 * KB, f"memory grows with the number of rows: {held}")
    it.close()
    c.event("rows_watched", steps)
    c.key(c.bk, k, steps)


@case(PID, q=30, t=500, backends=("np", "strict"))
def planes(c):
    """The convergence of any number of planes is computed from the last two."""
    import glass

    from ..cosmo import Cosmo

    r = c.r
    npix = 12 * 32**2 if c.bk == "np" else 12
    nplane = int(r.integers(8, 14))
    m = glass.MultiPlaneConvergence(Cosmo(float(r.uniform(0.2, 0.4)), 0.0, 0.7, xp=c.xp))
    z = np.cumsum(r.uniform(0.05, 0.3, size=nplane))
    refs, held = [], []
    with Memory() as mem:
        for i in range(nplane):
            d = c.a(r.normal(size=npix))
            try:
                refs.append(weakref.ref(d))
            except TypeError:
                pass
            if r.random() < 0.5:
                w = glass.RadialWindow(c.a(np.array([z[i] - 0.02, z[i], z[i] + 0.02])), c.a(np.array([0.0, 1.0, 0.0])), float(z[i]))
                m.add_window(d, w)
            else:
                m.add_plane(d, float(z[i]), 0.1)
            d = w = None
            held.append(mem.held())
            gc.collect()
            alive = [k for k, f in enumerate(refs[:-2]) if f() is not None]
            c.check(not alive, f"mass planes {alive} are still kept after plane {i}")
    if c.bk == "np":
        c.check(max(held[3:]) < held[2] + 4 * npix, f"memory grows with the number of planes: {held}")
        c.check(max(held) < 6 * 8 * npix + 100 * KB, f"{max(held)} bytes held for planes of {8 * npix} bytes")
    c.event("planes_watched", nplane)
    c.key(c.bk, nplane)


@case(PID, q=16, t=200, backends=("np",))
def catalogue(c):
    """Rows are written when they come, and not kept."""
    import glass

    r = c.r
    n = int(r.integers(5_000, 20_000))
    chunks = int(r.integers(6, 12))
    path = os.path.join(core.SCRATCH, f"stream-{os.getpid()}-{c.idx}.fits")
    held, sizes, refs = [], [], []
    kw = dict(ext="CAT") if r.random() < 0.5 else {}
    with Memory() as mem, glass.write_catalog(path, **kw) as out:
        for i in range(chunks):
            if r.random() < 0.5:
                a, b = r.uniform(size=n), r.uniform(size=n)
                refs += [weakref.ref(a), weakref.ref(b)]
                out.write(RA=a, DEC=b)
                a = b = None
            else:
                rec = np.zeros(n, dtype=[("RA", "f8"), ("DEC", "f8")])
                refs.append(weakref.ref(rec))
                out.write(rec)
                rec = None
            held.append(mem.held())
            sizes.append(os.path.getsize(path))
    gc.collect()
    c.check(all(f() is None for f in refs), "rows already written are still kept")
    c.check(max(held[2:]) < held[1] + 8 * n, f"memory grows with the number of rows written: {held}", n=n)
    os.unlink(path)
    c.event("chunks_watched", chunks)
    c.key(n, chunks, bool(kw))
