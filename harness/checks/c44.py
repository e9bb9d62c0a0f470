"""C44: simulated catalogues reproduce the source distribution they were asked for.

The loop of the documentation (partition, positions, redshifts, photometric
redshifts, tomographic bins, ellipticities, shear, catalogue) runs as a whole; the
catalogue on disk is the observation.
"""

import os

import numpy as np
from scipy import special, stats

from .. import datapath
from ..core import case
from ..cosmo import Cosmo

PID = "C44"
P = 1e-9
SKY = (180 * 60 / np.pi) ** 2 * 4 * np.pi  # arcmin^2


def trapz(y, x):
    return ((y[..., 1:] + y[..., :-1]) / 2 * np.diff(x)).sum(axis=-1)


def cdf_of(za, wa):
    """Distribution function of a density known on a grid, linear between the nodes."""
    c = np.concatenate([[0.0], np.cumsum((wa[1:] + wa[:-1]) / 2 * np.diff(za))])
    return lambda x: np.interp(x, za, c / c[-1])


def source(c, r, z, lead):
    """Smooth source distributions."""
    import glass

    k = int(r.integers(0, 3))
    par = lambda lo, hi: c.a(r.uniform(lo, hi, lead))
    if k == 0:
        nz = glass.smail_nz(c.a(z), par(0.5, 0.9), par(1.5, 2.5), par(1.3, 2.0))
    elif k == 1:
        nz = glass.gaussian_nz(c.a(z), par(0.7, 1.2), par(0.25, 0.5))
    else:
        w = r.uniform(0.2, 1, lead + (1,))
        x = z * (z[-1] - z) * (1 + w * np.sin(2 * z)) + 0.3
        nz = c.a(x / trapz(x, z)[..., None])
    return nz


def erf_bins(z, s0, edges):
    """Probability to find a photometric redshift in each bin, for truncation at zero."""
    s = np.sqrt(2) * s0 * (1 + z)
    return np.array([(special.erf((b - z) / s) - special.erf((a - z) / s)) / (1 + special.erf(z / s)) for a, b in zip(edges[:-1], edges[1:])])


@case(PID, q=48, t=500, backends=("np", "np", "strict"), steps=200_000_000)
def catalogue(c):
    import fitsio
    import glass
    import healpy

    r = c.r
    zmax = float(r.uniform(1.8, 2.6))
    nshell = int(r.integers(4, 12))
    kind = ["tophat", "linear", "cubic"][int(r.integers(3))]
    cosmo = Cosmo(xp=c.xp)
    if r.random() < 0.5:
        grid = glass.redshift_grid(0.0, zmax, num=nshell, xp=c.xp)
    else:
        grid = glass.distance_grid(cosmo, 0.0, zmax, num=nshell)
    weight = [None, None, glass.DensityWeight(cosmo), glass.DistanceWeight(cosmo)][int(r.integers(4))]
    shells = getattr(glass, f"{kind}_windows")(grid, 0.01, weight=weight)
    za, wa = [c.n(s.za) for s in shells], [c.n(s.wa) for s in shells]
    lead = [(), (), (2,), (3,)][int(r.integers(4))]
    z = np.linspace(0.0, zmax, int(r.integers(60, 130)))
    ntot = float(r.uniform(15_000, 30_000))
    dens = ntot / SKY * r.uniform(0.5, 1.5, lead)
    dndz = source(c, r, z, lead) * c.a(np.asarray(dens)[..., None])
    # plain restriction multiplies by the window: a density only for windows of unit height
    method = str(r.choice(["nnls", "lstsq", "restrict"], p=[0.6, 0.2, 0.2])) if weight is None else str(r.choice(["nnls", "lstsq"]))
    ngal = glass.partition(c.a(z), dndz, shells, method=method)
    N, D = c.n(ngal), c.n(dndz)
    if N.min() < 0:  # possible for plain least squares only
        c.check(method == "lstsq", "negative densities", method=method)
        return
    whole = kind == "tophat" or method != "restrict"
    if whole:
        c.close(N.sum(axis=0), trapz(D, z), "densities of the shells do not add up to the source density", rtol=0.03, method=method, kind=kind)

    nside = int(r.choice([4, 8]))
    npix = 12 * nside**2
    vis = np.where(r.random(npix) < 0.3, 0.0, r.uniform(0.2, 1, npix)) if r.random() < 0.5 else None
    s0 = float(r.uniform(0.02, 0.15))
    nb = int(r.integers(2, 6))
    if r.random() < 0.5:
        zbins = glass.fixed_zbins(0.0, zmax, nbins=nb, xp=c.xp)
    else:
        one = dndz if lead == () else c.a(D[0])
        zbins = glass.equal_dens_zbins(c.a(z), one, nbins=nb)
    edges = np.array([float(zbins[0][0])] + [float(b) for _, b in zbins])
    c.check(edges.size == nb + 1 and np.all(np.diff(edges) > 0), "bins are not in order", edges=edges)
    sigma_e = float(r.uniform(0.1, 0.4))
    rng = np.random.default_rng(int(r.integers(1 << 30)))
    fn = os.path.join(os.environ["TMPDIR"], f"c44.{os.getpid()}.fits")
    mem = []
    counts = np.zeros((len(shells),) + lead, dtype=int)
    expect = np.zeros((len(shells),) + lead)
    with glass.write_catalog(fn) as out:
        for i, shell in enumerate(shells):
            delta = r.uniform(-0.5, 0.5, npix)
            delta -= delta.mean()
            bias = float(r.uniform(0.5, 1.8))
            kap, g1, g2 = 0.05 * r.normal(size=(3, npix))
            v = 1.0 if vis is None else vis
            expect[i] = N[i] * SKY * np.mean((1 + bias * delta) * v)
            for lon, lat, cnt in glass.positions_from_delta(ngal[i, ...], c.a(delta), bias, None if vis is None else c.a(vis), rng=rng, batch=int(r.choice([1000, 10**6]))):
                n = np.asarray(c.n(cnt))
                counts[i] += n
                zt = glass.redshifts(cnt, shell, rng=rng)
                zp = glass.gaussian_phz(zt, s0, rng=rng)
                e = glass.ellipticity_intnorm(cnt, sigma_e, rng=rng, xp=c.xp)
                s = glass.galaxy_shear(lon, lat, e, c.a(kap), c.a(g1), c.a(g2), reduced_shear=True)
                lo, la, zt, zp, e, s = (c.n(x) for x in (lon, lat, zt, zp, e, s))
                c.check(lo.shape == la.shape == zt.shape == zp.shape == e.shape == s.shape == (int(n.sum()),), "columns of different length", shapes=[x.shape for x in (lo, la, zt, zp, e, s)], count=n)
                pix = healpy.ang2pix(nside, lo, la, lonlat=True)
                g = (g1[pix] + 1j * g2[pix]) / (1 - kap[pix])
                c.close(s, (e + g) / (1 + np.conj(g) * e), "shear is not that of the galaxy's own shell and position", rtol=1e-9, atol=1e-12)
                c.check(vis is None or np.all(vis[pix] > 0), "galaxy where nothing is visible")
                c.check(np.all((zt >= za[i][0]) & (zt <= za[i][-1])), "galaxy outside of its shell", shell=i)
                pop = np.repeat(np.arange(n.size), np.ravel(n))
                cols = dict(RA=lo, DEC=la, Z_TRUE=zt, PHZ=zp, ZBIN=np.digitize(zp, edges) - 1, G1=s.real, G2=s.imag, SHELL=np.full(lo.size, i), POP=pop)
                if lo.size:
                    out.write(**cols)
                mem.append(cols)
    if counts.sum() == 0:
        c.check(expect.sum() < 25, "no galaxies at all", expect=expect)
        return
    cat = fitsio.read(fn)
    os.remove(fn)
    c.check(len(cat) == counts.sum(), f"{len(cat)} rows for {counts.sum()} galaxies")
    for k in mem[0]:
        c.same(cat[k], np.concatenate([m[k] for m in mem]), f"column {k} of the catalogue")
    c.event("galaxies", len(cat))

    # numbers per shell and population
    for i in np.ndindex(counts.shape):
        p = 2 * min(stats.poisson.sf(counts[i] - 1, expect[i]), stats.poisson.cdf(counts[i], expect[i]))
        c.check(p > P, f"number of galaxies in a shell is not what was asked for (p = {p:.1e})", shell=i, count=counts[i], expected=expect[i])
        c.check(np.sum((cat["SHELL"] == i[0]) & (cat["POP"] == (i[1] if lead else 0))) == counts[i], "population order")
    # redshifts: mixture of the shells' windows, and through them the source distribution
    for q in range(lead[0] if lead else 1):
        sel = cat["POP"] == q
        zt, zp = cat["Z_TRUE"][sel], cat["PHZ"][sel]
        lam = expect[:, q] if lead else expect
        if lam.sum() < 500:
            continue
        mix = lambda x: sum(l * cdf_of(a, w)(x) for l, a, w in zip(lam, za, wa)) / lam.sum()
        p = stats.kstest(zt, mix).pvalue
        # the numbers per shell are Poisson, so the statistic has slightly wider tails than for independent draws
        c.check(p > P, f"redshifts do not follow the combined shells (KS p = {p:.1e})", kind=kind, population=q)
        c.event("ks_tests")
        if whole:
            nq = N[:, q] if lead else N
            dq = D[q] if lead else D
            x = np.linspace(0, zmax, 200)
            ref = cdf_of(z, dq)(x)
            eff = sum(l * cdf_of(a, w)(x) for l, a, w in zip(nq, za, wa)) / nq.sum()
            step = max(np.diff(cdf_of(z, dq)(np.array([float(v) for v in c.n(grid)]))).max(), 0.01)
            c.check(np.abs(eff - ref).max() < step, "redshifts of the catalogue are not those of the source distribution to within a shell", off=np.abs(eff - ref).max(), step=step, kind=kind, method=method)
        # photometric redshifts and tomographic bins
        c.check(np.all(zp >= 0), "negative photometric redshift")
        pk = erf_bins(zt, s0, edges)
        zb = cat["ZBIN"][sel]
        for k in range(nb):
            m, v = pk[k].sum(), (pk[k] * (1 - pk[k])).sum()
            c.check(abs((zb == k).sum() - m) < 6.5 * np.sqrt(v) + 12, "number of galaxies in a tomographic bin", bin=k, got=(zb == k).sum(), expected=m, sd=np.sqrt(v))
            inside = zt[zb == k]
            if inside.size >= 100:
                # true redshifts in the bin: weighted by the probability to be in it
                o = np.argsort(zt)
                W = np.cumsum(pk[k][o])
                d = np.abs(np.interp(np.sort(inside), zt[o], W / W[-1]) - (np.arange(inside.size) + 0.5) / inside.size).max()
                c.check(d * np.sqrt(inside.size) < 3.6, "true redshifts in a tomographic bin", bin=k, d=d, n=inside.size)
                c.event("bins")
        # the analytic distributions of the bins say the same
        tomo = c.n(glass.tomo_nz_gausserr(c.a(z), c.a(D[q] if lead else D), s0, [(float(a), float(b)) for a, b in zbins]))
        c.close(tomo, erf_bins(z, s0, edges) * (D[q] if lead else D), "analytic distributions of the tomographic bins", rtol=1e-9, atol=1e-12 * D.max())
    c.note(kind=kind, method=method, lead=lead, nside=nside, s0=s0, nb=nb)
    c.key(c.bk, kind, method, lead, nside, nb, vis is None)


@case(PID, q=24, t=500, backends=("np", "strict", "np"), steps=50_000_000)
def equal_shares(c):
    """Equal-density bins hold equal shares of the galaxies drawn from the same distribution."""
    import glass

    r = c.r
    z = np.unique(np.concatenate([[0.0], r.uniform(0, 2.5, int(r.integers(15, 80))), [2.5]]))
    k = int(r.integers(0, 3))
    nz = [z**2 * np.exp(-((z / 0.6) ** 1.5)), r.uniform(0.1, 1, z.size), np.exp(-((z - 1) ** 2) / 0.1) + np.exp(-((z - 2) ** 2) / 0.02)][k]
    nb = int(r.integers(1, 9))
    bins = glass.equal_dens_zbins(c.a(z), c.a(nz), nb)
    edges = np.array([float(bins[0][0])] + [float(b) for _, b in bins])
    n = 20_000
    x = c.n(glass.redshifts_from_nz(n, c.a(z), c.a(nz), rng=np.random.default_rng(int(r.integers(1 << 30))), warn=False))
    h = np.histogram(x, edges)[0]
    c.check(h.sum() == n, "galaxies outside of all bins", outside=n - h.sum())
    chi = ((h - n / nb) ** 2 / (n / nb)).sum()
    c.check(nb == 1 or stats.chi2.sf(chi, nb - 1) > P, "equal-density bins do not hold equal shares", got=h)
    c.event("galaxies", n)
    c.key(c.bk, k, nb, z.size)


@case(PID, q=24, t=400, backends=("np", "strict", "np"))
def weights_of_sources(c):
    """Convergence averaged over the sources equals lensing weights times the matter planes; clustering likewise."""
    import glass

    r = c.r
    n = int(r.integers(3, 8))
    cosmo = Cosmo(xp=c.xp)
    shells = glass.linear_windows(glass.redshift_grid(0.0, 2.0, num=n + 1, xp=c.xp), 0.02)
    z = np.linspace(0, 2.0, 60)
    lead = [(), (3,)][int(r.integers(2))]
    dndz = source(c, r, z, lead)
    ngal = c.n(glass.partition(c.a(z), dndz, shells))
    deltas = r.normal(size=(len(shells), 48))
    m = glass.MultiPlaneConvergence(cosmo)
    mean = np.zeros(lead + (48,))
    for d, w, g in zip(deltas, shells, ngal):
        m.add_window(c.a(d), w)
        mean = mean + np.multiply.outer(g, c.n(m.kappa))
    mean /= ngal.sum(axis=0)[..., None] if lead else ngal.sum()
    W = c.n(glass.multi_plane_weights(c.a(ngal), shells, cosmo))
    c.close(np.tensordot(np.moveaxis(W, 0, -1), deltas, axes=1), mean, "lensing weights do not give the sources' mean convergence", rtol=1e-9, atol=1e-12)
    b = float(r.uniform(0.5, 2))
    C = c.n(glass.position_weights(c.a(ngal), b))
    tot = ngal.sum(axis=0)
    field = np.tensordot(np.moveaxis(ngal, 0, -1), b * deltas, axes=1) / (tot[..., None] if lead else tot)
    c.close(np.tensordot(np.moveaxis(C, 0, -1), deltas, axes=1), field, "clustering weights do not give the sources' density contrast", rtol=1e-9, atol=1e-12)
    # and therefore the spectra of these observables, mode by mode
    a = r.normal(size=(len(shells), 4))
    cls = [c.a(a[i] * a[j]) for i in range(len(shells)) for j in range(i, -1, -1)]
    eff = c.n(glass.effective_cls(cls, c.a(C), c.a(W)))
    ca, wa = (np.tensordot(np.moveaxis(x, 0, -1), a, axes=1) for x in (C, W))
    want = ca[:, None, :] * wa[None, :, :] if lead else ca * wa
    c.close(eff, want, "galaxy-galaxy lensing spectra of the sources", rtol=1e-9, atol=1e-12)
    c.key(c.bk, n, lead, c.idx)
