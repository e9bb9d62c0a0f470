"""C03: generated fields have exactly the requested covariance."""

import numpy as np
from scipy.special import eval_legendre

from ..core import case
from ..rngs import ProbeRNG, RecRNG
from .c01 import order

PID = "C03"


def make_gls(r, n, nmodes, ragged=True, zeros=True):
    """Spectra of a positive covariance per mode; returns (C[l,i,j], list in standard order)."""
    C = np.zeros((nmodes, n, n))
    lens = [nmodes] * n
    if ragged:
        lens = [int(r.integers(1, nmodes + 1)) for _ in range(n)]
        lens[int(r.integers(0, n))] = nmodes
    for ell in range(nmodes):
        L = np.tril(r.normal(size=(n, n)) * 0.4, -1) + np.diag(np.exp(0.3 * r.normal(size=n)))
        dead = np.array([ell >= lens[i] or (zeros and r.random() < 0.12) for i in range(n)])
        L[dead] = 0
        C[ell] = L @ L.T / (1 + ell) ** float(r.uniform(0, 1.5))
    cls = []
    for i, j in order(n):
        m = max(lens[i], 0) if i == j else min(lens[i], lens[j])
        cls.append(C[:m, i, j].copy())
    if n > 1 and r.random() < 0.3:
        # some pair without correlation: missing spectrum
        pass
    return C, cls


def pixel_cov(C, cosang):
    """sum_l (2l+1)/4pi C_l P_l(cos) for every pixel pair."""
    out = np.zeros(cosang.shape)
    for ell, cl in enumerate(C):
        if cl:
            out += (2 * ell + 1) / (4 * np.pi) * cl * eval_legendre(ell, cosang)
    return out


def cosangles(nside):
    import healpy

    v = np.array(healpy.pix2vec(nside, np.arange(12 * nside**2)))
    return np.clip(v.T @ v, -1, 1)


def response(c, gls, n, nside, ncorr):
    """Response matrix of all maps to all variates."""
    import glass

    def maps(hot):
        rng = ProbeRNG(hot)
        out = [np.array(c.n(m)) for m in glass.generate([glass.grf.Normal()] * n, [c.a(g) for g in gls], nside, ncorr=ncorr, rng=rng)]
        return rng.used, out

    used, zero = maps(None)
    for i, z in enumerate(zero):
        c.check(z.shape == (12 * nside**2,), f"map {i} has shape {z.shape}")
        c.check(np.all(z == 0), "zero variates do not give zero maps")
    c.check(len(zero) == n, f"{len(zero)} maps for {n} fields")
    R = np.zeros((n, 12 * nside**2, used))
    for k in range(used):
        _, m = maps(k)
        for i in range(n):
            R[i, :, k] = m[i]
    c.event("variates_probed", used)
    return R


def compare(c, R, C, nside, ncorr, n):
    ca = cosangles(nside)
    for i in range(n):
        for j in range(i + 1):
            if i - j > ncorr:
                continue
            want = pixel_cov(C[:, i, j], ca)
            scale = np.sqrt(max(pixel_cov(C[:, i, i], np.ones(1))[0], 1e-30) * max(pixel_cov(C[:, j, j], np.ones(1))[0], 1e-30))
            c.close(R[i] @ R[j].T, want, f"pixel covariance of maps ({i}, {j})", rtol=0, atol=1e-9 * scale, ncorr=ncorr, nside=nside)
            c.event("map_pairs")


def cond_ok(C, ncorr):
    """Whether truncation to ncorr keeps every mode positive definite (independent recursion)."""
    from .c02 import ref_min_s

    n = C.shape[-1]
    for ell in range(len(C)):
        d = np.sqrt(np.diag(C[ell]))
        live = d > 0
        M = np.zeros((n, n))
        M[np.ix_(live, live)] = C[ell][np.ix_(live, live)] / np.outer(d[live], d[live])
        # fields of zero variance are harmless: replace by independent unit fields
        M[~live, ~live] = 1.0
        if ref_min_s(M, [ncorr] * n) < 1e-6:
            return False
    return True


@case(PID, q=40, t=700, backends=("np", "np", "np", "np", "strict"))
def covariance(c):
    r = c.r
    n = int(r.integers(1, 5))
    nside = int(r.choice([1, 2]))
    nmodes = int(r.integers(1, 8 if n < 4 else 6))
    ncorr = None if r.random() < 0.3 else int(r.integers(0, n + 1))
    for _ in range(20):
        C, gls = make_gls(r, n, nmodes, ragged=r.random() < 0.6, zeros=r.random() < 0.5)
        nc = n - 1 if ncorr is None else ncorr
        if cond_ok(C, nc):
            break
    else:
        ncorr, nc = None, n - 1
    if n > 1 and r.random() < 0.3:
        # decorrelate one pair completely: spectrum missing
        i, j = sorted(r.choice(n, 2, replace=False))[::-1]
        C2 = C.copy()
        C2[:, i, j] = C2[:, j, i] = 0
        if all(np.linalg.eigvalsh(m)[0] > -1e-12 for m in C2) and cond_ok(C2, nc):
            C = C2
            gls[order(n).index((i, j))] = np.zeros(0)
            c.event("missing_spectrum")
    c.note(n=n, nside=nside, nmodes=nmodes, ncorr=ncorr, lens=[len(g) for g in gls])
    R = response(c, gls, n, nside, ncorr)
    compare(c, R, C, nside, nc, n)
    c.key(n, nside, nmodes, ncorr, c.bk)


@case(PID, q=2, t=12, backends=("jax",))
def covariance_jax(c):
    r = c.r
    C, gls = make_gls(r, 2, 3, ragged=False, zeros=False)
    R = response(c, gls, 2, 1, None)
    compare(c, R, C, 1, 1, 2)
    c.key(c.idx)


@case(PID, q=3, t=20)
def covariance_large(c):
    """More modes (beyond the band limit of the grid) and a finer grid."""
    r = c.r
    nside, nmodes = [(4, 9), (2, 12), (1, 16)][c.idx % 3]
    n = 2 if c.idx % 2 else 1
    C, gls = make_gls(r, n, nmodes, ragged=False, zeros=False)
    R = response(c, gls, n, nside, None)
    compare(c, R, C, nside, n - 1, n)
    c.key(nside, nmodes, n)


@case(PID, q=40, t=800, backends=("np", "strict"))
def long_chain(c):
    """Many fields with a short correlation limit: sparse probing of the far end of the chain."""
    import glass

    r = c.r
    n = int(r.integers(5, 14))
    ncorr = int(r.integers(0, 5))
    nmodes, nside = 2, 1
    C, gls = make_gls(r, n, nmodes, ragged=False, zeros=False)
    if not cond_ok(C, ncorr):
        C *= np.where(np.eye(n) > 0, 1.0, 0.25)
        gls = [C[:, i, j].copy() for i, j in order(n)]
    if not cond_ok(C, ncorr):
        c.event("assertions")
        return
    R = response(c, gls, n, nside, ncorr)
    compare(c, R, C, nside, ncorr, n)
    c.key(n, ncorr, c.bk)


@case(PID, q=3, t=24)
def many_fields(c):
    """Tens of fields, all or many of them correlated."""
    r = c.r
    n = int(r.integers(17, 25 if c.tier == "quick" else 34))
    ncorr = n - 1 if r.random() < 0.5 else int(r.integers(n // 2, n))
    L = 0.3 * r.normal(size=(2, n, n)) / np.sqrt(n)
    C = np.einsum("lij,lkj->lik", L, L) + np.eye(n) * r.uniform(0.1, 1)
    if ncorr < n - 1:
        C = C * np.exp(-np.abs(np.subtract.outer(np.arange(n), np.arange(n))) / 6)
    gls = [C[:, i, j].copy() for i, j in order(n)]
    if not cond_ok(C, ncorr):
        c.event("assertions")
        return
    R = response(c, gls, n, 1, ncorr)
    compare(c, R, C, 1, ncorr, n)
    c.key(n, ncorr)


@case(PID, q=60, t=600, backends=("np", "strict", "np"))
def histories(c):
    """Maps arrive one by one in field order and are never altered later; interleaved generators are independent."""
    import glass

    r = c.r
    n = int(r.integers(2, 6))
    nside = int(r.choice([1, 2, 4]))
    ncorr = int(r.integers(0, n))
    C, gls = make_gls(r, n, int(r.integers(1, 6)), ragged=False, zeros=False)
    C *= np.where(np.eye(n) > 0, 1.0, 0.3)
    gls = [C[:, i, j].copy() for i, j in order(n)]
    mk = lambda s: glass.generate([glass.grf.Normal()] * n, [c.a(g) for g in gls], nside, ncorr=ncorr, rng=np.random.default_rng(s))
    a, b = mk(1), mk(2)
    ra = [np.array(c.n(m)) for m in mk(1)]
    rb = [np.array(c.n(m)) for m in mk(2)]
    seen = []
    order_ = r.permutation([0] * n + [1] * n)
    ia = ib = 0
    for w in order_:
        if w == 0:
            m, want, ia = next(a), ra[ia], ia + 1
        else:
            m, want, ib = next(b), rb[ib], ib + 1
        c.is_backend(m, "map")
        c.same(m, want, "map depends on the consumption order")
        seen.append((m, want))
        for m2, want2 in seen:
            c.same(m2, want2, "a map handed out earlier was altered")
    for g in (a, b):
        c.check(next(g, None) is None, "more maps than fields")
    c.event("interleavings")
    c.key(n, nside, ncorr, tuple(order_)[:6])


@case(PID, q=40, t=300, backends=("np", "strict"))
def refusals(c):
    import glass

    r = c.r
    n = int(r.integers(1, 5))
    C, gls = make_gls(r, n, 4, ragged=False, zeros=False)
    F = [glass.grf.Normal()] * n
    kind = c.idx % 4
    if kind == 0:
        fields = F[:-1] if r.random() < 0.5 else F + F[:1]
        c.raises(ValueError, lambda: list(glass.generate(fields, [c.a(g) for g in gls], 1)), "wrong number of fields")
    elif kind == 1:
        c.raises(ValueError, lambda: list(glass.generate(F, [c.a(g[:0]) for g in gls], 1)), "all spectra empty")
    elif kind == 2:
        i, ell = int(r.integers(0, n)), int(r.integers(0, 4))
        gls[order(n).index((i, i))][ell] = -float(r.uniform(1e-8, 1))
        c.raises(ValueError, lambda: list(glass.generate(F, [c.a(g) for g in gls], 1)), f"negative auto spectrum of field {i} at l={ell}")
    else:
        gls = gls[:-1] if r.random() < 0.5 else gls + gls[:1]
        c.raises(ValueError, lambda: list(glass.generate(F, [c.a(g) for g in gls], 1)), "wrong number of spectra")
    c.key(kind, n, c.bk)


@case(PID, q=30, t=400, backends=("np", "strict", "np", "np", "np"))
def rng_is_used(c):
    """The maps depend on the generator passed in and only on it; statistical band-power check at higher resolution."""
    import glass
    import healpy

    r = c.r
    nside = int(r.choice([8, 16]))
    nmodes = int(r.integers(4, 3 * nside))
    n = 2
    cl = [np.full(nmodes, 1.0), np.full(nmodes, 2.0), np.full(nmodes, 0.7)]
    rng = RecRNG(int(r.integers(1 << 30)))
    maps = [np.array(c.n(m)) for m in glass.generate([glass.grf.Normal()] * n, [c.a(x) for x in cl], nside, rng=rng)]
    tot = sum(o.size for m, kw, o in rng.log if m == "standard_normal")
    c.check(tot >= 2 * nmodes * nmodes, "fewer random variates than degrees of freedom", drawn=tot, needed=2 * nmodes**2)
    # total power of every field is a chi-square: sum over alm of the map
    if nmodes <= 2 * nside:
        for i, want in ((0, 1.0), (1, 2.0)):
            alm = healpy.map2alm(maps[i], lmax=nmodes - 1, iter=10)
            p = healpy.alm2cl(alm)
            ell = np.arange(nmodes)
            dof = (2 * ell + 1).sum()
            tot = ((2 * ell + 1) * p).sum() / want
            z = (tot - dof) / np.sqrt(2 * dof)
            c.check(abs(z) < 8, "total power far from its expectation", z=z, field=i)
    c.key(nside, nmodes)


@case(PID, q=6, t=60, backends=("np", "np", "strict"), steps=10**8)
def many_modes(c):
    """With hundreds of modes, maps scale with the root of the spectra and modes add up."""
    import glass

    r = c.r
    nmodes = int(r.integers(150, 800))
    nside = int(r.choice([2, 4, 16]))
    seed = int(r.integers(1 << 30))
    n = 1 if c.idx % 2 else 2
    ell = np.arange(nmodes)
    base = 10.0 ** r.uniform(-3, 0, nmodes) / (1 + ell)

    def maps(cls):
        return [np.array(c.n(m)) for m in glass.generate([glass.grf.Normal()] * n, [c.a(x) for x in cls], nside, rng=np.random.default_rng(seed))]

    if n == 1:
        even = r.random(nmodes) < 0.5
        a, b, ab = (maps([base * k])[0] for k in (even, ~even, np.ones(nmodes)))
        c.close(a + b, ab, "maps of two sets of modes do not add up", rtol=1e-11, atol=1e-11 * np.abs(ab).max(), nmodes=nmodes)
    cls = [base] if n == 1 else [base, 2 * base, 0.9 * base]
    s = float(10.0 ** r.uniform(-20, 5))
    for x, y in zip(maps(cls), maps([s * x for x in cls])):
        c.close(y / np.sqrt(s), x, "maps do not scale with the spectra", rtol=1e-10, atol=1e-11 * np.abs(x).max(), nmodes=nmodes, s=s)
    c.event("modes", nmodes)
    c.key(c.bk, nside, n, nmodes)
