"""C22: distributing redshifts assigns exactly one admissible shell."""

import numpy as np
from scipy import stats

from ..core import case
from ..rngs import RecRNG

PID = "C22"
P = 1e-9
B = ("np", "strict", "np", "np", "strict", "np")


def shells(r):
    """Piecewise-linear windows: gaps, overlaps, zero stretches."""
    k = int(r.integers(0, 5))
    n = int(r.integers(1, 7)) if r.random() < 0.93 else int(r.integers(100, 350))
    out = []
    if k == 0:  # disjoint with gaps
        for i in range(n):
            za = i + np.array([0.1, 0.2, 0.5, 0.8])
            out.append((za, r.uniform(0.1, 2, 4)))
    elif k == 1:  # triangles
        for i in range(n):
            out.append((i * 0.5 + np.array([0, 0.5, 1.0]), np.array([0, float(r.uniform(0.2, 3)), 0])))
    elif k == 2:  # all on the same range
        for i in range(n):
            out.append((np.linspace(0.1, 2, 6), r.uniform(0, 1, 6) * (r.random(6) < 0.7)))
    elif k == 3:  # random intervals of very different height
        for i in range(n):
            a = float(r.uniform(0, 2))
            lo = float(r.choice([-6, -6, -14, -40]))
            out.append((np.array([a, a + 0.3, a + float(r.uniform(0.4, 2))]), 10.0 ** r.uniform(lo, 3, 3)))
    else:  # adjoining tophats
        e = np.cumsum(r.uniform(0.1, 0.6, n + 1))
        for i in range(n):
            out.append((np.array([e[i], e[i + 1]]), np.ones(2) * float(r.uniform(0.5, 2))))
    if r.random() < 0.4:  # weights have no preferred unit: density weights, fluxes, ...
        s = 10.0 ** float(r.choice([-150, -30, -12, -9, 9, 40, 150]))
        out = [(za, wa * s) for za, wa in out]
    return out, k


def probabilities(z, ws):
    w = np.array([np.interp(z.ravel(), za, wa, left=0, right=0) for za, wa in ws])
    tot = w.sum(axis=0)
    with np.errstate(all="ignore"):
        return np.where(tot > 0, w / tot, 0.0), tot > 0


class Hostile(RecRNG):
    """Prefers the least likely admissible outcome."""

    def _multinomial(self, n, pvals, size):
        p = np.where(pvals > 0, pvals, np.inf)
        out = np.zeros(pvals.shape, dtype=np.int64)
        np.put_along_axis(out, np.argmin(p, axis=-1)[..., None], 1, axis=-1)
        return out


SHAPES = [(), (0,), (1,), (7,), (3, 4), (0, 3), (999,), (1000,), (1001,), (2000,), (2500,), (50, 41), (3, 1, 700), (12345,)]


@case(PID, q=350, t=8000, backends=B)
def assign(c):
    check_assignment(c, SHAPES[int(c.gen(3).integers(0, len(SHAPES)))])


@case(PID, q=4, t=60, backends=("np", "np", "strict", "np"), steps=10**8)
def many(c):
    """Hundreds of thousands of redshifts at once."""
    check_assignment(c, (int(10.0 ** c.gen(3).uniform(4.8, 5.5)),))


def check_assignment(c, shape):
    """Every element gets an admissible shell; the probabilities offered are the window ratios."""
    import glass

    r = c.r
    ws, k = shells(r)
    hi = max(w[0][-1] for w in ws)
    z = r.uniform(-0.1 if k == 3 else 0, hi * 1.2, shape)
    if z.ndim and z.size and r.random() < 0.5:  # exact nodes
        f = z.reshape(-1)
        sel = r.random(f.size) < 0.3
        nodes = np.concatenate([w[0] for w in ws])
        f[sel] = r.choice(nodes, sel.sum())
    rng = (Hostile if r.random() < 0.5 else RecRNG)(int(r.integers(1 << 30)))
    sh = [glass.RadialWindow(c.a(a), c.a(b), float(a.mean())) for a, b in ws]
    out = glass.distribute(c.a(np.asarray(z)), sh, rng=rng)
    c.is_backend(out, "indices")
    out = c.n(out)
    z = np.asarray(z)
    c.check(out.shape == z.shape, f"shape {out.shape} instead of {z.shape}")
    c.check(out.dtype.kind == "i", f"data type {out.dtype} of indices")
    o = out.ravel()
    p, inside = probabilities(z, ws)
    c.check(np.all((o >= -1) & (o < len(ws))), "index out of range", values=np.unique(o))
    bad = (o == -1) != ~inside
    c.check(not bad.any(), "index -1 does not match coverage by windows", z=z.ravel()[bad][:3], got=o[bad][:3])
    sel = o >= 0
    c.check(np.all(p[o[sel], np.flatnonzero(sel)] > 0), "shell assigned where its window vanishes")
    c.event("redshifts", o.size)
    # offered probabilities, when the draw was a multinomial over all elements in order
    calls = rng.calls("multinomial")
    rows = [np.atleast_2d(kw["pvals"]) for kw, _ in calls]
    if calls and sum(len(x) for x in rows) == o.size and all(x.shape[-1] == rows[0].shape[-1] for x in rows):
        pv = np.concatenate(rows)
        dr = np.concatenate([np.atleast_2d(d) for _, d in calls])
        chosen = pv[np.arange(o.size), dr.argmax(axis=1)]
        want = np.where(sel, p[np.where(sel, o, 0), np.arange(o.size)], 1.0)
        c.close(chosen, want, "probability offered for the assigned shell", rtol=1e-9)
        c.event("offered_probabilities", o.size)
    c.note(shape=shape, kind=k, shells=len(ws))
    c.key(c.bk, k, shape, len(ws))


@case(PID, q=60, t=1200, backends=("np", "strict", "np"))
def frequencies(c):
    """Drawn frequencies of repeated redshifts at scattered positions."""
    import glass

    r = c.r
    ws, k = shells(r)
    hi = max(w[0][-1] for w in ws)
    m = 12
    base = np.concatenate([r.uniform(0, hi, m - 2), r.choice(np.concatenate([w[0] for w in ws]), 2)])
    n = 24000
    which = r.integers(0, m, n)
    sh = [glass.RadialWindow(c.a(a), c.a(b), float(a.mean())) for a, b in ws]
    o = c.n(glass.distribute(c.a(base[which]), sh, rng=np.random.default_rng(int(r.integers(1 << 30)))))
    p, inside = probabilities(base, ws)
    for j in range(m):
        got = o[which == j]
        if not inside[j]:
            c.check(np.all(got == -1), "uncovered redshift assigned")
            continue
        cnt = np.bincount(got, minlength=len(ws))
        exp = p[:, j] * got.size
        live = exp > 5
        c.check(np.all(cnt[p[:, j] == 0] == 0), "impossible shell drawn")
        if live.sum() > 1:
            rest_c, rest_e = cnt[~live].sum(), exp[~live].sum()
            f, e = cnt[live], exp[live]
            if rest_e > 1:
                f, e = np.append(f, rest_c), np.append(e, rest_e)
            else:
                e = e * f.sum() / e.sum()
            stat = ((f - e) ** 2 / e).sum()
            c.check(stats.chi2.sf(stat, f.size - 1) > P, "frequencies do not follow the windows", counts=cnt, expected=exp)
            c.event("chi2_tests")
        # no memory between positions
        if live.sum() > 1 and got.size > 500:
            s = (got[1:] == got[:-1]).mean()
            want = (p[:, j] ** 2).sum()
            c.check(abs(s - want) < 7 * np.sqrt(want * (1 - want) / got.size) * 2 + 1e-3, "assignments are correlated", got=s, want=want)
    c.key(c.bk, k, c.idx)


@case(PID, q=12, t=100, backends=("jax",))
def jax_backend(c):
    import glass
    import glass.jax as gj

    r = c.r
    ws = [(np.array([0.0, 0.5, 1.0]), np.array([0.0, 1.0, 0.0])), (np.array([0.5, 1.0, 1.5]), np.array([0.0, 2.0, 0.0]))]
    n = [1500, 7][c.idx % 2]
    z = r.uniform(-0.1, 1.7, n)
    sh = [glass.RadialWindow(c.a(a), c.a(b), float(a.mean())) for a, b in ws]
    out = glass.distribute(c.a(z), sh, rng=gj.Generator(int(r.integers(1 << 30))))
    c.is_backend(out, "indices")
    o = c.n(out)
    p, inside = probabilities(z, ws)
    c.check(np.array_equal(o == -1, ~inside), "index -1 does not match coverage by windows")
    sel = o >= 0
    c.check(np.all(p[o[sel], np.flatnonzero(sel)] > 0), "shell assigned where its window vanishes")
    if n > 1000:
        e, got = p[1][sel].sum(), (o[sel] == 1).sum()
        v = (p[1] * p[0])[sel].sum()
        c.check(abs(e - got) < 6.5 * np.sqrt(v) + 1, "number assigned", got=got, want=e)
    c.key("jax", n, c.idx)


@case(PID, q=3, t=40, backends=("np", "strict", "np"))
def rare_shells(c):
    """Hundreds of thousands of redshifts; shells with small shares keep them."""
    import glass

    r = c.r
    share = np.array([0.6, 0.395, 4e-3, 1e-3])[r.permutation(4)]
    sh = [glass.RadialWindow(c.a(np.array([0.0, 1.0])), c.a(np.full(2, s * 7)), 0.5) for s in share]
    n = 200_000
    o = c.n(glass.distribute(c.a(r.uniform(0, 1, n)), sh, rng=np.random.default_rng(int(r.integers(1 << 30)))))
    cnt = np.bincount(o, minlength=4)
    chi = ((cnt - n * share) ** 2 / (n * share)).sum()
    c.check(stats.chi2.sf(chi, 3) > P, "shares of the shells", counts=cnt, expected=n * share)
    rng = np.random.default_rng(int(r.integers(1 << 30)))
    one = np.array([int(glass.distribute(c.a(np.array([0.5, 0.5])), sh, rng=rng)[1]) for _ in range(1500)])
    cnt = np.array([(one == k).sum() for k in range(4)])
    ok = share > 0.1
    chi = ((cnt - 1500 * share) ** 2 / (1500 * share))[ok].sum()
    c.check(stats.chi2.sf(chi, 2) > P, "shares of the shells in many small calls", counts=cnt)
    c.event("chi2_tests", 2)
    c.key(c.bk, c.idx)
