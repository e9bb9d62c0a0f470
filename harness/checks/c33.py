"""C33: array helpers equal their mathematical definitions.

References are written directly from the definitions (explicit loops over
slices, sums of areas, element-wise formulas), not by calling the same numpy
function with the same arguments.
"""

import itertools
import math

import numpy as np

from ..core import case

PID = "C33"
JB = ("np", "strict", "np", "strict") * 8 + ("jax",)


def grid(r, n, lo=-3.0, hi=5.0):
    g = np.sort(r.uniform(lo, hi, size=n))
    g += 1e-3 * np.arange(n)
    return g


def lin(x, xp, fp, left=None, right=None, period=None):
    """Scalar piecewise linear interpolation by definition."""
    xp, fp = list(map(float, xp)), list(map(float, fp))
    if period is not None:
        period = abs(period)
        pairs = sorted((v % period, f) for v, f in zip(xp, fp))
        xp = [v for v, _ in pairs]
        fp = [f for _, f in pairs]
        x = x % period
        xp = [xp[-1] - period, *xp, xp[0] + period]
        fp = [fp[-1], *fp, fp[0]]
    elif x < xp[0]:
        return fp[0] if left is None else left
    elif x > xp[-1]:
        return fp[-1] if right is None else right
    if len(xp) == 1:
        return fp[0]
    for i in range(len(xp) - 1):
        if xp[i] <= x <= xp[i + 1]:
            t = (x - xp[i]) / (xp[i + 1] - xp[i])
            return fp[i] + t * (fp[i + 1] - fp[i])
    raise AssertionError(x)


def area(y, x):
    """Trapezoids under 1-d data."""
    if np.iscomplexobj(y):
        return complex(area(np.real(y), x), area(np.imag(y), x))
    x, y = [float(v) for v in x], [float(v) for v in y]
    return math.fsum((x[i + 1] - x[i]) * (y[i + 1] + y[i]) / 2 for i in range(len(x) - 1))


def reshape_of(r, ndim, top=4):
    return tuple(int(v) for v in r.integers(1, top + 1, size=ndim))


@case(PID, q=260, t=8000, backends=JB)
def broadcast_first(c):
    import glass.arraytools as at

    r = c.r
    n = int(r.integers(1, 5))
    k = int(r.integers(1, 7))
    trail = reshape_of(r, int(r.integers(0, 4)))
    arrays = []
    for _ in range(k):
        t = list(trail[int(r.integers(0, len(trail) + 1)) :])
        t = [1 if r.random() < 0.3 else v for v in t]
        first = 1 if r.random() < 0.15 else n
        if r.random() < 0.15:
            arrays.append(np.asarray(r.normal()))
        else:
            arrays.append(r.normal(size=(first, *t)))
    if c.bk == "jax":
        arrays = [r.normal(size=(3, 4)), r.normal(size=(3,))]
    got = at.broadcast_first(*[c.a(a) for a in arrays])
    # by definition: the first axes go together, the others broadcast from the right
    firsts = [a.shape[0] for a in arrays if a.ndim]
    trails = [a.shape[1:] for a in arrays if a.ndim]
    c.check(len(got) == len(arrays), "number of arrays")
    if not firsts:
        want_shape = ()
    else:
        want_shape = np.broadcast_shapes(*[(f,) for f in firsts]) + np.broadcast_shapes(*trails)
    for a, g in zip(arrays, got):
        c.is_backend(g, "broadcast array")
        gn = c.n(g)
        c.check(gn.shape == want_shape, f"shape {gn.shape} instead of {want_shape}", shapes=[x.shape for x in arrays])
        for ix in np.ndindex(*want_shape):
            if a.ndim == 0:
                v = a[()]
            else:
                own = ix[1:][len(ix) - 1 - (a.ndim - 1) :] if a.ndim > 1 else ()
                own = (ix[0], *own)
                v = a[tuple(0 if s == 1 else i for s, i in zip(a.shape, own))]
            c.check(gn[ix] == v, "value moved", ix=ix, shapes=[x.shape for x in arrays])
    c.key(c.bk, [a.shape for a in arrays])


@case(PID, q=260, t=8000, backends=JB)
def broadcast_leading(c):
    import glass.arraytools as at

    r = c.r
    lead = reshape_of(r, int(r.integers(0, 4)))
    args = []
    for _ in range(int(r.integers(1, 4))):
        t = reshape_of(r, int(r.integers(0, 3)))
        ld = tuple(1 if r.random() < 0.3 else v for v in lead[int(r.integers(0, len(lead) + 1)) :])
        args.append((r.normal(size=ld + t), len(t)))
    if c.bk == "jax":
        args = [(r.normal(size=(2, 1, 3)), 1), (r.normal(size=(4,)), 0)]
    pyfloat = r.random() < 0.2
    call = [(c.a(a), n) for a, n in args]
    if pyfloat:
        call.append((1.5, 0))
        args = [*args, (np.asarray(1.5), 0)]
    got = at.broadcast_leading_axes(*call, xp=c.xp if (pyfloat or r.random() < 0.5) else None)
    dims = np.broadcast_shapes(*[a.shape[: a.ndim - n] for a, n in args])
    c.check(tuple(got[0]) == dims, f"leading shape {got[0]} instead of {dims}")
    c.check(len(got) == len(args) + 1, "number of results")
    for (a, n), g in zip(args, got[1:]):
        c.is_backend(g, "broadcast array")
        t = a.shape[a.ndim - n :]
        gn = c.n(g)
        c.check(gn.shape == dims + t, f"shape {gn.shape} instead of {dims + t}")
        for ix in np.ndindex(*dims):
            m = a.ndim - n
            own = tuple(0 if s == 1 else i for s, i in zip(a.shape[:m], ix[len(ix) - m :]))
            c.check(np.array_equal(gn[ix], a[own]), "value moved", ix=ix)
    c.key(c.bk, [(a.shape, n) for a, n in args])


@case(PID, q=40, t=600, backends=("np", "strict"))
def broadcast_leading_refuses(c):
    import glass.arraytools as at

    a, b = c.a(c.r.normal(size=(2, 3))), c.a(c.r.normal(size=(4, 3)))
    c.raises(ValueError, lambda: at.broadcast_leading_axes((a, 1), (b, 1)), "incompatible leading axes accepted")
    c.raises(ValueError, lambda: at.broadcast_first(c.a(np.ones((2, 3))), c.a(np.ones((2, 4)))), "incompatible trailing axes accepted")
    c.key(c.bk)


@case(PID, q=260, t=8000, backends=JB)
def ndinterp(c):
    import glass.arraytools as at

    r = c.r
    nq = int(r.integers(1, 8))
    xq = grid(r, nq)
    ndim = int(r.integers(1, 5))
    axis = int(r.integers(-ndim, ndim))
    shape = list(reshape_of(r, ndim, 3))
    shape[axis] = nq
    kind = int(r.integers(0, 4))
    if c.bk == "jax":
        nq, ndim, axis, kind = 4, 2, 0, 1
        xq, shape = grid(r, 4), [4, 2]
    fq = r.normal(size=shape)
    xs = [(), (3,), (2, 2), (1,)][kind]
    x = r.uniform(-6, 8, size=xs)
    if xs and r.random() < 0.5:
        x.flat[0] = xq[int(r.integers(nq))]
    opts = {}
    u = r.random()
    if u < 0.3:
        opts["left"] = float(r.choice([0.0, r.normal()]))
    if 0.2 < u < 0.5:
        opts["right"] = float(r.choice([0.0, r.normal()]))
    if u > 0.75 and xs and c.bk != "jax":
        opts = dict(period=float(r.uniform(0.5, 12)))
        xx = np.sort(xq % opts["period"])
        if nq > 1 and np.min(np.diff(xx)) < 1e-6:
            opts = {}
    if c.bk == "jax" and len(opts) == 1:
        opts = dict(left=float(r.normal()), right=float(r.normal()))
    arg = float(x) if (kind == 0 and r.random() < 0.5) else c.a(x)
    call = dict(opts)
    if axis != -1 or r.random() < 0.5:
        call["axis"] = axis
    got = at.ndinterp(arg, c.a(xq), c.a(fq), **call)
    c.is_backend(got, "interpolated array")
    ax = axis % ndim
    lead, rest = fq.shape[:ax], fq.shape[ax + 1 :]
    want = np.empty(lead + xs + rest)
    for i in np.ndindex(*lead):
        for k in np.ndindex(*rest):
            col = fq[i + (slice(None),) + k]
            for j in np.ndindex(*xs):
                want[i + j + k] = lin(float(x[j]), xq, col, **opts)
    c.close(got, want, "interpolation over an axis", rtol=1e-9, atol=1e-9, opts=opts, axis=axis, shape=shape)
    c.key(c.bk, ndim, axis, kind, sorted(opts))


@case(PID, q=240, t=8000, backends=JB)
def interp(c):
    from glass._array_api_utils import xp_additions as u

    r = c.r
    nq = 5 if c.bk == "jax" else int(r.integers(1, 12))
    xq = grid(r, nq)
    fq = r.normal(size=nq)
    x = r.uniform(-6, 8, size=6)
    x[0] = xq[0]
    x[1] = xq[-1]
    opts = {}
    if r.random() < 0.5:
        opts["left"] = float(r.choice([0.0, r.normal()]))
    if r.random() < 0.5:
        opts["right"] = float(r.choice([0.0, r.normal()]))
    if c.bk == "jax" and len(opts) == 1:
        # jax.numpy.interp confuses left and right once both kinds of call have been compiled
        opts = dict(left=float(r.normal()), right=float(r.normal()))
    got = u.interp(c.a(x), c.a(xq), c.a(fq), **opts)
    c.is_backend(got, "interpolated values")
    c.close(got, np.array([lin(float(v), xq, fq, **opts) for v in x]), "interpolation", rtol=1e-9, atol=1e-9, opts=opts)
    c.key(c.bk, nq, sorted(opts))


@case(PID, q=260, t=8000, backends=JB)
def trapezoid(c):
    from glass._array_api_utils import xp_additions as u

    r = c.r
    ndim = int(r.integers(1, 5))
    axis = int(r.integers(-ndim, ndim))
    shape = reshape_of(r, ndim, 5)
    if c.bk == "jax":
        ndim, axis, shape = 2, 0, (3, 4)
    y = r.normal(size=shape)
    kind = str(r.choice(["real", "real", "complex", "integer"]))
    if kind == "complex":
        y = y + 1j * r.normal(size=shape)
    elif kind == "integer":
        y = r.integers(-9, 10, size=shape)
    n = shape[axis]
    mode = int(r.integers(0, 4))
    x = None
    call = dict(axis=axis)
    if mode == 0:
        x = grid(r, n)
        got = u.trapezoid(c.a(y), c.a(x), **call)
        xx = x
    elif mode == 1:
        got = u.trapezoid(c.a(y), **call)
        xx = np.arange(n) * 1.0
    elif mode == 2:
        dx = float(r.uniform(0.1, 3))
        got = u.trapezoid(c.a(y), dx=dx, **call)
        xx = np.arange(n) * dx
    else:
        xx = None
        full = np.sort(r.uniform(0, 5, size=shape), axis=axis)
        got = u.trapezoid(c.a(y), x=c.a(full), **call)
    ax = axis % ndim
    oth = shape[:ax] + shape[ax + 1 :]
    want = np.empty(oth, dtype=complex if kind == "complex" else float)
    for i in np.ndindex(*oth):
        s = i[:ax] + (slice(None),) + i[ax:]
        want[i] = area(y[s], full[s] if xx is None else xx)
    c.close(got, want, "trapezoidal integral", rtol=1e-10, atol=1e-12, mode=mode, axis=axis)
    if ndim > 1:
        c.is_backend(got, "integral")
    c.key(c.bk, shape, axis, mode, kind)


@case(PID, q=200, t=6000, backends=JB)
def cumulative_trapezoid(c):
    import glass.arraytools as at

    r = c.r
    n = 5 if c.bk == "jax" else int(r.integers(1, 9))
    lead = () if c.bk == "jax" else reshape_of(r, int(r.integers(0, 4)), 3)
    ints = r.random() < 0.3
    y = r.integers(-9, 10, size=(*lead, n)) if ints else r.normal(size=(*lead, n))
    xlead = lead if (lead and r.random() < 0.4) else ()
    x = np.cumsum(r.integers(1, 5, size=(*xlead, n)), axis=-1) if ints else np.sort(r.uniform(-3, 9, size=(*xlead, n)), axis=-1)
    if ints and r.random() < 0.5:  # the integral is of floating-point type: nothing wraps around
        y, x = abs(y) * 20, x * 10
        t = [np.uint8, np.int16, np.int32, np.uint16][int(r.integers(0, 4))]
        y, x = y.astype(t), x.astype(np.int16 if r.random() < 0.5 else np.float64)
    got = at.cumulative_trapezoid(c.a(y), c.a(x))
    c.is_backend(got, "cumulative integral")
    want = np.empty((*lead, n))
    xb = np.broadcast_to(x, (*lead, n))
    for i in np.ndindex(*lead):
        for k in range(n):
            want[i + (k,)] = area(y[i][: k + 1], xb[i][: k + 1])
    c.close(got, want, "cumulative integral", rtol=1e-10, atol=1e-11)
    c.key(c.bk, lead, n, ints, len(xlead))


@case(PID, q=240, t=8000, backends=JB)
def trapezoid_product(c):
    import glass.arraytools as at

    r = c.r
    k = int(r.choice([1, 2, 2, 3, 3, 4, 5, 6]))
    fs, common = [], r.random() < 0.8
    for _ in range(k):
        n = int(r.integers(1 if k > 1 else 2, 9))
        lo, wd = float(r.uniform(-2, 2)), float(r.uniform(0.2, 4))
        if k > 3 and common:  # so many seldom have a range in common
            n, lo, wd = max(n, 2), lo / 4 - 1, wd / 4 + 2
        fs.append((grid(r, n, lo, lo + wd), r.normal(size=n)))
    if r.random() < 0.3 and k > 1:
        # shared grid points
        fs[1] = (np.unique(np.r_[fs[0][0][::2], fs[1][0]]), None)
        fs[1] = (fs[1][0], r.normal(size=fs[1][0].size))
    if r.random() < 0.15 and k > 1:
        # touching grids
        x = fs[0][0][-1] + fs[1][0] - fs[1][0][0]
        x[0] = fs[0][0][-1]
        fs[1] = (x, fs[1][1])
    if c.bk == "jax":
        fs = [(np.linspace(0, 2, 5), r.normal(size=5)), (np.linspace(1, 3, 4), r.normal(size=4))]
    got = at.trapezoid_product(*[(c.a(x), c.a(f)) for x, f in fs])
    lo, hi = max(x[0] for x, _ in fs), min(x[-1] for x, _ in fs)
    pts = sorted({float(v) for x, _ in fs for v in x if lo <= v <= hi})
    prod = [math.prod(lin(p, x, f) for x, f in fs) for p in pts]
    c.close(got, area(prod, pts), "integral of product", rtol=1e-8, atol=1e-9, grids=[x for x, _ in fs])
    c.event("disjoint", lo > hi)
    c.event("touching", lo == hi)
    c.key(c.bk, [x.size for x, _ in fs], lo > hi)


@case(PID, q=100, t=3000, backends=JB)
def gradient(c):
    from glass._array_api_utils import xp_additions as u

    n = 6 if c.bk == "jax" else int(c.r.integers(2, 12))
    f = c.r.normal(size=n)
    got = u.gradient(c.a(f))
    c.is_backend(got, "gradient")
    want = np.array([f[1] - f[0], *[(f[i + 1] - f[i - 1]) / 2 for i in range(1, n - 1)], f[-1] - f[-2]])
    c.close(got, want, "gradient", rtol=1e-12, atol=1e-14)
    c.key(c.bk, n)


@case(PID, q=120, t=4000, backends=JB)
def lstsq(c):
    from glass._array_api_utils import xp_additions as u

    r = c.r
    m, n = (5, 3) if c.bk == "jax" else (int(r.integers(1, 8)), int(r.integers(1, 6)))
    rank = min(m, n)
    a = r.normal(size=(m, n))
    if rank > 1 and r.random() < 0.3 and c.bk != "jax":
        rank -= 1
        a = r.normal(size=(m, rank)) @ r.normal(size=(rank, n))
    b = r.normal(size=(m,) if r.random() < 0.7 else (m, 2))
    if c.bk == "jax":
        b = r.normal(size=m)
    x, res, rk, s = u.linalg_lstsq(c.a(a), c.a(b))
    for v in (x, s):
        c.is_backend(v, "least squares result")
    xn = c.n(x)
    # minimum norm solution of the normal equations
    c.close(a.T @ (a @ xn - b), np.zeros((n, *b.shape[1:])), "normal equations", atol=1e-9)
    ns = np.linalg.svd(a)[2][rank:]
    c.close(ns @ xn, np.zeros((n - rank, *b.shape[1:])), "minimum norm", atol=1e-9)
    c.check(int(c.n(rk)) == rank, f"rank {rk} instead of {rank}")
    c.close(s, np.linalg.svd(a, compute_uv=False), "singular values", rtol=1e-9, atol=1e-10)
    if rank == n and m > n and c.bk != "jax":
        c.close(np.reshape(c.n(res), b.shape[1:]), ((a @ xn - b) ** 2).sum(0), "residuals", rtol=1e-8, atol=1e-12)
    c.key(c.bk, m, n, rank, b.ndim)


SUBS = ["ij,jk->ik", "ij,j->i", "...ij,...j->...i", "ij,ij->", "ii->i", "...ii", "ij->ji", "i,j->ij", "ijk,ik->ij", "ab,bc,cd->ad", "...l,l->...l"]


@case(PID, q=120, t=4000, backends=JB)
def einsum(c):
    from glass._array_api_utils import xp_additions as u

    r = c.r
    sub = SUBS[0] if c.bk == "jax" else SUBS[int(r.integers(len(SUBS)))]
    size = {ch: (3 if c.bk == "jax" else int(r.integers(1, 4))) for ch in "abcdijkl"}
    ell = reshape_of(r, int(r.integers(0, 3)), 3)
    ins, _, out = sub.partition("->")
    ops = []
    for t in ins.split(","):
        sh = ()
        letters = t
        if t.startswith("..."):
            sh, letters = ell, t[3:]
        ops.append(r.normal(size=sh + tuple(size[ch] for ch in letters)))
    got = u.einsum(sub, *[c.a(o) for o in ops])
    if "->" not in sub:
        out = "..."
    used = sorted({ch for ch in ins if ch.isalpha()})
    lead = ell if "..." in out else ()
    outl = out.replace("...", "")
    want = np.zeros(lead + tuple(size[ch] for ch in outl))
    for e in np.ndindex(*lead):
        for combo in itertools.product(*[range(size[ch]) for ch in used]):
            ix = dict(zip(used, combo))
            v = 1.0
            for t, o in zip(ins.split(","), ops):
                own = e if t.startswith("...") else ()
                v *= o[own + tuple(ix[ch] for ch in t.replace("...", ""))]
            want[e + tuple(ix[ch] for ch in outl)] += v
    c.close(got, want, f"einsum {sub}", rtol=1e-10, atol=1e-12)
    if want.ndim:
        c.is_backend(got, "einsum")
    c.key(c.bk, sub, ell)


@case(PID, q=120, t=4000, backends=JB)
def along_axis(c):
    from glass._array_api_utils import xp_additions as u

    r = c.r
    ndim = 2 if c.bk == "jax" else int(r.integers(1, 5))
    axis = int(r.integers(-ndim, ndim))
    a = r.normal(size=(3, 4) if c.bk == "jax" else reshape_of(r, ndim, 3))
    w = float(r.normal())
    v = r.normal(size=2)
    which = int(r.integers(0, 3)) if c.bk != "jax" else 0
    if which == 0:  # same length
        f = lambda k, row, shift=0.0: row * k[0] + k[1] + shift
        ref = lambda row: row * v[0] + v[1] + w
    elif which == 1:  # to scalar
        f = lambda k, row, shift=0.0: row.sum() * k[0] + shift
        ref = lambda row: math.fsum(row) * v[0] + w
    else:  # to another length
        f = lambda k, row, shift=0.0: k * row[0] + shift
        ref = lambda row: v * row[0] + w
    got = u.apply_along_axis(f, (c.a(v),), axis, c.a(a), shift=w)
    c.is_backend(got, "result")
    ax = axis % ndim
    moved = np.moveaxis(a, ax, -1)
    first = np.asarray(ref(moved[(0,) * (ndim - 1)]))
    want = np.empty(moved.shape[:-1] + first.shape)
    for i in np.ndindex(*moved.shape[:-1]):
        want[i] = ref(moved[i])
    if first.ndim:
        want = np.moveaxis(want, -1, ax)
    c.close(got, want, "function along axis", rtol=1e-12, atol=1e-12)
    c.key(c.bk, a.shape, axis, which)


@case(PID, q=100, t=3000, backends=JB)
def angles_and_indices(c):
    from glass._array_api_utils import xp_additions as u

    r = c.r
    shape = (3,) if c.bk == "jax" else reshape_of(r, int(r.integers(0, 4)), 3)
    d = r.uniform(-720, 720, size=shape)
    g = u.radians(c.a(d))
    c.close(g, d * (math.pi / 180), "radians", rtol=1e-13)
    c.is_backend(g, "radians") if shape else None
    g = u.degrees(c.a(d))
    c.close(g, d * (180 / math.pi), "degrees", rtol=1e-13)
    c.is_backend(g, "degrees") if shape else None
    c.check(
        [tuple(map(int, i)) for i in u.ndindex(shape, xp=c.xp)] == list(itertools.product(*[range(s) for s in shape])), "index iteration", shape=shape
    )
    n = 3 if c.bk == "jax" else int(r.integers(1, 7))
    k = 0 if c.bk == "jax" else int(r.integers(-3, 4))
    m = None if (c.bk == "jax" or r.random() < 0.5) else int(r.integers(1, 7))
    got = u.tril_indices(n, k=k, m=m, xp=c.xp)
    c.check(len(got) == 2, "index arrays")
    want = [(i, j) for i in range(n) for j in range(n if m is None else m) if j <= i + k]
    c.same(got[0], np.array([i for i, _ in want], dtype=int), "rows of the lower triangle", n=n, k=k, m=m)
    c.same(got[1], np.array([j for _, j in want], dtype=int), "columns of the lower triangle", n=n, k=k, m=m)
    for v in got:
        c.is_backend(v, "index array")
    f = u.vectorize(lambda a, b: a * 2 + b, otypes=[float], xp=c.xp)
    c.close(f(c.n(d), 3.0), 2 * d + 3, "vectorised function", rtol=1e-13)
    c.key(c.bk, shape, n, k, m)


@case(PID, q=40, t=800, backends=("np", "strict", "np"))
def large_arrays(c):
    """Thousands of nodes, and nodes in any order where the definition allows it."""
    import glass.arraytools as at
    from glass._array_api_utils import xp_additions as u

    r = c.r
    n = int(r.choice([300, 1500, 4000, 9000]))
    rows = int(r.integers(1, 4))
    x = np.sort(r.uniform(-3, 9, n))
    y = r.normal(size=(rows, n))
    # any order: steps count with their sign
    o = [slice(None), slice(None, None, -1), r.permutation(n)][c.idx % 3]
    f, t = y[:, o], x[o]
    step = (f[:, 1:] + f[:, :-1]) / 2 * np.diff(t)
    want = np.concatenate([np.zeros((rows, 1)), np.cumsum(step, axis=-1)], axis=-1)
    tol = 1e-12 * np.abs(step).sum()
    c.close(at.cumulative_trapezoid(c.a(f), c.a(t)), want, "cumulative integral", rtol=1e-10, atol=tol)
    c.close(u.trapezoid(c.a(f), c.a(t)), step.sum(axis=-1), "integral", rtol=1e-10, atol=tol)
    c.close(u.gradient(c.a(x)), np.gradient(x), "gradient", rtol=1e-12, atol=1e-13)
    # interpolation
    q = np.concatenate([r.uniform(-4, 10, n), r.choice(x, 50)])
    lo, up = float(r.normal()), float(r.normal())
    c.close(u.interp(c.a(q), c.a(x), c.a(y[0]), left=lo, right=up), np.interp(q, x, y[0], left=lo, right=up), "interpolation", rtol=1e-9, atol=1e-9)
    got = at.ndinterp(c.a(q), c.a(x), c.a(y), left=lo, right=up)
    c.close(got, np.stack([np.interp(q, x, v, left=lo, right=up) for v in y]), "interpolation of rows", rtol=1e-9, atol=1e-9)
    # product of functions
    fs = [(x, y[0])]
    for _ in range(int(r.integers(1, 4))):
        m = int(r.choice([3, 50, 4000]))
        fs.append((np.sort(r.uniform(-2.5, 8.5, m)), r.normal(size=m)))
    a, b = max(v[0] for v, _ in fs), min(v[-1] for v, _ in fs)
    nodes = np.unique(np.concatenate([v for v, _ in fs]))
    nodes = nodes[(nodes >= a) & (nodes <= b)]
    prod = np.ones_like(nodes)
    for v, w in fs:
        prod = prod * np.interp(nodes, v, w)
    area_ = ((prod[1:] + prod[:-1]) / 2 * np.diff(nodes)) if nodes.size > 1 else np.zeros(1)
    c.close(at.trapezoid_product(*[(c.a(v), c.a(w)) for v, w in fs]), area_.sum(), "integral of product", rtol=1e-9, atol=1e-10 * max(np.abs(area_).sum(), 1e-300))
    c.event("nodes", n + nodes.size)
    c.key(c.bk, n, rows, c.idx % 3, [v.size for v, _ in fs])
