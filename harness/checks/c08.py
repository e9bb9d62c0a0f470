"""C08: correlation transforms match the field transformations."""

import itertools

import numpy as np

from ..core import case

PID = "C08"

HX, HW = np.polynomial.hermite_e.hermegauss(80)
HW = HW / HW.sum()


def cov_of(t1, t2, v1, v2, x, a):
    """Covariance of t1(X, v1) and t2(Y, v2) for Gaussian X, Y with variances v1, v2 and covariance x."""
    u = np.sqrt(v1) * HX
    b = x / np.sqrt(v1)  # Y = b * (X / sqrt v1) + rest
    rest = np.sqrt(max(v2 - b * b, 0.0))
    y = b * HX[:, None] + rest * HX[None, :]
    f1 = np.asarray(t1(a(u), v1))
    f2 = np.asarray(t2(a(y.ravel()), v2)).reshape(y.shape)
    return float(np.einsum("i,j,i,ij->", HW, HW, f1, f2))


def pair(c):
    """Random supported pair with variances and admissible correlations."""
    import glass.grf as grf

    r = c.r
    kind = c.idx % 5
    lam = lambda: float(r.choice([1.0, 0.4, 2.5, 0.05, 9.0, 1.5, 2.0]))
    if kind == 0:
        t1, t2 = grf.Normal(), grf.Normal()
    elif kind == 1:
        t1, t2 = grf.Lognormal(lam()), grf.Lognormal(lam())
    elif kind in (2, 3):
        t1, t2 = grf.Normal(), grf.Lognormal(lam())
        if kind == 3:
            t1, t2 = t2, t1
    else:
        # zero mean fields: variance and shape parameter belong together
        v1, v2 = (float(v) for v in r.uniform(0.05, 0.9, 2))
        t1 = grf.SquaredNormal(float(np.sqrt(1 - v1)), lam())
        t2 = grf.SquaredNormal(float(np.sqrt(1 - v2)), lam())
        return kind, t1, t2, v1, v2
    v1, v2 = (float(v) for v in r.uniform(0.05, 1.2, 2))
    return kind, t1, t2, v1, v2


@case(PID, q=250, t=5000, backends=("np", "strict", "np", "jax"))
def covariance(c):
    import glass.grf as grf

    r = c.r
    kind, t1, t2, v1, v2 = pair(c)
    m = np.sqrt(v1 * v2)
    lo = -0.95 if kind != 4 else max(-0.95, -0.99 * t1.a * t2.a / m)
    x = np.concatenate([r.uniform(lo, 0.97, 5), [0.0]]) * m
    got = grf.corr(t1, t2, c.a(x))
    c.is_backend(got, "transformed correlation")
    want = np.array([cov_of(t1, t2, v1, v2, xx, c.a) for xx in x])
    scale = np.sqrt(abs(cov_of(t1, t1, v1, v1, v1, c.a) * cov_of(t2, t2, v2, v2, v2, c.a)))
    c.close(got, want, "transformed correlation is not the covariance of the transformed fields", rtol=1e-8, atol=1e-9 * scale, t1=repr(t1), t2=repr(t2), x=x)
    back = grf.icorr(t1, t2, got)
    c.is_backend(back, "inverse")
    c.close(back, x, "icorr does not undo corr", rtol=1e-9, atol=1e-11, t1=repr(t1), t2=repr(t2))
    c.close(grf.corr(t1, t2, grf.icorr(t1, t2, c.a(want))), want, "corr does not undo icorr", rtol=1e-9, atol=1e-12 * scale)
    # derivative: central difference of the quadrature oracle
    h = 1e-4 * m
    inner = np.abs(x) < 0.9 * m
    num = np.array([(cov_of(t1, t2, v1, v2, xx + h, c.a) - cov_of(t1, t2, v1, v2, xx - h, c.a)) / (2 * h) for xx in x[inner]])
    d = grf.dcorr(t1, t2, c.a(x))
    c.is_backend(d, "derivative")
    c.close(c.n(d)[inner], num, "dcorr is not the derivative", rtol=1e-5, atol=1e-6 * scale / m, t1=repr(t1), t2=repr(t2))
    c.event("quadratures", len(x) * 3)
    c.note(t1=repr(t1), t2=repr(t2))
    c.key(c.bk, repr(t1)[:30], repr(t2)[:30], c.idx)


@case(PID, q=150, t=2500, backends=("np", "strict", "jax"))
def order_and_shape(c):
    """Either order gives the same result; scalars and n-d arrays element by element."""
    import glass.grf as grf

    r = c.r
    kind, t1, t2, v1, v2 = pair(c)
    m = 0.9 * np.sqrt(v1 * v2)
    shape = [(), (1,), (7,), (2, 3), (0,)][int(r.integers(0, 5))]
    x = r.uniform(-m if kind != 4 else 0, m, size=shape)
    for f in (grf.corr, grf.icorr, grf.dcorr):
        y = x
        if f is grf.icorr:
            y = c.n(grf.corr(t1, t2, c.a(x)))
        a, b = f(t1, t2, c.a(y)), f(t2, t1, c.a(y))
        c.close(a, c.n(b), f"{f.__name__} depends on the order of the pair", rtol=1e-12, atol=1e-14)
        c.check(c.n(a).shape == shape, f"{f.__name__} changed the shape")
        flat = np.array([c.n(f(t1, t2, c.a(np.array([v]))))[0] for v in np.ravel(y)]).reshape(shape)
        c.close(a, flat, f"{f.__name__} not element by element", rtol=1e-13, atol=1e-15)
    c.key(c.bk, kind, shape)


class Custom:
    """User-defined transformation with rules against anything in `rules`."""

    def __init__(self, tag, rules):
        self.tag, self.rules = tag, rules

    def _do(self, name, other, x):
        if type(other) in self.rules or (isinstance(other, Custom) and other.tag in self.rules):
            return x * 0 + {"corr": 100.0, "icorr": 200.0, "dcorr": 300.0}[name] + self.tag
        return NotImplemented

    def __call__(self, x, var, /):
        return x

    def corr(self, other, x, /):
        return self._do("corr", other, x)

    def icorr(self, other, x, /):
        return self._do("icorr", other, x)

    def dcorr(self, other, x, /):
        return self._do("dcorr", other, x)


@case(PID, q=80, t=600, backends=("np", "strict"))
def dispatch(c):
    """Rules offered by either member are used, the first member's first; otherwise NotImplementedError."""
    import glass.grf as grf

    r = c.r
    builtin = [grf.Normal(), grf.Lognormal(float(r.uniform(0.1, 3))), grf.SquaredNormal(float(r.uniform(0, 1)), 2.0)]
    x = c.a(r.uniform(0.01, 0.2, 3))
    fs = dict(corr=grf.corr, icorr=grf.icorr, dcorr=grf.dcorr)
    val = dict(corr=100.0, icorr=200.0, dcorr=300.0)
    for t1, t2 in itertools.product(builtin, builtin):
        ok = type(t1) is type(t2) or {type(t1), type(t2)} == {grf.Normal, grf.Lognormal}
        for name, f in fs.items():
            if ok:
                f(t1, t2, x)
            else:
                c.raises(NotImplementedError, lambda: f(t1, t2, x), f"{name} of {type(t1).__name__} and {type(t2).__name__}")
    for b in builtin:
        cu = Custom(7.0, {type(b)})
        no = Custom(8.0, set())
        for name, f in fs.items():
            c.same(f(cu, b, x), np.full(3, val[name] + 7), f"{name}: rule of the first member not used")
            c.same(f(b, cu, x), np.full(3, val[name] + 7), f"{name}: rule of the second member not used")
            c.raises(NotImplementedError, lambda: f(no, b, x), f"{name} without any rule")
            c.raises(NotImplementedError, lambda: f(b, no, x), f"{name} without any rule")
    p, q = Custom(1.0, {2.0}), Custom(2.0, {1.0})
    for name, f in fs.items():
        c.same(f(p, q, x), np.full(3, val[name] + 1), f"{name}: the first member's rule does not come first")
        c.same(f(q, p, x), np.full(3, val[name] + 2), f"{name}: the first member's rule does not come first")

    class Sub(grf.Lognormal):
        """A subclass has no built-in rule (types must match exactly)."""

    c.event("dispatches", 9 * 3 + 3 * 12 + 6)
    c.key(c.idx)


@case(PID, q=60, t=600, backends=("np", "strict", "np", "jax"))
def small_correlations(c):
    """Tiny correlations keep their relative precision in both directions."""
    import glass.grf as grf

    r = c.r
    l1, l2 = (float(r.choice([1.0, 1.5, 2.0, 0.4, 0.05, 9.0])) for _ in range(2))
    ln1, ln2, no = grf.Lognormal(l1), grf.Lognormal(l2), grf.Normal()
    x = 10.0 ** r.uniform(-15, -6) * r.normal(size=8)
    for t1, t2, f in ((ln1, ln2, l1 * l2 * (x + x * x / 2 + x**3 / 6)), (no, ln1, l1 * x), (ln1, no, l1 * x), (no, no, x)):
        y = grf.corr(t1, t2, c.a(x))
        c.close(y, f, "correlation of small value", rtol=1e-12, atol=0, t1=repr(t1), t2=repr(t2))
        c.close(grf.icorr(t1, t2, y), x, "icorr does not undo corr for small values", rtol=1e-12, atol=0, t1=repr(t1), t2=repr(t2))
    c.key(c.bk, l1, l2, c.idx)


@case(PID, q=60, t=600, backends=("np", "strict", "np", "jax"))
def wide_range(c):
    """Where an inverse exists it inverts, and where none exists no value is made up."""
    import glass.grf as grf

    r = c.r
    lam = lambda: float(r.choice([1.0, 1.5, 2.0, 0.4, 0.05, 9.0]))
    l1, l2 = lam(), lam()
    ln1, ln2 = grf.Lognormal(l1), grf.Lognormal(l2)
    # strongly correlated and anticorrelated lognormal fields
    x = np.concatenate([r.uniform(-24, 0, 4), r.uniform(0, 40, 4)])
    y = grf.corr(ln1, ln2, c.a(x))
    c.close(y, l1 * l2 * np.expm1(x), "correlation of lognormal fields", rtol=1e-12, atol=0, x=x)
    tol = 1e-11 + 4e-16 * np.exp(np.maximum(-x, 0))  # rounding of 1 - exp(x)
    c.check(np.all(np.abs(c.n(grf.icorr(ln1, ln2, y)) - x) <= tol * (1 + np.abs(x))), "icorr does not undo corr over a wide range", x=x)
    c.close(grf.dcorr(ln1, ln2, c.a(x)), l1 * l2 * np.exp(x), "derivative over a wide range", rtol=1e-12, atol=0, x=x)
    # correlations that no Gaussian correlation gives
    v1, v2 = r.uniform(0.05, 0.95, 2)
    sq1, sq2 = grf.SquaredNormal(float(np.sqrt(1 - v1)), l1), grf.SquaredNormal(float(np.sqrt(1 - v2)), l2)
    for t1, t2, lowest in ((ln1, ln2, -l1 * l2), (sq1, sq2, -2 * l1 * l2 * (sq1.a * sq2.a) ** 2)):
        y = lowest * r.uniform(0.5, 3.0, 8)
        with np.errstate(all="ignore"):
            z = c.n(grf.icorr(t1, t2, c.a(y)))
        ok = np.isfinite(z)
        c.check(np.all(ok[y > lowest]), "no inverse for a correlation that has one", y=y, lowest=lowest)
        c.check(not np.any(ok[y < lowest * (1 + 1e-9)]), "a value made up for a correlation that no Gaussian correlation gives", y=y, lowest=lowest)
        again = c.n(grf.corr(t1, t2, c.a(np.where(ok, z, 0.0))))
        c.close(again[ok], y[ok], "corr does not undo icorr", rtol=1e-9, atol=1e-12 * abs(lowest))
    c.key(c.bk, l1, l2, c.idx)
