"""Goodness of fit beyond Kolmogorov-Smirnov: tails and cells."""

import numpy as np
from scipy import stats

P = 1e-9


def uniform_fit(c, u, msg, **wit):
    """Values that should be independent and uniform on [0, 1]: KS test, tail counts, cells."""
    u = np.ravel(u)
    n = u.size
    c.check(stats.kstest(u, "uniform").pvalue > P, f"{msg}: KS test fails", **wit)
    c.event("ks_tests")
    for q in (0.03, 1e-2, 1e-3, 1e-4):
        for k, side in (((u < q).sum(), "lower"), ((u > 1 - q).sum(), "upper")):
            p = min(stats.binom.cdf(k, n, q), stats.binom.sf(k - 1, n, q))
            c.check(p > P / 10, f"{msg}: {k} values in the {side} tail of probability {q}, expected {n * q:.1f}", n=n, **wit)
            c.event("tail_tests")
    m = int(min(500, n // 50))
    if m > 4:
        cnt = np.bincount(np.minimum((u * m).astype(int), m - 1), minlength=m)
        chi = ((cnt - n / m) ** 2).sum() / (n / m)
        c.check(stats.chi2.sf(chi, m - 1) > P / 10, f"{msg}: cells of equal probability are unevenly filled", **wit)
        c.event("cell_tests")
