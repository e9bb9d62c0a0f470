"""Random generators used as monitors: recording, probing and adversarial stubs.

All follow the numpy Generator call signatures that glass documents
(``random, normal, poisson, standard_normal, uniform, multinomial``).
"""

from __future__ import annotations

import numpy as np

from .core import NoProgress, to_np


def _size(size):
    if size is None:
        return None
    if isinstance(size, (tuple, list)):
        return tuple(int(s) for s in size)
    return int(to_np(size))


class RecRNG:
    """A numpy generator that records every call and its outcome."""

    def __init__(self, seed=0, max_calls=200_000):
        self.g = np.random.default_rng(seed)
        self.log = []
        self.max_calls = max_calls

    def _rec(self, method, out, **kw):
        self.log.append((method, kw, np.array(out, copy=True)))
        if len(self.log) > self.max_calls:
            raise NoProgress(f"no bounded progress: more than {self.max_calls} calls of the random generator")
        return out

    def calls(self, method):
        return [(kw, out) for m, kw, out in self.log if m == method]

    def random(self, size=None, dtype=np.float64):
        return self._rec("random", self._random(_size(size)), size=_size(size))

    def normal(self, loc=0.0, scale=1.0, size=None):
        loc, scale = to_np(loc), to_np(scale)
        return self._rec("normal", self._normal(loc, scale, _size(size)), loc=loc.copy(), scale=scale.copy(), size=_size(size))

    def poisson(self, lam=1.0, size=None):
        lam = to_np(lam)
        return self._rec("poisson", self._poisson(lam, _size(size)), lam=lam.copy(), size=_size(size))

    def standard_normal(self, size=None, dtype=np.float64):
        return self._rec("standard_normal", self._standard_normal(_size(size)), size=_size(size))

    def uniform(self, low=0.0, high=1.0, size=None):
        low, high = to_np(low), to_np(high)
        return self._rec("uniform", self._uniform(low, high, _size(size)), low=low.copy(), high=high.copy(), size=_size(size))

    def multinomial(self, n, pvals, size=None):
        n, pvals = to_np(n), to_np(pvals)
        return self._rec("multinomial", self._multinomial(n, pvals, _size(size)), n=n.copy(), pvals=pvals.copy(), size=_size(size))

    # the actual draws, overridden by stubs
    def _random(self, size):
        return self.g.random(size)

    def _normal(self, loc, scale, size):
        return self.g.normal(loc, scale, size)

    def _poisson(self, lam, size):
        return self.g.poisson(lam, size)

    def _standard_normal(self, size):
        return self.g.standard_normal(size)

    def _uniform(self, low, high, size):
        return self.g.uniform(low, high, size)

    def _multinomial(self, n, pvals, size):
        return self.g.multinomial(n, pvals, size)


class ProbeRNG(RecRNG):
    """standard_normal() returns zeros except for one global variate."""

    def __init__(self, hot=None, seed=0):
        super().__init__(seed)
        self.hot = hot
        self.used = 0

    def _standard_normal(self, size):
        n = int(np.prod(size)) if size is not None else 1
        out = np.zeros(n)
        if self.hot is not None and self.used <= self.hot < self.used + n:
            out[self.hot - self.used] = 1.0
        self.used += n
        return out.reshape(size) if size is not None else float(out[0])

    def _normal(self, loc, scale, size):
        shape = _size(size) if size is not None else np.broadcast_shapes(loc.shape, scale.shape)
        return loc + scale * self._standard_normal(shape if shape is not None else None)


class ReplayRNG(RecRNG):
    """standard_normal() serves a fixed flat stream of variates."""

    def __init__(self, stream):
        super().__init__(0)
        self.stream = np.asarray(stream, dtype=float)
        self.used = 0

    def _standard_normal(self, size):
        n = int(np.prod(size)) if size is not None else 1
        out = self.stream[self.used : self.used + n]
        self.used += n
        if out.size < n:
            raise RuntimeError("stream exhausted")
        return out.reshape(size).copy() if size is not None else float(out[0])


class CountsRNG(RecRNG):
    """poisson() returns counts chosen by the workload, not by the mean."""

    def __init__(self, choose, seed=0):
        super().__init__(seed)
        self.choose = choose
        self.ncall = 0

    def _poisson(self, lam, size):
        out = np.asarray(self.choose(self.ncall, lam if size is None else np.broadcast_to(lam, size)))
        self.ncall += 1
        return out


class Scripted(RecRNG):
    """Serves every element its own scripted deviates, identified by mean and width."""

    def __init__(self, scripts):
        super().__init__(0)
        self.scripts = scripts  # (loc, scale) -> list of values
        self.served = {}
        self.unknown = []

    def _normal(self, loc, scale, size):
        shape = np.broadcast_shapes(loc.shape, scale.shape) if size is None else (size if isinstance(size, tuple) else (size,))
        L, S = np.broadcast_to(loc, shape), np.broadcast_to(scale, shape)
        out = np.zeros(shape)
        for i in np.ndindex(shape):
            k = (round(float(L[i]), 9), round(float(S[i]), 9))
            if k not in self.scripts:
                self.unknown.append(k)
                out[i] = L[i]
                continue
            log = self.served.setdefault(k, [])
            s = self.scripts[k]
            v = s[min(len(log), len(s) - 1)]
            # beyond the script: keep serving fresh admissible values
            v = v + 1e-6 * max(0, len(log) - len(s) + 1)
            log.append(v)
            out[i] = v
        return out if shape else np.float64(out)
