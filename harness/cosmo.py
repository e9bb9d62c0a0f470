"""A small FLRW cosmology (flat and curved) serving as collaborator of the code under test."""

import numpy as np

from .core import backend, backend_name, to_np

_X, _W = np.polynomial.legendre.leggauss(96)


class Cosmo:
    """FLRW cosmology; returns arrays of the given namespace, or (xp=None) of the kind it was given."""

    def __init__(self, Om=0.3, Ok=0.0, h=0.7, xp=np, rho=2.5e11):
        self.Omega_m0, self.Ok, self.h, self.xp = Om, Ok, h, xp
        self.OL = 1 - Om - Ok
        self.hubble_distance = 2997.92458 / h
        self.critical_density0 = rho
        self.calls = {}

    def _out(self, v, *given):
        if self.xp is not None:
            return self.xp.asarray(v) if self.xp is not np else v
        for g in given:
            for x in g if isinstance(g, (list, tuple)) else (g,):
                bk = backend_name(x)
                if bk in ("strict", "jax"):
                    return backend(bk).asarray(v)
        return float(v) if np.ndim(v) == 0 else v

    def _tick(self, name):
        self.calls[name] = self.calls.get(name, 0) + 1

    # plain numpy functions
    def E(self, z):
        z = np.asarray(z, dtype=float)
        return np.sqrt(self.Omega_m0 * (1 + z) ** 3 + self.Ok * (1 + z) ** 2 + self.OL)

    def chi(self, z):
        z = np.asarray(z, dtype=float)
        u = z[..., None] * (0.5 * (_X + 1))
        return self.hubble_distance * 0.5 * z * np.sum(_W / self.E(u), axis=-1)

    def sk(self, x):
        k = np.sqrt(abs(self.Ok)) / self.hubble_distance
        if self.Ok > 0:
            return np.sinh(k * x) / k
        if self.Ok < 0:
            return np.sin(k * x) / k
        return x

    def dm(self, z, z2=None):
        return self.sk(self.chi(z)) if z2 is None else self.sk(self.chi(z2) - self.chi(z))

    # protocol
    def H_over_H0(self, z):
        self._tick("H_over_H0")
        return self._out(self.E(to_np(z)), z)

    def Omega_m(self, z):
        x = to_np(z)
        return self._out(self.Omega_m0 * (1 + x) ** 3 / self.E(x) ** 2, z)

    def rho_m_z(self, z):
        return self._out(self.critical_density0 * self.Omega_m0 * (1 + to_np(z)) ** 3, z)

    def comoving_distance(self, z, z2=None):
        self._tick("comoving_distance")
        a = self.chi(to_np(z))
        return self._out(a if z2 is None else self.chi(to_np(z2)) - a, z, z2)

    def inv_comoving_distance(self, dc):
        x = to_np(dc).astype(float)
        z = x / self.hubble_distance
        for _ in range(60):
            z = z - (self.chi(z) - x) / self.hubble_distance * self.E(z)
        return self._out(z, dc)

    def transverse_comoving_distance(self, z, z2=None):
        self._tick("transverse_comoving_distance")
        x = to_np(z)
        return self._out(self.dm(x) if z2 is None else self.dm(x, to_np(z2)), z, z2)

    def xm(self, z, z2=None):
        return self.transverse_comoving_distance(z, z2) / self.hubble_distance


def random_cosmo(r, xp=np, curved=None):
    ok = float(r.choice([0.0, 0.0, 0.1, -0.1, 0.3, -0.2])) if curved is None else curved
    return Cosmo(Om=float(r.uniform(0.1, 0.9)), Ok=ok, h=float(r.uniform(0.5, 1)), xp=xp)
