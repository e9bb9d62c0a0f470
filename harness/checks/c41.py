"""C41: the convergence of intrinsic alignments follows the NLA formula."""

import numpy as np

from ..core import case

PID = "C41"


class Growing:
    """Just what the model may ask of a cosmology, with a growth factor that is far from a power law."""

    def __init__(self, c, h, om, rho, freq):
        self.h, self.Omega_m0, self.critical_density0, self.freq = h, om, rho, freq
        self.asked = []
        self.c = c

    def growth_factor(self, z):
        self.asked.append(float(z))
        return self.value(float(z))

    def value(self, z):
        return float((1.3 + np.cos(self.freq * z)) / (1 + z))


@case(PID, q=300, t=6000, backends=("np", "strict", "np", "jax"))
def formula(c):
    from glass.galaxies import _kappa_ia_nla

    r = c.r
    shape = [(), (1,), (48,), (2, 12), (3, 1, 4)][int(r.integers(0, 5))]
    if c.idx % 40 == 7:
        shape = (int(10.0 ** r.uniform(4, 5.7)),)
    delta = np.asarray(r.uniform(-1, 5, shape))
    cosmo = Growing(c, float(r.uniform(0.4, 1) if r.random() < 0.7 else 10 ** r.uniform(-1, 1)), float(r.uniform(0.1, 0.6) if r.random() < 0.7 else r.uniform(0.01, 1.2)), float(10 ** r.uniform(10, 12)), float(r.uniform(1, 5)))
    zeff, a = float(r.choice([0.0, r.uniform(0, 4), r.uniform(0, 4), 10.0 ** r.uniform(-9, 1.5)])), float(r.choice([0.0, -1.0, r.normal(), r.normal() * 10.0 ** r.uniform(-30, 12)]))
    opts, vals = {}, dict(z0=0.0, eta=0.0, lbar=0.0, l0=1e-9, beta=0.0)
    if r.random() < 0.6:
        opts["z0"] = float(r.uniform(0, 2))
    if r.random() < 0.6:
        opts["eta"] = float(r.choice([0.0, 1.0, -2.0, r.normal()]))
    if r.random() < 0.6:
        unit = float(r.choice([1.0, 1e-9, 10.0 ** r.uniform(-12, 12)]))
        opts.update(lbar=unit * float(r.uniform(0.1, 5)), l0=unit * float(r.uniform(0.1, 5)))
        if unit == 1e-9 and r.random() < 0.5:  # the default pivot
            del opts["l0"]
        if r.random() < 0.8:
            opts["beta"] = float(r.choice([0.0, 1.0, r.normal()]))
        if r.random() < 0.2:  # no luminosity: nothing, or no dependence at all
            opts["lbar"] = 0.0
            opts["beta"] = abs(opts.get("beta", 0.0))
    if r.random() < 0.2:  # scales of any size
        delta = delta * 10.0 ** r.uniform(-30, 12)
    vals.update(opts)
    give = c.a(delta)
    got = _kappa_ia_nla(give, zeff, a, cosmo, **opts)
    c.is_backend(got, "convergence")
    f = -a * 5e-14 / cosmo.h**2 * cosmo.critical_density0 * cosmo.Omega_m0 / cosmo.value(zeff)
    f *= ((1 + zeff) / (1 + vals["z0"])) ** vals["eta"] * (vals["lbar"] / vals["l0"]) ** vals["beta"]
    c.close(got, f * delta, "convergence of intrinsic alignments", rtol=1e-12, atol=0, zeff=zeff, a=a, opts=opts)
    c.same(give, delta, "density contrast changed")
    c.check(all(z == zeff for z in cosmo.asked) and cosmo.asked, "growth factor at another redshift", asked=cosmo.asked)
    c.note(shape=shape, zeff=zeff, opts=opts)
    c.key(c.bk, shape, zeff == 0, tuple(sorted(opts)))


@case(PID, q=60, t=1000, backends=("np", "strict"))
def local(c):
    """A pixel's alignment is its own density's, in proportion."""
    from glass.galaxies import _kappa_ia_nla

    r = c.r
    cosmo = Growing(c, 0.7, 0.3, 2.7e11, 2.0)
    delta = r.normal(size=int(r.integers(1, 50)))
    args = (float(r.uniform(0, 3)), float(r.uniform(-5, 5)), cosmo)
    opts = dict(z0=float(r.uniform(0, 1)), eta=float(r.normal()), lbar=2.0, l0=1.5, beta=float(r.normal()))
    full = c.n(_kappa_ia_nla(c.a(delta), *args, **opts))
    k = r.permutation(delta.size)[: int(r.integers(1, delta.size + 1))]
    s = float(r.uniform(-3, 3))
    part = c.n(_kappa_ia_nla(c.a(s * delta[k]), *args, **opts))
    c.close(part, s * full[k], "alignment depends on other pixels or is not linear", rtol=1e-12, atol=1e-300)
    c.key(c.bk, delta.size, k.size)
