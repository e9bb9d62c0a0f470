"""Synthetic healpy data files, served through HEALPY_DATAPATH (the documented data-path variable)."""

import os

import numpy as np

from . import core


def pixel_windows(nside, seed=0):
    """Two smooth synthetic windows (temperature, polarisation) of 4 nside + 1 values."""
    ell = np.arange(4 * nside + 1)
    s = 0.3 / nside**2 * (1 + 0.1 * (seed % 5))
    t = np.exp(-ell * (ell + 1) * s / 2) * (1 - 0.02 * np.sin(ell))
    p = np.exp(-ell * (ell + 1) * s / 1.7) * (1 + 0.03 * np.cos(2 * ell))
    p[:2] = 0.0
    return t, p


def make(nsides, seed=0, weights=True):
    """Write data files into the scratch directory, point healpy at them, return the windows."""
    import fitsio

    top = os.path.join(core.SCRATCH, f"healpy-{os.getpid()}-{seed}")
    os.makedirs(f"{top}/pixel_window_functions", exist_ok=True)
    os.makedirs(f"{top}/full_weights", exist_ok=True)
    out = {}
    for nside in nsides:
        out[nside] = pixel_windows(nside, seed)
        fn = f"{top}/pixel_window_functions/pixel_window_n{nside:04d}.fits"
        if not os.path.exists(fn):
            t, p = out[nside]
            data = np.zeros(t.size, dtype=[("TEMPERATURE", "f8"), ("POLARIZATION", "f8")])
            data["TEMPERATURE"], data["POLARIZATION"] = t, p
            fitsio.write(fn, data, clobber=True)
        if weights:
            fn = f"{top}/full_weights/healpix_full_weights_nside_{nside:04d}.fits"
            if not os.path.exists(fn):
                # compressed weights relative to unity: zeros (seed 0) are plain 4 pi / npix weights
                n = ((3 * nside + 1) * (nside + 1)) // 4
                w = np.zeros(n, dtype=[("COMPRESSED PIXEL WEIGHTS", "f8")])
                w["COMPRESSED PIXEL WEIGHTS"] = 0.1 * seed * np.cos(np.arange(n) + seed)
                fitsio.write(fn, w, clobber=True, header={"NSIDE": nside, "MAX_LPOL": 4 * nside, "ORDERING": "RING"})
    os.environ["HEALPY_DATAPATH"] = top
    return out
