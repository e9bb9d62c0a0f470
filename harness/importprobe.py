"""Runs in a fresh interpreter for C40: prints one JSON line with what was observed."""

import json
import os
import sys

sys.dont_write_bytecode = True
spec = json.loads(sys.argv[1])
out = {}
repo = spec["repo"]
sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") not in (repo, os.path.dirname(os.path.abspath(__file__)))]


class Hide:
    """Stands in for a finder and does not see the blocked packages."""

    def __init__(self, finder):
        self.finder = finder

    def find_spec(self, name, path=None, target=None):
        if name.partition(".")[0] in spec.get("block", ()):
            return None
        return self.finder.find_spec(name, path, target)

    def __getattr__(self, name):
        return getattr(self.finder, name)


if spec.get("block"):
    sys.meta_path[:] = [Hide(f) for f in sys.meta_path]
sys.path[:0] = spec.get("before", [])
sys.path.insert(spec.get("at", len(spec.get("before", []))), repo)
sys.path.extend(spec.get("after", []))


def state():
    import decimal
    import gc
    import locale
    import logging
    import random
    import signal
    import threading
    import warnings

    import numpy as np

    s = np.random.get_state()
    got = dict(
        nprandom=[s[0], s[1].tolist(), *s[2:]],
        random=repr(random.getstate()),
        err=np.geterr(),
        printoptions=repr(np.get_printoptions()),
        filters=repr(warnings.filters),
        environ=dict(os.environ),
        cwd=os.getcwd(),
        path=list(sys.path),
        signals=repr([signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM)]),
        locale=repr(locale.setlocale(locale.LC_ALL)),
        log=repr((logging.root.level, logging.root.handlers, logging.root.disabled)),
        threads=threading.active_count(),
        recursion=sys.getrecursionlimit(),
        gc=gc.isenabled(),
        hooks=repr((sys.excepthook, sys.displayhook, warnings.showwarning)),
        decimal=repr(decimal.getcontext()),
    )
    if "jax" in sys.modules:
        import jax

        got["jax"] = {k: repr(v) for k, v in jax.config.values.items()}
    if "array_api_strict" in sys.modules:
        import array_api_strict

        got["strict"] = repr(array_api_strict.get_array_api_strict_flags())
    return got


for name in spec.get("preload", ()):
    __import__(name)

before = state() if spec.get("state") else None
had = set(sys.modules)
import glass  # noqa: E402

out["file"] = os.path.abspath(glass.__file__)
out["pulled"] = sorted({m.partition(".")[0] for m in set(sys.modules) - had})
for name in spec.get("imports", ()):
    try:
        mod = __import__(name, fromlist=["x"])
        out.setdefault("got", {})[name] = [os.path.abspath(getattr(mod, "__file__", None) or "-"), getattr(mod, "MARK", None), mod.__name__]
    except ImportError as e:
        out.setdefault("got", {})[name] = [type(e).__name__]
if before is not None:
    after = state()
    out["changed"] = {k: [str(before[k])[:300], str(after[k])[:300]] for k in before if before[k] != after[k]}
if spec.get("mini"):
    import hashlib

    import numpy as np

    h = hashlib.sha256()

    def put(*arrays):
        for a in arrays:
            a = np.ascontiguousarray(a)
            h.update(str((a.dtype, a.shape)).encode())
            h.update(a.tobytes())

    rng = np.random.default_rng(5)
    ws = glass.linear_windows(np.array([0.0, 0.5, 1.0, 1.5]))
    gls = [np.ones(12) * (1.0 if i == j else 0.3) for i in range(len(ws)) for j in range(i, -1, -1)]
    fields = [glass.grf.Lognormal() for _ in ws]
    for m in glass.generate(fields, gls, 4, rng=rng):
        put(m)
    pops = 0
    for lon, lat, cnt in glass.positions_from_delta(np.array(0.5), m, rng=rng):
        put(lon, lat, cnt)
        pops += 1
    z = glass.redshifts(100, ws[0], rng=rng)
    eps = glass.ellipticity_gaussian(np.array(100), np.array(0.2), rng=rng)
    put(z, eps, glass.galaxy_shear(lon[:100], lat[:100], eps[: lon[:100].size], m, m, m))
    put(*glass.tomo_nz_gausserr(np.linspace(0, 1, 20), glass.smail_nz(np.linspace(0, 1, 20), 0.5, 2.0, 1.5), 0.05, [(0, 0.5), (0.5, 1)]))
    put(glass.partition(ws[0].za, ws[0].wa, ws))
    d = spec["mini"]
    glass.save_cls(os.path.join(d, "c.npz"), gls)
    put(*glass.load_cls(os.path.join(d, "c.npz")))
    out["digest"] = h.hexdigest()
    fn = os.path.join(d, "cat.fits")
    try:
        with glass.write_catalog(fn) as w:
            w.write(x=np.arange(4.0))
        out["catalog"] = "written" if os.path.exists(fn) else "missing"
    except ImportError as e:
        out["catalog"] = type(e).__name__ + ("-file" if os.path.exists(fn) else "")
if spec.get("names"):
    import types

    ns = {}
    exec("from glass import *", ns)  # noqa: S102
    ns.pop("__builtins__")
    out["star"] = sorted(ns)
    out["all"] = sorted(glass.__all__)
    out["dup"] = len(set(glass.__all__)) != len(glass.__all__)
    out["none"] = sorted(k for k, v in ns.items() if v is None)
    out["version"] = repr(type(getattr(glass, "__version__", None)).__name__)
    bad = []
    for k, v in ns.items():
        if isinstance(v, types.ModuleType):
            if v is not sys.modules.get(f"glass.{k}"):
                bad.append(k)
        elif getattr(sys.modules.get(v.__module__), k, None) is not v or not v.__module__.startswith("glass"):
            bad.append(k)
    out["bad"] = bad
    sub = {}
    for name, mod in list(sys.modules.items()):
        if name.startswith("glass.") and hasattr(mod, "__all__"):
            sub[name] = [n for n in mod.__all__ if not hasattr(mod, n)]
    out["submissing"] = sub
print("RESULT " + json.dumps(out))
