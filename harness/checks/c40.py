"""C40: the package imports cleanly, stays extensible and needs no optional package."""

import json
import os
import shutil
import subprocess
import sys
import tempfile

from .. import core
from ..core import case

PID = "C40"
PROBE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "importprobe.py")
MODULES = ("algorithm arraytools cosmology fields galaxies grf harmonics healpix lensing observations "
           "points rng shapes shells user ext").split()
THIRD = ["numpy", "healpy", "healpix", "transformcl", "array_api_compat", "array_api_extra", "cosmology.api", "numpy.random", "array_api_compat.numpy"]


def probe(c, d, **spec):
    spec["repo"] = os.path.abspath(core.REPO)
    # nothing preset that an import might want to set
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "TMPDIR", "LD_LIBRARY_PATH")}
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    try:
        p = subprocess.run([sys.executable, "-W", "default", PROBE, json.dumps(spec)], cwd=d, env=env, capture_output=True, text=True, timeout=240)
    except subprocess.TimeoutExpired as e:
        raise core.Inconclusive(f"import probe took more than {e.timeout} s") from e
    c.event("fresh_interpreters")
    lines = [ln for ln in p.stdout.splitlines() if ln.startswith("RESULT ")]
    c.check(p.returncode == 0 and len(lines) == 1, "importing or using the package fails in a fresh interpreter", spec=spec, stderr=p.stderr[-1500:])
    out = json.loads(lines[0][7:])
    c.check(out["file"] == os.path.join(spec["repo"], "glass", "__init__.py"), "another package than the library was imported", got=out["file"], spec=spec)
    noise = [ln for ln in (p.stdout.splitlines() + p.stderr.splitlines()) if not ln.startswith("RESULT ") and "glass" in ln]
    return out, noise


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


@case(PID, q=24, t=400)
def extensions(c):
    """Extension modules are found in every glass/ext directory of the search path, first one first."""
    r = c.r
    top = tempfile.mkdtemp(prefix="c40-", dir=core.SCRATCH)
    try:
        ndir = int(r.integers(1, 5))
        names = ["alpha", "beta", "gamma", "fields", "camb", "ext"]
        dirs, expect = [], {}
        kinds = []
        for k in range(ndir):
            d = os.path.join(top, f"site {k}" if k % 2 else f"site{k}")
            os.makedirs(d)
            dirs.append(d)
            kind = int(r.integers(0, 7)) if k else int(r.choice([0, 1, 2]))
            kinds.append(kind)
            if kind == 3:  # a glass directory without extensions
                put(os.path.join(d, "glass", "alpha.py"), "MARK = 'decoy'\n")
                continue
            if kind == 4:  # "ext" is a file
                put(os.path.join(d, "glass", "ext"), "not a directory")
                continue
            if kind == 5:  # "glass" is a file
                put(os.path.join(d, "glass"), "not a directory")
                continue
            if kind == 6:  # an unrelated directory that also has extensions
                put(os.path.join(d, "glas", "ext", "alpha.py"), "MARK = 'decoy'\n")
                put(os.path.join(d, "ext", "alpha.py"), "MARK = 'decoy'\n")
                continue
            if kind == 2:  # decoys for the library's own modules, which must not be used
                put(os.path.join(d, "glass", "shells.py"), "raise RuntimeError('decoy imported')\n")
            for name in r.choice(names, int(r.integers(1, 5)), replace=False):
                mark = f"{k}-{name}"
                body = f"import glass.shells\nMARK = {mark!r}\n"
                if r.random() < 0.4:
                    f = os.path.join(d, "glass", "ext", name, "__init__.py")
                    put(os.path.join(d, "glass", "ext", name, "helper.py"), f"MARK = {mark + 'helper'!r}\n")
                    body = f"from .helper import MARK\nimport glass\nassert glass.generate\nMARK = {mark!r}\n"
                else:
                    f = os.path.join(d, "glass", "ext", f"{name}.py")
                put(f, body)
                expect.setdefault(f"glass.ext.{name}", (f, mark))
        # extension directories may come before or after the library on the search path
        nbefore = int(r.integers(0, ndir + 1))
        order = [f"glass.ext.{n}" for n in names]
        r.shuffle(order)
        out, _ = probe(c, top, before=dirs[:nbefore], after=dirs[nbefore:], imports=order, at=nbefore if r.random() < 0.5 else 0)
        for name in order:
            got = out["got"][name]
            if name in expect:
                f, mark = expect[name]
                c.check(len(got) == 3 and os.path.realpath(got[0]) == os.path.realpath(f) and got[1] == mark and got[2] == name, "wrong extension module imported", name=name, got=got, expected=[f, mark], kinds=kinds)
                c.event("extensions_found")
            else:
                c.check(got == ["ModuleNotFoundError"], "an extension that does not exist was imported", name=name, got=got, kinds=kinds)
        c.key("ext", *kinds, nbefore, len(expect))
    finally:
        shutil.rmtree(top)


@case(PID, q=6, t=60)
def global_state(c):
    """Importing the library and all its modules changes no global state and prints nothing."""
    r = c.r
    top = tempfile.mkdtemp(prefix="c40-", dir=core.SCRATCH)
    try:
        pre = list(THIRD)
        if c.idx % 3 == 1:
            pre.append("jax")
            pre.append("jax.numpy")
        if c.idx % 3 == 2:
            pre.append("array_api_strict")
        mods = [f"glass.{m}" for m in MODULES]
        r.shuffle(mods)
        if "jax" in pre:
            mods.append("glass.jax")
        out, noise = probe(c, top, preload=pre, imports=mods, state=True)
        for m, got in out["got"].items():
            c.check(len(got) == 3, "a module of the library cannot be imported", module=m, got=got)
        c.check(not out["changed"], "importing the library changes global state", changed=out["changed"])
        c.check(not noise, "importing the library prints or warns", noise=noise[:5])
        c.check(not os.listdir(top), "importing the library writes files", files=os.listdir(top))
        if "jax" not in pre:
            c.check("jax" not in out["pulled"], "importing the library imports JAX", pulled=out["pulled"])
        c.check("fitsio" not in out["pulled"], "importing the library imports fitsio", pulled=out["pulled"])
        c.event("state_items_compared", 16)
        c.key("state", c.idx % 3)
    finally:
        shutil.rmtree(top)


@case(PID, q=7, t=14)
def optional_packages(c):
    """Without the optional packages the library still works for NumPy, with the same results."""
    top = tempfile.mkdtemp(prefix="c40-", dir=core.SCRATCH)
    try:
        sets = [["jax"], ["fitsio"], ["array_api_strict"], ["jax", "jaxlib", "fitsio", "array_api_strict"], ["scipy"], ["cosmology"], ["astropy_healpix", "camb", "matplotlib"]]
        block = sets[c.idx % len(sets)]
        if block == ["scipy"] or block == ["cosmology"]:
            block = ["fitsio", "jax"]
        a, b = os.path.join(top, "a"), os.path.join(top, "b")
        os.makedirs(a)
        os.makedirs(b)
        ref, _ = probe(c, top, mini=a)
        out, _ = probe(c, top, mini=b, block=block)
        c.check(out["digest"] == ref["digest"], "results differ when an optional package is missing", block=block)
        c.check(ref["catalog"] == "written", "catalogue not written", got=ref["catalog"])
        want = "ModuleNotFoundError" if "fitsio" in block else "written"
        c.check(out["catalog"] == want, "writing a catalogue without its package is not refused cleanly", got=out["catalog"], block=block)
        c.key("optional", *block)
    finally:
        shutil.rmtree(top)


@case(PID, q=1, t=2)
def names(c):
    """Every public name exists, and is the object of the module that defines it."""
    top = tempfile.mkdtemp(prefix="c40-", dir=core.SCRATCH)
    try:
        out, _ = probe(c, top, names=True)
        c.check(out["star"] == out["all"], "public names cannot all be imported", got=sorted(set(out["star"]) ^ set(out["all"])))
        c.check(not out["dup"] and not out["none"] and not out["bad"], "public names are not the objects of their modules", out=[out["dup"], out["none"], out["bad"]])
        c.check(all(not v for v in out["submissing"].values()), "a module promises names it does not have", missing=out["submissing"])
        c.event("public_names", len(out["all"]))
        need = {
            "DensityWeight", "MultiPlaneConvergence", "RadialWindow", "generate", "iternorm", "partition", "positions_from_delta", "save_cls", "load_cls",
            "write_catalog", "uniform_positions", "galaxy_shear", "redshifts", "from_convergence", "discretized_cls", "lognormal_gls", "generate_gaussian",
            "generate_lognormal", "grf", "healpix", "rng",
        }
        c.check(need <= set(out["all"]), "documented names are missing", missing=sorted(need - set(out["all"])))
        c.key("names", len(out["all"]))
    finally:
        shutil.rmtree(top)
