"""Make and try planted bugs (development tool; no check uses it).

seedtool.py make DEFS.py [ID...]   write seeded/<id>/ from definitions, try demo and own check in a scratch copy
seedtool.py try ID...              demo on both trees and own check (all seeds given by SEEDS=1,2)
seedtool.py test ID...             the repository's tests on the scratch copy, compared with the baseline
"""

import json
import os
import runpy
import shutil
import subprocess
import sys

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/seedscratch"
PY = "/opt/venv/bin/python"
ENV = dict(
    os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", ARRAY_BACKEND="all", JAX_PLATFORMS="cpu", MPLBACKEND="Agg",
    SETUPTOOLS_SCM_PRETEND_VERSION="2026.2",
)
DEMO = """#!/bin/bash
# exit 0: the property's instance below holds; nonzero: it does not
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu PYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def scratch(bug):
    d = f"{SCR}/{bug}"
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(SCR, exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    return d


def patched(bug):
    d = scratch(bug)
    subprocess.run(["git", "-C", d, "apply", f"{TOP}/seeded/{bug}/patch.diff"], check=True)
    return d


def demo(bug, where):
    env = dict(ENV, PYTHONPATH=where)
    p = subprocess.run(["bash", f"{TOP}/seeded/{bug}/demo.sh"], cwd=where, env=env, capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr).strip().splitlines()[-1:]


def attempt(bug):
    prop = json.load(open(f"{TOP}/seeded/{bug}/meta.json"))["property"]
    d = patched(bug)
    try:
        imp = subprocess.run([PY, "-c", "import glass, glass.jax; print(glass.__file__)"], cwd=d, env=dict(ENV, PYTHONPATH=d), capture_output=True, text=True)
        good, bad = demo(bug, "/repo"), demo(bug, d)
        res = []
        for seed in os.environ.get("SEEDS", "1").split(","):
            p = subprocess.run(
                [PY, f"{TOP}/harness/run.py", prop, "--seed", seed], capture_output=True, text=True,
                env=dict(os.environ, GLASS_REPO=d, VERIF_EVIDENCE=f"{SCR}/ev.{bug}"),
            )
            res.append(p.returncode)
            last = (p.stdout + p.stderr).strip().splitlines()
        ok = good[0] == 0 and bad[0] != 0 and d in imp.stdout
        print(f"{bug} [{prop}] demo {good[0]}/{bad[0]} {'ok' if ok else 'BAD DEMO ' + str(good) + imp.stderr[-300:]}  check {res} {'CAUGHT' if all(r == 1 for r in res) else 'MISSED'}: {last[0][:150] if last else ''}", flush=True)
    finally:
        shutil.rmtree(d)
        shutil.rmtree(f"{SCR}/ev.{bug}", ignore_errors=True)


def tests(bug):
    d = patched(bug)
    r = f"{SCR}/res.{bug}"
    os.makedirs(r, exist_ok=True)
    try:
        ps = []
        for name, args in dict(core=["tests/core", "--benchmark-disable"], regression=["tests/regression", "--benchmark-disable"], doctest=["--doctest-plus", "glass"]).items():
            ps.append(subprocess.Popen(
                ["timeout", "1500", PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=600", "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={r}/{name}.xml", *args],
                cwd=d, env=dict(ENV, PYTHONPATH=d), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
            ))
        for p in ps:
            p.wait()
        subprocess.run(["python3", "/opt/vp/results.py", f"{r}/out.json", f"junit:{r}/*.xml"], stdout=subprocess.DEVNULL)
        base = json.load(open("/opt/vp/BASELINE.json"))
        got = json.load(open(f"{r}/out.json"))
        stable = base.get("passed") or base.get("stable") or base
        passed = set(got.get("passed", []))
        lost = [t for t in stable if t not in passed]
        print(f"{bug} tests: {len(passed)} passed, lost {lost[:5]} {'TESTS-OK' if not lost else 'TESTS-FAIL'}", flush=True)
    finally:
        shutil.rmtree(d)
        shutil.rmtree(r, ignore_errors=True)


def make(defs, only):
    bugs = runpy.run_path(defs)["BUGS"]
    for b in bugs:
        if only and b["id"] not in only:
            continue
        d = scratch(b["id"])
        try:
            for f, old, new in b["edits"]:
                s = open(f"{d}/{f}").read()
                if s.count(old) != 1:
                    print(b["id"], f, "matches", s.count(old), old[:60])
                    break
                open(f"{d}/{f}", "w").write(s.replace(old, new))
            else:
                out = f"{TOP}/seeded/{b['id']}"
                os.makedirs(out, exist_ok=True)
                diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
                open(f"{out}/patch.diff", "w").write(diff)
                open(f"{out}/demo.sh", "w").write(DEMO)
                open(f"{out}/demo.py", "w").write(b["demo"].lstrip())
                json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{out}/meta.json", "w"), indent=1)
        finally:
            shutil.rmtree(d)
        if os.path.exists(f"{TOP}/seeded/{b['id']}/patch.diff"):
            attempt(b["id"])


if __name__ == "__main__":
    cmd, *rest = sys.argv[1:]
    if cmd == "make":
        make(rest[0], rest[1:])
    elif cmd == "try":
        for b in rest or sorted(os.listdir(f"{TOP}/seeded")):
            attempt(b)
    elif cmd == "test":
        for b in rest:
            tests(b)
