"""Run the check of one property: run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]."""

import argparse
import importlib
import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from harness import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--case", help="run one case function only (development)")
    a = ap.parse_args()
    try:
        core.setup_process()
        importlib.import_module(f"harness.checks.{a.prop.lower()}")
        if a.case:
            core.CASES[a.prop] = [s for s in core.CASES[a.prop] if s["name"] == a.case]
        if a.replay:
            return core.replay(a.prop, a.replay)
        return core.run_check(a.prop, a.tier, a.seed)
    except core.Inconclusive as e:
        print(f"INCONCLUSIVE property={a.prop}: {e}")
        return 2
    finally:
        if core.SCRATCH and os.path.isdir(core.SCRATCH) and "glassverif." in core.SCRATCH:
            shutil.rmtree(core.SCRATCH, ignore_errors=True)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
