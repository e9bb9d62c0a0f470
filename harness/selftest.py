"""setup_cmd: check that the framework can run here (nothing is compiled)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core

core.setup_process()
for name in ("np", "strict", "jax"):
    xp = core.backend(name)
    assert float(core.to_np(xp.asarray([1.5, 2.5])).sum()) == 4.0
core.MON.start()
import shutil

if core.SCRATCH and "glassverif." in core.SCRATCH:
    shutil.rmtree(core.SCRATCH, ignore_errors=True)
print("ok")
