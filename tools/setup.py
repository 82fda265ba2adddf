"""Parse every specification once and create the evidence directory."""
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from lib import core  # noqa: E402

os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
bad = 0
for f in sorted(os.listdir(core.SPEC)):
    if f.endswith(".tla"):
        r = subprocess.run(["java", "-cp", core.CP, "tla2sany.SANY", f],
                           cwd=core.SPEC, capture_output=True, text=True)
        if r.returncode or "*** Errors" in r.stdout or "Could not parse" in r.stdout:
            print(f, r.stdout[-2000:])
            bad = 1
core.setup_impl()
print("specifications parse; ics imports from", core.REPO)
sys.exit(bad)
