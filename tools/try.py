#!/usr/bin/env python3
"""Development aid: run checks against a scratch copy of the sources.

try.py ID[,ID..] FILE OLD NEW     textual change of src/ics/FILE
try.py ID[,ID..] PATCH            a patch.diff
"""
import os
import shutil
import subprocess
import sys
import tempfile

ids = sys.argv[1].split(",")
d = tempfile.mkdtemp(prefix="vptry-")
try:
    shutil.copytree("/repo/src", d + "/src")
    if len(sys.argv) == 3:
        subprocess.run(["git", "apply", "--include=src/*", os.path.abspath(sys.argv[2])],
                       cwd=d, check=True)
    else:
        f, old, new = sys.argv[2:]
        p = os.path.join(d, "src/ics", f)
        s = open(p).read()
        old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
        if old not in s:
            sys.exit("text not found")
        open(p, "w").write(s.replace(old, new, 1))
    for i in ids:
        r = subprocess.run(["/opt/venv/bin/python", "run.py", i],
                           cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                           env=dict(os.environ, VP_REPO=d), capture_output=True, text=True)
        out = (r.stdout + r.stderr).strip().splitlines()
        print(i, "rc", r.returncode, "|", "\n   ".join(x[:330] for x in out[:3] + out[-1:]))
finally:
    shutil.rmtree(d)
