#!/usr/bin/env python3
"""Development aid: make /verif/seeded/<id>/ from a change and a demonstration.

mkseed.py SPEC.py   where SPEC.py defines SEEDS, a list of dicts with id,
property, changes [(file, old, new), ..] (files relative to src/ics), demo
(Python source), needs, what_it_breaks.  A seed is kept only if it applies,
changes lines of the original repository, passes the stable tests, and its
demonstration fails with it and passes without it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 exec timeout 100 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True,
                          text=True, **kw)


def original(path, old, new):
    """do the removed lines come from the original repository?"""
    base = sh("git rev-list --max-parents=0 HEAD", "/repo").stdout.strip()
    text = sh(["git", "show", f"{base}:src/ics/{path}"], "/repo").stdout
    o, n = old.splitlines(), new.splitlines()
    changed = [l for l in o if l not in n]
    return not changed or any(l in text for l in changed)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    baseline = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        d = tempfile.mkdtemp(prefix="seed-")
        try:
            sh(f"git -C /repo worktree prune; git clone -q /repo {d}/r", d)
            r = d + "/r"
            bad = ""
            for f, old, new in s["changes"]:
                p = f"{r}/src/ics/{f}"
                t = open(p).read()
                if t.count(old) != 1:
                    bad = f"text found {t.count(old)} times in {f}: {old!r}"
                    break
                if not original(f, old, new):
                    print(s["id"], "NOTE: changes lines of a fix in", f)
                open(p, "w").write(t.replace(old, new))
            if bad:
                print(s["id"], bad)
                continue
            out = f"{ROOT}/seeded/{s['id']}"
            tmp = d + "/out"
            os.makedirs(tmp)
            open(tmp + "/patch.diff", "w").write(sh("git diff", r).stdout)
            open(tmp + "/demo.sh", "w").write(DEMO)
            os.chmod(tmp + "/demo.sh", 0o755)
            open(tmp + "/demo.py", "w").write(s["demo"].lstrip("\n"))
            json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")},
                      open(tmp + "/meta.json", "w"), indent=1)
            with_ = sh(tmp + "/demo.sh", r)
            without = sh(tmp + "/demo.sh", "/repo")
            if with_.returncode == 0 or without.returncode != 0:
                print(s["id"], "demo: patched", with_.returncode, "clean", without.returncode,
                      without.stderr[-600:])
                continue
            # the stable tests, against the scratch copy
            env = dict(os.environ, PYTHONPATH=r + "/src")
            t = sh(["python3", f"{ROOT}/tools/runtests.py", r], r, env=env)
            failing = baseline - set(json.loads(t.stdout or "[]"))
            if failing:
                print(s["id"], "stable tests fail:", len(failing), sorted(failing)[:3], t.stderr[-500:])
                continue
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(tmp, out)
            print(s["id"], "kept:", with_.stderr.strip().splitlines()[-1:])
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
