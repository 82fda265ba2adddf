#!/usr/bin/env python3
"""Writes MANIFEST.json from the notes below and the checks that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
        n = NOTES[i]
        checks.append({
            "property": i,
            "quick_cmd": f"VERIF_TIER=quick /opt/venv/bin/python run.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python run.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": n["technique"],
            "level": "model_checking",
            "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "check not built yet")})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py",
           "hooks": {"guard": "none", "enable": "no hooks: only the public API is observed",
                     "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/, checked with TLC; run.py binds them "
                    "to /repo/src by replay and trace validation. See DESIGN.md."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
