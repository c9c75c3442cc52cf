#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and the table below."""
import json
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import CHECKS  # noqa: E402
from tools.levels import TECH, NOTE  # noqa: E402

props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
out = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [],
    "not_applicable": [],
    "notes": "TLA+ with TLC; no hooks in /repo (every check uses the public interface only). See DESIGN.md.",
}
for p in props:
    if p in CHECKS:
        out["checks"].append({
            "property": p,
            "quick_cmd": "python3 check.py %s" % p,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": TECH.get(p, "TLA+ specification; TLC trace validation of recorded behaviour"),
            "level": "model_checking",
            "level_note": NOTE[p],
        })
    else:
        out["not_applicable"].append({"property": p, "reason": "no check has been built yet"})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(out["checks"]), "checks")
