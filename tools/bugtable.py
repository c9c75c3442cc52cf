#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# missed by the first version of the check, caught since it was strengthened
LATE = set("c30-shared-answer c31-shared-builder c13-plus-sign c24-aliased-dict c06-memo-without-mode c19-extra-wind c25-west-round c21-short-floats c24-equal-skip c22-columns-dropped c25-deposits-bare".split())
ALSO = {}
MARK = "<!-- planted bugs -->"
rows = ["| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    name = os.path.basename(os.path.dirname(f))
    rows.append("| %s%s | %s | %s | %s |" % (name, "*" if name in LATE else "", m["property"],
                                          m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read().split(MARK)[0].rstrip()
open(p, "w").write(s + "\n\n" + MARK + "\n" + "\n".join(rows) + "\n")
