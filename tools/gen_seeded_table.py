#!/usr/bin/env python3
"""Lists the planted bugs in DESIGN.md (run by hand)."""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | needs | breaks | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    cell = lambda s: s.replace("|", "\\|").replace("\n", " ")  # noqa: E731
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), cell(m["needs"]), cell(m["what_it_breaks"]), m.get("caught_by", m["property"])))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda _: "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->", s, flags=re.S)
open(p, "w").write(s)
