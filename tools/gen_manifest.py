#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run by hand; the output is committed)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import plan  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for q in props:
    i = q["id"]
    e = plan.PROPERTIES[i]
    worlds = plan.models(i, False) or [g["model"] for g in e["generators"] if g.get("exhaustive")]
    traced = ", ".join(d["spec"] for d in e["drivers"])
    note = ("TLC exhausts %s for the laws that state the property; traces recorded from the real library on chosen and seeded "
            "random inputs are checked event by event against the same specification with the real constants (%s)"
            % ("; ".join("%s (%s)" % (m["module"], m["world"]) for m in worlds), traced))
    if e["generators"]:
        note += "; behaviours TLC generates from the specification (%s) are done with the real library and compared" % \
            ", ".join(g.get("module", "CursorWorld") for g in e["generators"])
    if i in plan.PROOFS:
        note += "; thorough: TLAPS proves the laws of the specification with the real constants and without bounds (%s)" % ", ".join(plan.PROOFS[i][1])
    note += ". Exhaustive for the specification within the stated worlds, a large sample (with full sweeps where DESIGN.md says so) for the code. Trusts TLC, the harness's recording and rustc."
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "technique": "TLA+ specification checked with TLC; conformance by trace checking" + (" and replay of generated behaviours" if e["generators"] else "")
        + ("; TLAPS proofs of the specification (thorough)" if i in plan.PROOFS else ""),
        "level": "model_checking",
        "level_note": note,
    })
doc = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "hooks": {"guard": "momentous_verif", "enable": "RUSTFLAGS='--cfg momentous_verif'",
              "source_commits": ["f84c6a7326b2e89cdd0d23244ea265151a8e6440"]},
    "checks": checks,
    "not_applicable": [],
    "notes": "DESIGN.md describes the specification, its binding to the code, and what the checks catch.",
}
json.dump(doc, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
