#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and vlib/config.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from vlib import config
NA = {}
TODO = "No check yet: the proof is being built."
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    c = config.PROPS.get(p)
    if not c:
        na.append(dict(property=p, reason=NA.get(p, TODO)))
        continue
    eng = [n for k, n in (("kani", "Kani/CBMC"), ("verus", "Verus/Z3")) if k in c]
    checks.append(dict(
        property=p, quick_cmd=f"bin/check {p} quick", thorough_cmd=f"bin/check {p} thorough",
        evidence_file=f"evidence/{p}.json",
        technique="contract-based deductive verification of the real source (%s)" % " and ".join(eng),
        level="proof", level_note=c["note"]))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the verified text is /repo's source, copied or extracted on every run (see DESIGN.md).")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
