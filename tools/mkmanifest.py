#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from bin/props.py and properties.jsonl."""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    P = props.PROPS.get(i)
    if not P: continue
    t = []
    if P.get("verus"): t.append("Verus contracts on the mechanically extracted functions (Z3)")
    if P.get("kani"): t.append("Kani function contracts / contract harnesses on the compiled functions (CBMC)")
    c = dict(property=i, quick_cmd=f"bin/check {i} --tier quick", thorough_cmd=f"bin/check {i} --tier thorough",
        evidence_file=f"evidence/{i}.json", technique="contract-based deductive verification: " + " + ".join(t), level=P["level"])
    c["level_note"] = P.get("note") or "Every obligation is discharged for all inputs of the machine types; harnesses labelled bounded in the evidence are bounded checks and not counted as proved."
    if P.get("theorems"): c["theorems"] = P["theorems"]
    checks.append(c)
na = [dict(property=i, reason=props.NOT_APPLICABLE.get(i, "no check built for it yet")) for i in ids if i not in props.PROPS]
M = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
    notes="Contracts: kani/src/*.rs (adapters on the real functions), verus/*.unit (contracts put on the extracted text of the real functions). See DESIGN.md.")
M["hooks"] = dict(guard="none", enable="none needed: contracts sit in /verif, on adapters that call the real functions or on their mechanically extracted text", source_commits=[])
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
