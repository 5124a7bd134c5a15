#!/usr/bin/env python3
"""writes MANIFEST.json from rules/registry.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, "..", "rules"))
import registry
props = [json.loads(l) for l in open(os.path.join(H, "..", "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    c = registry.CHECKS.get(i)
    if c is None:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "no check yet")})
        continue
    note = c["note"] or registry.NOTE
    if c["assumptions"]:
        note += " Assumes: " + "; ".join(c["assumptions"]) + "."
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "technique": c["technique"],
        "level": c["level"],
        "level_note": note,
    })
m = {"version": 1, "setup_cmd": "bash mirdump/build.sh .build", "checks": checks, "not_applicable": na,
     "notes": "Every check dumps the typed MIR of /repo's library from its current tree (cargo +nightly check with a rustc wrapper, in a scratch target directory) and analyses that; nothing of dynparser is run. Obligations the analysis cannot decide are printed as UNDECIDED and listed in the evidence; there are none on the unchanged tree unless DESIGN.md says so."}
json.dump(m, open(os.path.join(H, "..", "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not applicable")
