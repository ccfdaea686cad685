#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the registry and properties.jsonl."""
import json, sys
sys.path.insert(0, "/verif/vlib")
from registry import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = []
for p in props:
    if p not in CHECKS: continue
    c = CHECKS[p]
    specs = sorted({u["trace"] for u in c["units"]})
    checks.append(dict(property=p, quick_cmd=f"./check {p}", thorough_cmd=f"./check {p} thorough", evidence_file=f"evidence/{p}.json",
        technique="TLA+ specification (" + ", ".join(m if isinstance(m, str) else m["cfg"] for m in c["models"]) + " checked with TLC); traces recorded from the real code validated by TLC against " + ", ".join(specs)
            + ("; TLC-generated histories replayed into the code" if any("gen" in u for u in c["units"]) else ""),
        level=c["level"], level_note=c.get("note") or "Design model exhaustive within small constants; the code is bound by validating every recorded step of seeded executions, so assurance on the code is that of the explored executions."))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, "no check built yet")) for p in props if p not in CHECKS]
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    notes="No hooks are needed in /repo: every specified state is observable through the public interfaces. Checks are self-contained and build the drivers from /repo's working tree.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1); open("/verif/MANIFEST.json","a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
