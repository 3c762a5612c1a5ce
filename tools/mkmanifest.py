#!/usr/bin/env python3
"""regenerate MANIFEST.json from checks.json and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = json.load(open(V + "/checks.json"))
NA = json.load(open(V + "/tools/not_applicable.json"))
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": [],
     "notes": "Contract-based deductive verification of /repo's real functions with Verus (see DESIGN.md). No hooks in /repo are needed: contracts live in /verif/units and are spliced onto the functions' current source on every run."}
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                            "evidence_file": f"evidence/{i}.json",
                            "technique": "contract-based deductive verification: contracts spliced onto the extracted real functions, discharged by Verus/Z3",
                            "level": c.get("level", "proof"), "level_note": c["note"], **({"theorems": c["lemmas"]} if c.get("lemmas") else {})})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no contract for it is discharged yet (work in progress)")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
