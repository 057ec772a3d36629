#!/usr/bin/env python3
"""MANIFEST.json from checks.json + properties.jsonl + na.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(f"{V}/checks.json"))
na = json.load(open(f"{V}/na.json"))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 /verif/check.py setup", "checks": [], "not_applicable": [],
     "notes": "No hooks: every check works through /repo's public API and on functions extracted mechanically from /repo's current source. Level 'proof' covers the functions under contract named in the evidence; what surrounds them is listed there under trusted_base and not_proved."}
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        be = []
        if c.get("units"): be.append("Verus on mechanically extracted functions (" + ", ".join(c["units"]) + ")")
        if c.get("kani"): be.append("Kani on the crate (" + ", ".join(c["kani"]) + ")")
        m["checks"].append({"property": i, "quick_cmd": f"python3 /verif/check.py run {i} --tier quick", "thorough_cmd": f"python3 /verif/check.py run {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json", "technique": "contract-based deductive verification: " + "; ".join(be), "level": c.get("level", "proof"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "no contract built for it yet")})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
