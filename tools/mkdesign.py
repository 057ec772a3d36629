#!/usr/bin/env python3
"""DESIGN.md from design_head.md, the checks, and design_tail.md"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(f"{V}/checks.json")); na = json.load(open(f"{V}/na.json"))
out = [open(f"{V}/tools/design_head.md").read()]
plan = json.load(open(f"{V}/tools/design_plan.json"))
for l in open(f"{V}/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    out.append(f"### {i}: {p['title']}\n")
    if i in checks:
        c = checks[i]
        out.append(f"*Units:* {', '.join(c.get('units', []))}. {c['note']}\n")
        if c.get("trusted"): out.append("*Further trusted:* " + "; ".join(c["trusted"]) + ".\n")
        if c.get("not_proved"): out.append("*Not proved:* " + "; ".join(c["not_proved"]) + ".\n")
        out.append(f"*Bounded executable contract:* `harness/src`, {c['budget'][0]} s quick, {c['budget'][1]} s thorough. {plan.get(i, '')}\n")
    else:
        out.append(f"Not claimed: {na.get(i, 'no contract built for it yet')}\n")
out.append(open(f"{V}/tools/design_tail.md").read())
bugs = []
for m in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    d = json.load(open(m)); n = os.path.basename(os.path.dirname(m))
    bugs.append(f"| {n} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | {plan.get('bugs', {}).get(n, '')} |")
out.append("\n".join(["| bug | property | breaks | needs | caught by |", "|---|---|---|---|---|"] + bugs) + "\n")
open(f"{V}/DESIGN.md", "w").write("\n".join(out))
