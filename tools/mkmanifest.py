#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
import checks
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
HOOKS = json.load(open(os.path.join(HERE, "tools", "hooks.json")))
out = {"version": 1, "setup_cmd": "python3 vf.py setup", "hooks": HOOKS, "checks": [], "not_applicable": [],
  "notes": "TLA+ with TLC. Every check rebuilds an instrumented copy of /repo's current sources under a deterministic scheduler, records what the real code does, and has TLC accept or reject each recorded behaviour against the specification in spec/; concurrent algorithms are additionally modelled step by step and model checked. See DESIGN.md."}
for p in props:
    c = checks.CHECKS.get(p["id"])
    if not c:
        out["not_applicable"].append({"property": p["id"], "reason": checks.NOT_CLAIMED.get(p["id"], "not claimed yet: its specification and driver are still being built")}); continue
    mods = sorted({t["module"] for t in c.get("traces", [])} | {m["module"] for m in c.get("models", [])})
    out["checks"].append({"property": p["id"], "quick_cmd": "python3 vf.py check %s --tier quick" % p["id"], "thorough_cmd": "python3 vf.py check %s --tier thorough" % p["id"],
      "evidence_file": "evidence/%s.json" % p["id"], "technique": "TLA+ specification (%s) checked with TLC; TLC trace validation of the real code under enumerated and randomised schedules" % ", ".join(mods),
      "level": c["level"], "level_note": c.get("note", "Within the explored inputs and schedules TLC accepts every recorded behaviour of the real code as a behaviour of the specification. ") + " Assumes " + "; ".join(checks.ASSUMPTIONS + c.get("assumptions", [])) + "."})
json.dump(out, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
