#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(H, "tools"))
import plans
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
NA = {"C27": "pure functions of one argument: no schedule, clock, fault, memory state or history takes part, so there is nothing for a simulator to decide"}
NA.update(getattr(plans, "NOT_APPLICABLE", {}))
NOTE = "seeded search over %s with the real library code under a deterministic simulator; every failure is replayed from a minimised file in a fresh process; samples, does not enumerate"
checks = [{"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p, "technique": "deterministic simulation with fault injection", "level": "exploration", "level_note": plans.PLANS[p].get("note") or NOTE % plans.PLANS[p].get("space", "operation histories, heap states and allocation failures")} for p in props if p in plans.PLANS]
m = {"version": 1, "setup_cmd": "python3 tools/build.py default", "checks": checks, "not_applicable": [{"property": p, "reason": NA.get(p, "not claimed yet: its simulation is still being built")} for p in props if p not in plans.PLANS]}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1); print(len(checks), "checks")
