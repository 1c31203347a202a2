#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from suites.py."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from suites import PROPS
allp = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
NA = {}
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "checks": [{"property": p, "quick_cmd": f"python3 check.py {p} --tier quick", "thorough_cmd": f"python3 check.py {p} --tier thorough",
                 "evidence_file": f"evidence/{p}.json", "technique": PROPS[p]["technique"], "level": "exploration",
                 "level_note": PROPS[p].get("note", "generated workloads on the real library; the oracle judges each observed execution, nothing is proved about the ones not run")}
                for p in allp if p in PROPS],
     "not_applicable": [{"property": p, "reason": NA.get(p, "check under construction")} for p in allp if p not in PROPS]}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
