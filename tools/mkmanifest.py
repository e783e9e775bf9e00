#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from plan import PLAN
R = os.path.join(H, "..")
props = [json.loads(x) for x in open(os.path.join(R, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
     "hooks": {"guard": "verif", "enable": "no hooks are needed: the public API shows the observed state, /repo is built as it is", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i not in PLAN:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
        continue
    d = PLAN[i]
    m["checks"].append({
        "property": i,
        "quick_cmd": "python3 /verif/check.py " + i,
        "thorough_cmd": "python3 /verif/check.py " + i + " --thorough",
        "evidence_file": "evidence/%s.json" % i,
        "technique": d.get("technique", "TLA+ specification, TLC trace validation of recorded executions of the real code"),
        "level": d.get("level", "model_checking"),
        "level_note": d.get("note", d["rule"]) + " Trusted: TLC, the harness that records, the specification; " + "; ".join(d["assumptions"]) + ".",
    })
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(m["checks"]), len(m["not_applicable"]))
