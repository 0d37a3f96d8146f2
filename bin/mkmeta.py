#!/usr/bin/env python3
"""Maintains properties.jsonl and MANIFEST.json from bin/props/*.json (one file per property)."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from registry import CHECKS
props = [json.load(open(f)) for f in sorted(glob.glob(os.path.join(V, "bin", "props", "*.json")))]
order = {k: i for i, k in enumerate(CHECKS)}
props.sort(key=lambda p: order.get(p["id"], 999))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + i,
                       "technique": p.get("_technique", "explicit TLA+ specification: bounded model checking with TLC, and TLC trace validation of "
                                    "histories recorded from the real code"),
                       "level": CHECKS[i].get("level", "model_checking"), "level_note": p["_note"]})
    else:
        na.append({"property": i, "reason": p["_na"]})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Specification language: TLA+ (TLC). One runner, bin/check.py; what each check consists of is in bin/registry.py. "
              "No hooks in /repo: drivers in harness/ compile /repo/include directly (with stand-ins for absent third-party headers in shim/)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(props), "properties,", len(checks), "checks,", len(na), "not applicable")
