#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/spec.py and worlds/config.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [here, os.path.join(here, "tools")]
from worlds.config import PROPERTIES
import spec

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in spec.PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
ids = [p["id"] for p in spec.PROPS]
na = {n["property"] for n in spec.NOT_APPLICABLE}
checks = []
for i in ids:
    if i in na:
        continue
    c = PROPERTIES[i]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
        "technique": "deterministic simulation with fault injection: " + c.get("technique", "seeded histories and faults against a reference model"),
        "level": "exploration",
        "level_note": f"{c['quick']} seeded runs per quick check. " + c["rule"] + c.get("note", ""),
    })
m = {"version": 1, "setup_cmd": "python3 check.py --build",
     "hooks": {"guard": "none", "enable": "no hooks were needed: every seam (streams, allocator, handlers, chunked input) exists in the code", "source_commits": []},
     "checks": checks, "not_applicable": spec.NOT_APPLICABLE,
     "notes": "One simulator (sim/), one world per property group (worlds/). check.py builds from /repo's working tree. Known findings: known_findings.txt."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
