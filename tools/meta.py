#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and ws/chk/meta.json from tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import P, NA, NOTES
with open(f"{V}/properties.jsonl", "w") as f:
    for p in P + NA:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
man = {
    "version": 1,
    "setup_cmd": "bash tools/build.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"bash tools/check.sh {p['id']} quick",
        "thorough_cmd": f"bash tools/check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"],
        "level": p["level"],
        "level_note": f"Bounds: {p['bounds']} Outside: {p['outside']}",
    } for p in P],
    "hooks": {"guard": "none", "enable": "no hook is needed: tools/gen.sh generates crates whose modules are /repo's own source files (#[path])", "source_commits": []},
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": NOTES,
}
json.dump(man, open(f"{V}/MANIFEST.json", "w"), indent=1)
json.dump({p["id"]: {k: p[k] for k in ("level", "technique", "functions", "bounds", "outside", "assumptions")} for p in P},
          open(f"{V}/ws/chk/meta.json", "w"), indent=1)
