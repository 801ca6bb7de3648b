#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import props
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": [
        {
            "property": i,
            "quick_cmd": f"VERIF_TIER=quick python3 check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
            "technique": props.P[i]["technique"],
            "level": "model_checking",
            "level_note": props.P[i]["note"] + " Exhaustive within the bounds of the tier; see DESIGN.md.",
        }
        for i in ids if i in props.P
    ],
    "not_applicable": [{"property": i, "reason": props.NOT_APPLICABLE[i]} for i in ids if i not in props.P],
    "notes": "No hooks: the checks use the public API only. /verif/mc explores the real library; see DESIGN.md.",
}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
