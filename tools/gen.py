#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/spec.py."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import spec
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in spec.PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mechanism"], "state": p["state"],
                        "observe_at": p["observe"] or ["the public functions declared in the headers of these modules"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": spec.NOT_APPLICABLE if hasattr(spec, "NOT_APPLICABLE") else []}
for p in spec.PROPS:
    m["checks"].append({"property": p["id"], "quick_cmd": f"python3 run_check.py {p['id']} quick", "thorough_cmd": f"python3 run_check.py {p['id']} thorough",
                        "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(spec.PROPS), "properties")
