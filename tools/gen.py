#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from propdefs import P, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in P + NA:
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": p["mech"]}
        if p.get("state"):
            a["state"] = p["state"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa check.py",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                 "thorough_cmd": f"python3 check.py {p['id']} --thorough",
                 "technique": p["tech"], "level": "other", "level_note": p["note"]} for p in P],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
     "notes": "All checks are static analyses of /repo's current source; see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "claimed,", len(NA), "not applicable")
