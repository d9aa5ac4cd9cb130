#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py (the single source of both)."""
import json
import os

import props

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        d = {k: p[k] for k in ("id", "title", "statement")}
        d["quantifier"] = {"over": p["over"], "text": p["quant"]}
        d["why_tests_cant"] = p["why"]
        d["anchors"] = {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p.get("state", [])],
                        "observe_at": p.get("observe", ["return values, status codes and output arrays of the public C API"]),
                        "hook_needed": None}
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": props.NOT_APPLICABLE,
     "notes": "All checks run the real library, compiled from /repo's working tree; see DESIGN.md. "
              "Properties and this file are generated from props.py by gen.py."}
for p in props.PROPS:
    if p["id"] in [x["property"] for x in props.NOT_APPLICABLE]:
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                        "evidence_file": "evidence/%s.json" % p["id"],
                        "technique": p.get("technique", "model checking: exhaustive bounded exploration of the real code"),
                        "level": p.get("level", "model_checking"), "level_note": p["note"]})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(props.PROPS), "properties,", len(m["checks"]), "checks")
