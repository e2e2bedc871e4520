#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py and the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
import props, checks
have = checks.load()
na = dict(props.NA)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        if p["id"] not in have and p["id"] not in na:
            continue
        assert len(p["title"]) <= 80, p["id"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                         "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                         "hook_needed": None}}
        if p["observe"]:
            d["anchors"]["observe_at"] = [p["observe"]]
        f.write(json.dumps(d) + "\n")
M = {"version": 1, "setup_cmd": "sh tools/setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                 "technique": p["technique"], "level": "other", "level_note": p["level_note"]} for p in props.PROPS if p["id"] in have],
     "not_applicable": [{"property": k, "reason": v} for k, v in props.NA if k not in have],
     "notes": "All checks share one analysis: a rustc driver (driver/) dumps the MIR of /repo's current tree with resolved callees; sa/ interprets it abstractly; checks/ states the rules. Nothing of the crate is executed."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1)
    f.write("\n")
print(len(M["checks"]), "checks")
