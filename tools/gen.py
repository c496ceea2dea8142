#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS
checks, na = [], []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"],
                         "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        for a in p["files"]:
            assert os.path.exists(os.path.join("/repo", a)), a
        f.write(json.dumps(q) + "\n")
        if p.get("na"):
            na.append({"property": p["id"], "reason": p["na"]})
        else:
            checks.append({"property": p["id"],
                           "quick_cmd": "python3 run.py check %s --tier quick" % p["id"],
                           "thorough_cmd": "python3 run.py check %s --tier thorough" % p["id"],
                           "technique": p.get("tech", "path-sensitive abstract interpretation of the compiler IR (trace partitioning; bit-slice, interval, value-set and linear-inequality domains; object typestate)"),
                           "level": "other", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: run.py compiles the witness units against /repo's current headers and sources to LLVM bitcode and analyses the bitcode with engine/aint; nothing compiled from /repo is executed. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
