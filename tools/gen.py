#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props
V = os.path.dirname(HERE)
out = []
checks = []
na = []
for p in props.PROPS:
    d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
    assert len(d["title"]) <= 80, d["title"]
    out.append(json.dumps(d))
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        cmd = "python3 checks/run.py " + p["id"]
        checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd, "technique": p["technique"],
                       "level": "other", "level_note": p["level_note"]})
open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(out) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 lib/facts.py", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
