#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(R, "tools")]
import props
NA = getattr(props, "NA", {})
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in sorted(props.P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks = []
for p in sorted(props.P, key=lambda p: p["id"]):
    if p["id"] in NA:
        continue
    assert os.path.exists(os.path.join(R, "checks", p["id"] + ".py")), p["id"]
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": p["technique"] or "symbolic execution of the compiler's IR of the real code, obligations decided with decision diagrams and z3",
                   "level": "model_checking", "level_note": p["note"]})
with open(os.path.join(R, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "make -B -C engine", "checks": checks,
               "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
               "notes": "python3 check.py --replay FILE runs the input of a VIOLATION line against the real code once more"}, f, indent=1)
    f.write("\n")
