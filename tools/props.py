#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props_data.py (the one place they are kept)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props_data import PROPS, NA, TECH

TRUST = ("Sound with respect to the abstract semantics of the analyser (sa/engine.py) on the borrowck-phase MIR of the host "
         "build; trusts the documented behaviour of std and of third-party crates. ")

out, checks, na = [], [], []
for p in PROPS:
    assert len(p["title"]) <= 80, p["title"]
    out.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}})
    if p["id"] in NA:
        na.append({"property": p["id"], "reason": NA[p["id"]]})
    else:
        checks.append({"property": p["id"], "quick_cmd": "./check.sh %s" % p["id"], "thorough_cmd": "./check.sh %s" % p["id"],
                       "technique": p.get("tech", TECH), "level": "other", "level_note": TRUST + p.get("note", "")})
out.sort(key=lambda x: x["id"])
checks.sort(key=lambda x: x["property"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in out:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
               "notes": "Static analysis only: a rustc driver dumps the type-checked MIR of /repo, sa/ explores it abstractly. No hooks in /repo."},
              f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(out), "properties;", len(checks), "checks;", len(na), "not applicable")
