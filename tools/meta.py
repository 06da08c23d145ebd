#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand
after editing it; the checks do not use it)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
from registry import CHECKS   # noqa: E402

P = []


def prop(pid, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=None, obs=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na,
                  state=state, obs=obs))


exec(open(os.path.join(HERE, "tools", "meta_props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["obs"]:
            anchors["observe_at"] = p["obs"]
        f.write(json.dumps({"id": p["pid"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": anchors, "hook_needed": False}) + "\n")
        assert len(p["title"]) <= 80, p["pid"]
checks, na = [], []
for p in P:
    i = p["pid"]
    if i in CHECKS and not p["na"]:
        assert p["technique"] and p["note"], i
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": p["technique"], "level": CHECKS[i][2], "level_note": p["note"]})
    else:
        na.append({"property": i, "reason": p["na"] or "no sound rule built for it yet"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "All checks are static: each run compiles /repo's current library sources to LLVM IR (no optimisation beyond mem2reg) and analyses it; nothing of /repo is executed."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "claimed,", len(na), "not")
