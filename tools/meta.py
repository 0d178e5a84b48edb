#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []


def prop(i, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=(), state=()):
    d = {"id": i, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": list(observe), "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, (i, len(title))
    P.append((d, technique, note))
    if na:
        NA.append({"property": i, "reason": na})


exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d, t, n in sorted(P, key=lambda x: x[0]["id"]):
        f.write(json.dumps(d) + "\n")
na = set(x["property"] for x in NA)
checks = []
for d, t, n in sorted(P, key=lambda x: x[0]["id"]):
    if d["id"] in na:
        continue
    checks.append({"property": d["id"], "quick_cmd": "python3 check.py %s" % d["id"], "thorough_cmd": "python3 check.py %s --thorough" % d["id"],
                   "technique": t, "level": "other", "level_note": n})
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; assert sys.version_info >= (3, 8)\" && test -x /usr/lib/llvm-18/bin/clang",
     "checks": checks, "not_applicable": NA,
     "notes": "Every check parses /repo's current sources with clang (syntax tree only; nothing of /repo is compiled to code or run)."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(NA), "not applicable")
