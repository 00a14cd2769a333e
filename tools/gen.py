#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed) from one table."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []  # (property dict, check dict or None, not_applicable reason or None)

def prop(id, title, statement, over, qtext, why, files, mech, level_note, technique,
         state=None, observe=None, na=None, thorough=True):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why, "anchors": a}
    c = None
    if not na:
        c = {"property": id, "quick_cmd": "bash run.sh %s" % id}
        if thorough:
            c["thorough_cmd"] = "bash run.sh %s" % id
        c.update({"evidence_file": "evidence/%s.json" % id, "technique": technique,
                  "level": "exploration", "level_note": level_note})
    P.append((d, c, na))

exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d, _, _ in P:
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "bash build.sh",
     "checks": [c for _, c, _ in P if c],
     "not_applicable": [{"property": d["id"], "reason": na} for d, _, na in P if na],
     "notes": "Runtime monitors over the real crate, driven through its public API, real sockets, real files and "
              "real processes. No hooks in /repo are needed: everything is observed at public boundaries, so no guard "
              "exists. See DESIGN.md; known-findings.jsonl lists genuine defects (fixed and open)."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
