#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to keep them in step)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
I = "include/daw/"
exec(open(os.path.join(os.path.dirname(__file__), "props_table.py")).read())
ids = [p["id"] for p in P]
assert len(ids) == len(set(ids))
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    for f in p["anchors"]["files"]:
        assert os.path.exists(os.environ.get("REPO","/repo")+"/" + f), f
with open(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+"/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
