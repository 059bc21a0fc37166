#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, notes.json and checks/."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
notes = json.load(open(V + "/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if glob.glob(V + "/checks/%s_*.cpp" % i):
        n = notes.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py %s quick" % i,
            "thorough_cmd": "python3 run.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": n.get("technique", "property-based testing: generated inputs against a reference model, with sanitizers and shrinking"),
            "level": "exploration",
            "level_note": n.get("note", "Holds on all generated cases of the run (counts in the evidence); no claim about inputs that were not generated. Trusts the model in the harness, the sanitizers and libstdc++."),
        })
    else:
        na.append({"property": i, "reason": notes.get(i, {}).get("na", "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks build the public headers as they are. Genuine defects repaired in /repo are listed in known_findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
