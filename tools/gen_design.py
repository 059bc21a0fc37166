#!/usr/bin/env python3
"""Rewrites the planted-bug table at the end of DESIGN.md from seeded/."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
st = json.load(open(V + "/tools/seeded_status.json"))
M = "## Planted bugs\n"
s = open(V + "/DESIGN.md").read()
s = s[:s.index(M)] if M in s else s.rstrip() + "\n\n"
s += M + "\nEach is in `seeded/<id>` with its demonstration. \"Caught by\" is the\nsub-property whose replay file the quick check wrote.\n\n| id | what it breaks | caught by |\n|---|---|---|\n"
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = d.split("/")[-2]
    m = json.load(open(d))
    s += "| %s | %s | %s |\n" % (i, m["what_it_breaks"].replace("|", "\\|").replace("\n", " "), st.get(i, "?"))
open(V + "/DESIGN.md", "w").write(s)
