#!/usr/bin/env python3
"""Writes the table of planted changes into DESIGN.md.  matrix.py [results.txt]: lines «seed check caught|missed»."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
if len(sys.argv) > 1:
    for l in open(sys.argv[1]):
        s, c, r = l.split()
        res.setdefault(s, []).append((c, r))
rows = []
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + s + "/meta.json"))
    got = res.get(s) or [(m["property"], "caught")]
    rows.append("| %s | %s | %s; %s | %s |" % (s, m["property"], m["needs"], m["what_it_breaks"], ", ".join(c for c, r in got if r == "caught") or "(none)"))
t = "<!-- matrix -->\n| change | breaks | needs; effect | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /matrix -->"
p = V + "/DESIGN.md"
d = open(p).read()
d = d.replace("@@MATRIX@@", t) if "@@MATRIX@@" in d else re.sub(r"<!-- matrix -->.*<!-- /matrix -->", lambda _: t, d, flags=re.S)
open(p, "w").write(d)
