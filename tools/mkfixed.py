#!/usr/bin/env python3
"""Adds the repairs committed in /repo to known_findings.json (development helper: run by hand after a repair)."""
import json, subprocess, sys
P = "/verif/known_findings.json"
PROPS = dict(l.split() for l in """
0a97736 C60
cad3b3f C65
35f57ea C62
2c3987a C66
9e89f70 C66
61daf0f C64
8bf05f7 C64
2ae32bf C68
d7680f9 C11
d211c54 C10
f807c02 C11
f07c480 C01
3386a42 C13
ac572d1 C31
7da196e C12
5726ba3 C11
b3814a2 C11
7654740 C12
e638c9e C12
32301b4 C14
4a92a2d C12
339ea4a C43
12a0269 C43
451008b C45
273f453 C42
2dd380c C42
7656ebd C42
fed0591 C41
d11f930 C40
3537089 C40
9fbfd04 C41
8ef2d7b C42
eec2c94 C42
bacdb63 C42
7fcaea3 C43
706e1b7 C43
dc2d1d4 C42
64eeb82 C68
3281b59 C03
70febe6 C03
29386d6 C01
b2f4c12 C02
9ac0187 C03
""".split("\n") if l)
PROPS.update(a.split("=") for a in sys.argv[1:])      # COMMIT=PROPERTY ...
d = json.load(open(P))
have = {f.get("commit"): f for f in d["findings"]}
for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse", "da7835e..HEAD"], text=True, stdout=subprocess.PIPE).stdout.split("\n"):
    if " fix: " not in l: continue
    h, what = l.split(" fix: ")
    if h in have: continue
    if h not in PROPS: print("no property for", l); continue
    d["findings"].append({"property": PROPS[h], "status": "fixed", "commit": h, "what": "fixed: property=%s %s %s" % (PROPS[h], h, what)})
json.dump(d, open(P, "w"), ensure_ascii=False, indent=1)
