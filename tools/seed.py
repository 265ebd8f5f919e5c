#!/usr/bin/env python3
"""seed.py ID... : for each planted bug, on /repo itself: demo on the clean tree (0), then
apply, build, stable tests, demo (nonzero), the property's quick check (1), undo."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notest = "--notest" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
if not ids:
    ids = sorted(os.listdir(V + "/seeded"))
base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
assert not sh("git -C /repo status --porcelain --untracked-files=no").stdout, "repo not clean"
sh("bash /opt/vp/build.sh")
clean = {}
for i in ids:
    d = V + "/seeded/" + i
    clean[i] = sh("bash %s/demo.sh" % d, cwd="/repo").returncode
for i in ids:
    d = V + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode:
        print(i, prop, "DOES NOT APPLY", r.stdout); continue
    try:
        b = sh("bash /opt/vp/build.sh")
        miss = "?"
        if b.returncode: miss = "BUILD FAILED"
        elif not notest:
            sh("bash /opt/vp/test.sh /tmp/seedout.json")
            got = set(json.load(open("/tmp/seedout.json"))["passed"])
            miss = sorted(base - got)[:5]
        dm = sh("bash %s/demo.sh" % d, cwd="/repo")
        c = sh("python3 checks/%s.py" % prop, cwd=V)
        hit = c.returncode == 1 and ("VIOLATION property=" + prop) in c.stdout
        print(i, prop, "clean-demo=%d" % clean[i], "demo=%d" % dm.returncode, "tests-missing=%s" % miss
              , "CAUGHT" if hit else "MISSED rc=%d" % c.returncode, c.stdout.strip().splitlines()[-1:] , flush=True)
    finally:
        sh("git -C /repo checkout -- .")
sh("bash /opt/vp/build.sh")
