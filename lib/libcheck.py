"""Driver of the library harnesses (harness/*.c over harness/h.h)."""
import os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import vlib

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=8"
           , UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=0")
HARNESS = os.path.join(vlib.VERIF, "harness")


def build(name, mode="san", parts=("utils",), extra=()):
    return vlib.harness("h_" + os.path.splitext(name)[0], [os.path.join(HARNESS, name)], mode, parts, ["-I" + HARNESS, *extra])


def _run(args):
    return subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, text=True, errors="replace")


def explore(chk, exe, lo, hi, label, shards=16, states=None):
    """Runs every shard, counts, and confirms each failure by replaying it alone."""
    cmds = [[exe, "enum", str(lo), str(hi), str(s), str(shards)] for s in range(shards)]
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        res = list(ex.map(_run, cmds))
    seqs = steps = 0
    fails = []
    for c, r in zip(cmds, res):
        counted = False
        for line in r.stdout.splitlines():
            f = line.split("\t")
            if f[0] == "COUNT":
                counted = True
                seqs += int(f[1])
                steps += int(f[2])
            elif f[0] == "FAIL":
                fails.append((f[1], f[2], f[3] if len(f) > 3 else "", r.stderr))
            elif f[0] == "SAMPLE":
                chk.sample(f[1])
        if not counted and not any(l.startswith("FAIL") for l in r.stdout.splitlines()):
            raise RuntimeError("harness died: %s: %d\n%s" % (c, r.returncode, r.stderr[-2000:]))
    seen = set()
    fails.sort(key=lambda f: (f[1].count(","), f[1]))
    for what, seq, text, err in fails:
        if (what, text) in seen or len(seen) > 40:
            continue
        seen.add((what, text))
        r = _run([exe, "replay", seq])
        if "FAIL\t" not in r.stdout:
            continue        # not reproducible alone: not reported
        chk.violation("%s: %s after: %s" % (label, what, text)
                      , "%s\n%s\n" % (label, text) + "\n".join(r.stderr.splitlines()[:12]), key="%s | %s | %s" % (label, what, text))
    chk.count(states=seqs, transitions=steps, traces=seqs)
    chk.cov.setdefault("families", {})[label] = {"sequences": seqs, "steps": steps, "max_length": hi}
    return seqs
