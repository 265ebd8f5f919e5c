"""Batches of cases: each case is some top-level text and statements for main with the output
they must produce. Batches are compiled, executed, and split until the failing cases are alone."""
import os, signal, subprocess, tempfile, shutil
import vlib, vmlib

PRELUDE0 = PRELUDE = "int tr(int n, int v) { printf(\"<%i>\", n); return v; }\n"


class Case:
    """top: text with @ for a unique number; calls: statements (also with @); exp: expected output"""
    __slots__ = ("top", "calls", "exp", "tag")

    def __init__(self, top, calls, exp, tag=""):
        self.top, self.calls, self.exp, self.tag = top, calls, exp, tag


def program(batch):
    out = [PRELUDE]
    body = []
    for i, c in enumerate(batch):
        out.append(c.top.replace("@", str(i)))
        out.append("\nvoid run%d()\n{\n\t%s\n}\n" % (i, "\n\t".join(c.calls).replace("@", str(i))))
        body.append("\trun%d(); printf(\"\\n\");" % i)
    out.append("void main()\n{\n" + "\n".join(body) + "\n}\n")
    return "".join(out)


def expected(batch):
    return "".join(c.exp + "\n" for c in batch)


def run_vm(src, max_steps=5000000):
    r = vlib.worker_ruc("rel").compile(src, ("-VM", "-Wno"))
    if not r.ok:
        return None, "not compiled (%s): %s" % (r.describe(), first_error(r)), r
    v = vmlib.run(r.outs[0], max_steps)
    if v.code != vmlib.OK:
        return v.out, v.describe(), v
    return v.out, None, v


def first_error(r):
    import re
    t = re.sub(r"\x1b\[[0-9;]*m", "", r.text)
    t = re.sub(r"/\S*/", "", t)
    lines = [l for l in t.splitlines() if l.strip()]
    return " / ".join(lines[:2])


CLANG = "clang-14"


def run_llvm(src, opt="-O0", limit=2):
    r = vlib.worker_ruc("rel").compile(src, ("-LLVM", "-Wno"))
    if not r.ok:
        return None, "not compiled (%s): %s" % (r.describe(), first_error(r)), r
    d = tempfile.mkdtemp(prefix="ll.", dir=vlib.scratch())
    try:
        with open(d + "/o.ll", "wb") as f:
            f.write(r.outs[0])
        p = subprocess.run([CLANG, opt, "-w", d + "/o.ll", "-o", d + "/o", "-lm"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            return None, "module refused: " + p.stdout.decode("utf-8", "replace").replace(d, "")[:400], r
        # processor time and output are bounded (a changed compiler may emit a loop that never ends); waiting time is not decisive
        with open(d + "/out", "wb") as f:
            try:
                q = subprocess.run(["sh", "-c", "ulimit -t %d; ulimit -f 131072; exec \"$0\"" % limit, d + "/o"], stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, timeout=30 * limit)
            except subprocess.TimeoutExpired:
                q = None
        if q is None or q.returncode in (-signal.SIGXCPU, -signal.SIGKILL, -signal.SIGXFSZ):
            return None, "did not end", r
        with open(d + "/out", "rb") as f:
            out = f.read().decode("utf-8", "replace")
        if q.returncode < 0:
            return out, "killed by signal %d" % -q.returncode, r
        return out, None, r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_batch(batch, runner, fails, limit=4):
    """Appends (case, observed) for every failing case (found by halving)."""
    src = program(batch)
    out, err, _ = runner(src)
    if err is None and out == expected(batch):
        return
    if err == "did not end":
        limit = min(limit, 1)      # each such run costs its whole limit
    if len(batch) == 1:
        out, err, _ = runner(src, limit=10) if err == "did not end" else runner(src)      # once more before it is believed
        if err is None and out == expected(batch):
            return
        fails.append((batch[0], "%s%s" % ("printed %r" % out[:-1] if out is not None else "nothing printed", "; " + err if err else "")))
        return
    if len(fails) >= limit:
        return
    # where the lines are there, look only at those that differ
    if err is None and out is not None and out.count("\n") == len(batch):
        bad = [c for c, l in zip(batch, out.split("\n")) if l != c.exp]
        if len(bad) < len(batch):
            n = len(fails)
            for c in bad[:limit]:
                check_batch([c], runner, fails, limit)
            if len(fails) > n:
                return
    h = len(batch) // 2
    check_batch(batch[:h], runner, fails, limit)
    check_batch(batch[h:], runner, fails, limit)


RUNNERS = {"vm": run_vm, "llvm": run_llvm}
_gen = None


def _work(job):
    batch, backend, make, top, opts = job
    fails = []
    if make:
        batch = [c for c in map(make, batch) if c is not None]
    if not batch:
        return 0, [], 0, None
    global PRELUDE
    PRELUDE = PRELUDE0 + top
    n = sum(len(c.calls) for c in batch)
    check_batch(batch, RUNNERS[backend], fails)
    first = {"program": batch[0].top.replace("@", "0") + " | " + "; ".join(batch[0].calls)[:200], "expected": batch[0].exp[:200]}
    return n, [(program([c]), c.exp, c.tag, seen) for c, seen in fails], len(batch), first


def explore(chk, cases, backend="vm", size=40, label="cases", max_calls=1200, make=None, top="", max_fails=30):
    """Runs all cases; counts one state per case and one transition per call (program point x input).
    With make, the items are seeds that make turns into cases in the workers."""
    if backend == "vm":
        vmlib.build()
    vlib.rucd("rel")

    def batches():
        buf, calls = [], 0
        for c in cases:
            buf.append(c)
            if not make: calls += len(c.calls)
            if len(buf) >= size or calls >= max_calls:
                yield buf, backend, make, top, None
                buf, calls = [], 0
        if buf:
            yield buf, backend, make, top, None
    total = ncase = 0
    if getattr(chk, "hangs", 0) >= 2:
        return
    for n, fails, k, first in vlib.pmap(_work, batches()):
        total += n
        ncase += k
        if first: chk.sample({label: first})
        for src, exp, tag, seen in fails:
            chk.violation("[%s, %s] %s; expected %r; %s" % (label, backend, tag, exp[:300], seen[:300])
                          , "// backend: %s\n// expected output: %r\n// observed: %s\n%s" % (backend, exp, seen, src), key=tag)
            chk.hangs = getattr(chk, "hangs", 0) + ("did not end" in seen)
        if len(chk.viol) > max_fails or getattr(chk, "hangs", 0) >= 2:
            break       # enough is known; looking at more programs that never end would only take time
    chk.count(states=ncase, transitions=total, traces=ncase)
    chk.note(label + "/" + backend, {"cases": ncase, "calls": total})
