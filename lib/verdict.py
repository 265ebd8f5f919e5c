"""Programs that must be accepted or refused: each is compiled alone on the real compiler.

An item is (expected, label, text): expected True (accepted), False (refused), or the text that the
accepted program must print on the virtual machine."""
import itertools, re
import vlib, vmlib

FLAGS = ["-VM", "-Wno"]


def message(r):
    t = re.sub("\x1b\\[[0-9;]*m", "", r.log.decode(errors="replace"))
    return next((l.split("/")[-1] for l in t.splitlines() if "ошибка" in l), "")[:160]


def _judge(want, r):
    if r.timeout: return "no answer"
    if r.code not in (0, 64): return "no verdict (%s)" % r.describe()
    if (r.code == 0) != (want is not False): return "is accepted" if r.code == 0 else "is refused: " + message(r)
    if isinstance(want, str):
        v = vmlib.run(r.outs[0])
        if v.code != vmlib.OK: return "printed %r, then %s" % (v.out[:100], v.describe())
        if v.out != want: return "printed %r instead of %r" % (v.out[:200], want[:200])
    return None


def _batch(items):
    ruc = vlib.worker_ruc("rel")
    reqs = [([("t.c", t)], FLAGS + ["t.c", "-o", "o"], ["o"] if isinstance(w, str) else []) for w, _, t in items]
    rs = ruc.run_batch(reqs, 3000)
    bad = []
    for (want, label, t), q, r in zip(items, reqs, rs):
        why = _judge(want, r) if r is not None else "?"
        if why is None: continue
        why = _judge(want, ruc.run(*q, 30000))
        if why: bad.append((label, "%s %s" % (label, why), "// should be %s\n%s" % ("refused" if want is False else "accepted" if want is True else "accepted and print " + repr(want), t)))
    return len(items), sum(1 for i in items if i[0] is not False), bad


def explore(chk, items, label, size=150, per_label=2, show=False, group=None):
    """checks every item; reports at most per_label failures of each group of labels"""
    vlib.rucd("rel")
    vmlib.build()
    def parts():
        it = iter(items)
        while True:
            p = list(itertools.islice(it, size))
            if not p: return
            yield p
    n = yes = fails = 0
    kinds = {}
    for k, y, bad in vlib.pmap(_batch, parts()):
        n += k
        yes += y
        for lab, what, replay in bad:
            if any(f.get("input") == lab for f in chk.findings):
                chk.violation("[%s] %s" % (label, what), replay, key=lab)
                continue
            g = group(lab) if group else re.sub(r"\d+", "N", lab)
            kinds[g] = kinds.get(g, 0) + 1
            if show and kinds[g] <= per_label: print("##", what, "|", replay.replace("\n", " ")[-300:], flush=True)
            if kinds[g] <= per_label and len(chk.viol) < 40: chk.violation("[%s] %s" % (label, what), replay, key=lab)
    chk.count(n, n, n)
    chk.note(label, {"programs": n, "to be accepted": yes, "to be refused": n - yes})
    if show: print(label, n, yes, sum(kinds.values()), "failures in", len(kinds), "groups")
    return n
