#!/usr/bin/env python3
"""Layout, names, division into files, leftovers in memory and in the output file: none of them changes the code."""
import glob, itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, pp, image, corpus

c = vlib.Check("C03")
T = c.thorough
TARGETS = ("-VM", "-LLVM", "-MIPS")
# white space that may stand between any two tokens
FILL = ["\n", "\t", "/* \" */", "// '\n", "/*\n*/", "/**/", "/***/", "/*/ */", "// \\\n * /\n", "\r\n", "//*\n", "  \n  ", "#line 5\n"]


def req(files, flag="-VM", *args):
    return (files, [flag] + list(args) + [n for n, _ in files if n.endswith(".c")] + ["-o", "o"], ["o"])


def gap(ts, k, f):
    if f[0] == "#": return "\n" + f
    return " " + f if k and ts[k - 1][-1] == "/" else f


def rename(ts, f):
    return [f(t) if corpus.is_user_name(t) else t for t in ts]


LAT = "abcdefghijklmnopqrstuvwxyz"
CYR = "абвгдежзийклмнопрстуфхцчшщ"
TO_CYR = {a: b for l, r in ((LAT, CYR), (LAT.upper(), CYR.upper())) for a, b in zip(l, r)}
TO_LAT = {b: a for a, b in TO_CYR.items()}
TURN = {a: b for s in (LAT, LAT.upper()) for a, b in zip(s, s[1:] + s[0])}
ru = lambda w: "".join(TO_CYR.get(x, x) for x in w)
RENAMES = {"next letters": lambda w: "".join(TURN.get(x, x) for x in w) if all(x in TURN or x in "_0123456789" for x in w) else "".join(TO_LAT.get(x, "q") for x in w), "the other script": lambda w: ru(w) if ru(w) != w else "".join(TO_LAT.get(x, x) for x in w),
           "longer names": lambda w: w + "_я2", "much longer names": lambda w: w + "Длинное_имя_with_37_more_letters____", "short names": None}


def types(ty):
    """the table of types without the places of member names"""
    out, k = ty[:1], 1
    while k < len(ty):
        kind = ty[k + 1]
        n = {1001: 4, 1002: 4, 1003: 3, 1004: 3, 1005: 4, 1006: 3}.get(kind)
        if n is None: raise image.Bad("type table at %d" % k)
        out += ty[k:k + n]
        if n == 4: out += [0 if kind in (1002, 1005) and i % 2 else x for i, x in enumerate(ty[k + 4:k + 4 + ty[k + 3]])]
        k += n + (ty[k + 3] if n == 4 else 0)
    return out


def shape(data, name=lambda w: w):
    """code, functions, types, identifiers and the recorded names, without the places of the names"""
    head, (mem, fn, idt, rp, ty) = image.parse(data)
    names = []
    for k in range(0, len(idt), 3):
        at = idt[k] + 2
        names.append(name("".join(chr(x) for x in rp[at:rp.index(0, at)])))
    return head[:3] + head[4:], mem, fn, [0 if k % 3 == 0 else x for k, x in enumerate(idt)], types(ty), names


def one(item):
    """(transformations tried, failures) of one program"""
    name, s, every = item
    ts = corpus.tokens(s)
    if ts is None: return 0, 0, []
    ruc = vlib.worker_ruc("rel")
    bad, total, states = [], 0, 0

    def compare(cases, base, flag, names=False):
        nonlocal total
        for k in range(0, len(cases), 200):
            part = cases[k:k + 200]
            for (what, files, extra), r in zip(part, ruc.run_batch([req(f, flag) for _, f, _ in part], 5000)):
                total += 1
                for _ in range(3):
                    if r is not None and r.code == 0:
                        got = r.outs[0]
                        if names: got = shape(got)
                        if got == base: break
                    r = ruc.run(*req(files, flag), 60000)
                else:
                    bad.append(("%s: %s changes the program (%s, %s)" % (name, what, "refused" if r.code == 64 else "other code" if r.code == 0 else r.describe(), flag),
                                "".join("==> %s\n%s\n" % f for f in files) + "ruc %s %s -o o\n" % (flag, " ".join(n for n, _ in files))))

    for flag in TARGETS:
        if len(bad) > 5: break
        first = ruc.run(*req([("t.c", " ".join(ts))], flag), 5000)
        if first.code != 0: continue
        base = first.outs[0]
        states += 1
        cases = [("the text as written", [("t.c", s)], None), ("carriage returns", [("t.c", s.replace("\n", "\r\n"))], None), ("no last line end", [("t.c", s.rstrip())], None), ("an old output file", [("t.c", s), ("o", "x" * 300000)], None)]
        pre = ruc.run([("t.c", s)], ["-E", "t.c", "-o", "o"], ["o"], 60000)
        if pre.code == 0: cases.append(("what -E writes", [("t.c", pre.outs[0].decode())], None))
        for f in FILL: cases.append(("%r everywhere" % f, [("t.c", gap(ts, 0, f) + "".join(t + gap(ts, k + 1, f) for k, t in enumerate(ts)))], None))
        if every and flag == "-VM":
            for k in range(len(ts) + 1):
                for f in FILL: cases.append(("%r before token %d" % (f, k), [("t.c", " ".join(ts[:k]) + gap(ts, k, f) + " ".join(ts[k:]))], None))
        if flag != "-MIPS":     # that output is the work of several files at once as well, but begins with the name of the first
            cuts = corpus.cuts(ts)
            for k in cuts: cases.append(("two files, divided before token %d" % k, [("t.c", " ".join(ts[:k])), ("u.c", " ".join(ts[k:]))], None))
            if len(cuts) <= 8:
                for k, m in itertools.combinations(cuts, 2): cases.append(("three files, divided before tokens %d and %d" % (k, m), [("t.c", " ".join(ts[:k])), ("u.c", " ".join(ts[k:m]) + "\n"), ("v.c", "\n" + " ".join(ts[m:]))], None))
        compare(cases, base, flag)
        if flag == "-VM":
            users = sorted({t for t in ts if corpus.is_user_name(t)})
            for what, f in RENAMES.items():
                table = {u: (f(u) if f else "в%d" % i) for i, u in enumerate(users)}
                if len(set(table.values())) < len(users) or any(v in corpus.RESERVED for v in table.values()): continue
                compare([("names replaced by %s" % what, [("t.c", " ".join(table.get(t, t) for t in ts))], None)], shape(base, lambda w: table.get(w, w)), flag, True)
            if every:       # each name alone
                for u in users:
                    v = RENAMES["longer names"](u)
                    if v in users: continue
                    compare([("%s replaced by %s" % (u, v), [("t.c", " ".join(v if t == u else t for t in ts))], None)], shape(base, lambda w: v if w == u else w), flag, True)
    return states, total, bad


def debug_build(item):
    """the debug build, and other leftovers in memory"""
    name, s, _ = item
    out, n, bad = {}, 0, []
    for flag in TARGETS:
        res = []
        for mode in ("rel", "perturbed") + (("dbg",) if flag != "-MIPS" else ()):      # that generator's assertions state what it does not support yet
            r = vlib.worker_ruc("rel", {"MALLOC_PERTURB_": "173"}) if mode == "perturbed" else vlib.worker_ruc(mode)
            x = r.run(*req([("t.c", s)], flag), 5000)
            if x.timeout: x = r.run(*req([("t.c", s)], flag), 60000)
            res.append((x.code, x.outs[0] if x.code == 0 else None))
        n += len(res) - 1
        if res[0][0] != 0: continue
        for k, what in ((1, "other contents of fresh memory"), (2, "the debug build")):
            if k < len(res) and res[k] != res[0]: bad.append(("%s: %s gives other code (%s)" % (name, what, flag), "==> t.c\n%s\nruc %s t.c -o o\n" % (s, flag)))
    return 1, n, bad


def explore(fn, items, label):
    n = fails = used = 0
    for states, total, bad in vlib.pmap(fn, items):
        c.count(states, total, total)
        n += total
        used += states > 0
        for what, replay in bad:
            fails += 1
            if fails <= 20: c.violation("[%s] %s" % (label, what), replay)
    c.note(label, "%d programs, %d transformations" % (used, n))


vlib.rucd("rel")
vlib.rucd("dbg")
progs = [(n, s, len(s) < (3000 if T else 500)) for n, s in corpus.programs()]
explore(one, progs, "layout, names and files")
explore(debug_build, progs, "builds and memory")
sys.exit(c.finish())
