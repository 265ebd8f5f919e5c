#!/usr/bin/env python3
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, pp

c = vlib.Check("C45")
T = c.thorough


# every include graph of n files with up to k includes each, cycles and self-inclusion too
def graphs(n, k):
    edges = [e for j in range(k + 1) for e in itertools.product(range(n), repeat=j)]
    yield from itertools.product(edges, repeat=n)


def graph(g):
    files = {}
    for i, out in enumerate(g):
        L = ["n%d begin X" % i]
        for j in out: L += ["#include \"%s\"" % ("t.c" if j == 0 else "h%d.h" % j), "n%d X" % i]
        files["t.c" if i == 0 else "h%d.h" % i] = ["#ifndef X", "#define X %d" % i, "#endif"] * (i == 1) + ["#set X x%d" % i] * (i == 2) + L
    return pp.Case(files=files, tag="graph")


# where a header is found: every set of places it exists in, both forms, every order of directories
def places():
    spots = ["", "sub/", "d1/", "d2/", "d1/sub/"]
    for here in itertools.product((0, 1), repeat=len(spots)):
        files = {s + "h.h": ["found in %s" % (s.replace("/", " slash ") or "main")] for s, e in zip(spots, here) if e}
        files.update({s + "other": [] for s in spots})      # every directory is there
        for dirs in ((), ("d1",), ("d2",), ("d1", "d2"), ("d2", "d1"), ("d1/sub", "d2"), ("sub", "d2"), ("d1", "d1", "sub")):
            for q in ("\"%s\"", "<%s>"):
                for frm in ("main", "sub/m.h", "d1/m.h", "d2/m.h"):
                    for name in ("h.h", "sub/h.h"):
                        inc = "#include " + q % name
                        f = dict(files)
                        if frm == "main": f["t.c"] = [inc, "end"]
                        else:
                            f[frm] = ["in m", inc, "out m"]
                            f["t.c"] = ["#include \"%s\"" % frm, "mid", inc, "end"]
                        yield pp.Case(files=f, dirs=dirs, tag="places")


# the same file under different spellings of its path is inserted once; different files are not confused
SPELL = ["h.h", "./h.h", "d/../h.h", ".//h.h", "d/h.h", "d//h.h", "./d/./h.h", "d/e/../h.h", "hh.h", "H.h", "h.h.h", "h", "d/e/h.h"]


def spellings():
    base = {"h.h": ["one"], "d/h.h": ["two"], "d/e/h.h": ["three"], "hh.h": ["four"], "H.h": ["five"], "h.h.h": ["six"], "h": ["seven"], "с пробелом.h": ["восемь"]}
    for a, b in itertools.product(SPELL, repeat=2):
        for qa, qb in itertools.product(("\"%s\"", "<%s>"), repeat=2):
            if qa[0] == "<" and "//" in a or qb[0] == "<" and "//" in b: continue       # a comment or a name: C leaves it open
            yield pp.Case(files=dict(base, **{"t.c": ["#include " + qa % a, "mid", "#include " + qb % b, "end"]}), tag="spellings")
        yield pp.Case(files=dict(base, **{"t.c": ["#include \"d/m.h\"", "#include \"%s\"" % b, "end"], "d/m.h": ["m", "#include \"../%s\"" % a, "m"]}), tag="spellings")
    for n in  ("с пробелом.h", " h.h", "h.h ", "", ".", "d", "d/", "нет.h", "h.c", "../t.c", "t.c"):
        for q in ("\"%s\"", "<%s>"): yield pp.Case(files=dict(base, **{"t.c": ["#include " + q % n, "end"]}), tag="spellings") if n not in ("", ".", "d", "d/", "../t.c") else None


def depth():
    for n in (1, 2, 5, 10, 30, 31, 32, 33, 34, 40):
        for extra in (0, 1, 2):
            files = {"h%d.h" % i: ["h%d" % i, "#include \"h%d.h\"" % (i + 1), "h%d end" % i] for i in range(1, n)}
            files["h%d.h" % n] = ["last"]
            files["t.c"] = ["#include \"h1.h\""] + ["#include \"h%d.h\"" % n] * extra + ["end"]
            yield pp.Case(files=files, tag="depth")
    for n in (1, 10, 50, 100, 200):
        files = {"h%d.h" % i: ["h%d" % i, "#define D%d" % i] for i in range(n)}
        files["t.c"] = [s for i in range(n) for s in ("#include \"h%d.h\"" % i, "D%d x%d" % (i, i))] * 2
        yield pp.Case(files=files, tag="many")


# what the header contains and how the line is written
BODIES = [[], [""], ["x"], ["#define A 5"], ["#undef A"], ["A"], ["#if 0", "no", "#else", "yes", "#endif"], ["#if 1"], ["#endif"], ["#else"], ["#macro M", "m A", "#endm"], ["#while A", "w", "#set A #eval A - 1", "#endw"], ["// c"], ["/* c", "*/ x"], ["\"s\"", "'c'"], ["x \\", "y"],
          ["#include \"b.h\""], ["#include \"no.h\""], ["#bogus"], ["F(1"], ["F", "(1)"], ["int я;"], ["#ifndef G", "#define G", "guarded", "#endif"], ["#macro Q"], ["#endm"], ["#while 0"], ["\""], ["x y", "", "", "z"]]
LINES = ["#include \"a.h\"", "#include <a.h>", "#include\"a.h\"", "# include \"a.h\"", "  #include \"a.h\"  ", "#include \"a.h\" // c", "#include /* c */ \"a.h\"", "#include \"a.h\" x", "#include", "#include a.h", "#include \"a.h", "#include <a.h", "#include \"a.h>", "#include N", "#include \"\"" if False else "#include 5",
         "#подключить \"a.h\"", "#ПОДКЛЮЧИТЬ <a.h>", "#INCLUDE \"a.h\"", "#Include \"a.h\"", "#if 0\n#include \"no.h\"\n#endif", "#if 1\n#include \"a.h\"\n#endif", "#macro K\n#include \"a.h\"\n#endm", "#define K #include \"a.h\"\nK", "x #include \"a.h\"", "#include \\\n\"a.h\"", "#while 0\n#include \"no.h\"\n#endw", "#define i 2\n#while i\n#include \"a.h\"\n#set i #eval i - 1\n#endw"]


def contents():
    for body in BODIES:
        for ln in LINES:
            for ending in ("\n", ""):
                files = {"t.c": ["#define A 2", "#define F(x) {x}", "#define N \"a.h\"", "before A"] + ln.split("\n") + ["after A M F(2)", "#include \"b.h\"", "end"], "a.h": body, "b.h": ["b A"]}
                yield pp.Case(files=files, tag="contents", ending=ending)


def mains():
    for order in itertools.permutations(("a.c", "b.c", "d/c.c")):
        for inc in itertools.product(range(4), repeat=3):
            names = ["a.c", "b.c", "d/c.c"]
            tgt = {"a.c": ["a.c", "b.c", "d/c.c"], "b.c": ["a.c", "b.c", "d/c.c"], "d/c.c": ["../a.c", "../b.c", "c.c"]}
            files = {n: ["begin %d" % k] + (["#include \"%s\"" % tgt[n][i]] if i < 3 else ["#include \"h.h\""]) + ["end %d A" % k] for k, (n, i) in enumerate(zip(names, inc))}
            files.update({"h.h": ["top h", "#define A 1"], "d/h.h": ["d h", "#define A 2"]})
            yield pp.Case(files=files, mains=order, tag="several sources")


pp.explore(c, graphs(3, 2), graph, label="include graphs of 3 files", size=100)
pp.explore(c, graphs(4, 2 if T else 1), graph, label="include graphs of 4 files", size=100)
if T: pp.explore(c, graphs(3, 3), graph, label="include graphs, three includes each", size=100)
pp.explore(c, graphs(2, 5), graph, label="include graphs of 2 files", size=100)
for label, g in (("places", places()), ("spellings", (x for x in spellings() if x)), ("depth and number", depth()), ("contents", contents()), ("several sources", mains())): pp.explore(c, g, label=label, size=50)
sys.exit(c.finish())
