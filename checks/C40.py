#!/usr/bin/env python3
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, pp

c = vlib.Check("C40")
PRE = ["#define D 1"]


def numbered(seq, tag):
    return pp.Case([s.replace("T", "t%d D U" % i) if s == "T" else s for i, s in enumerate(seq)] + ["z D U"], tag=tag)


# every sequence of lines, balanced or not
A = ["T", "#if 0", "#if 1", "#ifdef D", "#ifndef D", "#elif 0", "#elif 1", "#else", "#endif", "#define D 1", "#undef D"]
B = ["T", "M", "#if 1", "#if 0", "#else", "#endif", "#while 0", "#endw", "#macro M", "#endm"]


def sequences(alphabet, n):
    for k in range(1, n + 1): yield from itertools.product(alphabet, repeat=k)


# every balanced nest of up to n lines
HEADS = ["#if 0", "#if 1", "#ifdef D", "#ifndef D"]


def balanced(n):
    def groups(k):
        """line sequences of exactly k lines"""
        if k == 0:
            yield ()
            return
        for rest in groups(k - 1): yield ("T",) + rest
        for size in range(2, k + 1):
            for b in block(size):
                for rest in groups(k - size): yield b + rest

    def block(k):
        for h in HEADS: yield from arms(k - 1, (h,))

    def arms(k, done):
        for size in range(0, k):
            for g in groups(size):
                if size + 1 == k: yield done + g + ("#endif",)
                for nx in ("#elif 0", "#elif 1"):
                    if k - size - 1 >= 1: yield from arms(k - size - 1, done + g + (nx,))
                if k - size - 1 >= 1:
                    for g2 in groups(k - size - 2): yield done + g + ("#else",) + g2 + ("#endif",)
    yield from groups(n)


# text that is skipped: whatever it is, it changes nothing
JUNK = ["#define D 2", "#define E 1", "#undef D", "#set D 5", "#include \"no such file\"", "#if )(", "#if\n#endif", "#if 1 /\n#else\n#endif", "#ifdef 5\n#endif",
        "#bogus", "# bogus x", "it's", "a \" b", "/* #endif */", "// #endif", "/* one\n#endif\n#else */", "x \\\n#endif", "\"#endif\"", "#define F( x", "#eval 1 +", "#eval", "#line 7",
        "#while )(\n#endw", "#while 1\n#endw", "#macro Q\n#undef D\n#endm", "#macro Q(x\n#endm", "#macro\n#endm", "D(", "D ##", "#", "# 5", "привет #endif", "#if 1\n#if 0\n#elif 1\n#endif\n#endif"]
FRAMES = [["#if 0", "J", "#endif"], ["#if 1", "T", "#else", "J", "#endif"], ["#if 0", "J", "#else", "T", "#endif"], ["#if 0", "J", "#elif 1", "T", "#endif"], ["#if 0", "T", "#elif 0", "J", "#else", "T", "#endif"],
          ["#if 1", "T", "#elif 1", "J", "#else", "J", "#endif"], ["#ifdef U", "J", "#endif"], ["#ifndef D", "J", "#else", "T", "#endif"], ["#ifdef D", "T", "#else", "J", "#endif"],
          ["#if 0", "#if 1", "J", "#endif", "J", "#else", "T", "#endif"], ["#if 0", "#ifdef D", "T", "#else", "J", "#endif", "#elif 1", "T", "#endif"], ["#while 0", "J", "#endw"], ["#while 0", "#if 1", "J", "#endif", "#endw", "T"]]


def junk():
    for f in FRAMES:
        spots = [i for i, s in enumerate(f) if s == "J"]
        for js in itertools.product(JUNK, repeat=1):
            for spot in spots:
                L = list(PRE)
                for i, s in enumerate(f):
                    if s == "J": L += (js[0] if i == spot else "skipped").split("\n")
                    else: L.append("t%d D E U" % i if s == "T" else s)
                yield L + ["z D E U"]


# conditions: numbers, names, macros, expressions; the first that holds decides
CONDS = ["0", "1", "5", "-1", "U", "D", "E", "E + 0", "D - 1", "Z", "F(0)", "F(1)", "(0)", "!U", "!D", "D == 1", "D == 2", "'a'", "0x0", "0 // 1", "1 /* 0 */", "D \\\n- 1"]
DEFS = ["#define D 1", "#define E", "#define Z 0", "#define F(x) x"]


def conditions():
    for a, b in itertools.product(CONDS, repeat=2):
        yield DEFS + ["#if " + a, "t1", "#elif " + b, "t2", "#else", "t3", "#endif", "z"]
    for n in ("D", "E", "Z", "F", "U", "DD", "d", "Д"):
        for k in ("ifdef", "ifndef"):
            yield DEFS + ["#%s %s" % (k, n), "t1", "#else", "t2", "#endif", "z"]
            yield DEFS + ["#undef D", "#%s %s" % (k, n), "t1", "#elif 1", "t2", "#endif", "z"]


# spelling: every documented name of a directive, white space and comments around it
BASE = ["#define D 1", "#if 0", "t1", "#elif D", "t2", "#else", "t3", "#endif", "#ifdef D", "t4", "#else", "t5", "#endif", "#ifndef D", "t6", "#endif", "#undef D", "#ifdef D", "t7", "#endif", "#ifndef D", "t8", "#endif", "z"]


def spellings():
    deco = [lambda d, r: "  #" + d + r, lambda d, r: "\t# " + d + r, lambda d, r: "/* c */ #" + d + r, lambda d, r: "# /* c */ " + d + r, lambda d, r: "#" + d + " /* c */" + r, lambda d, r: "#" + d + r + " // c",
            lambda d, r: "#" + d + r + "\t", lambda d, r: "#" + d + " " + r + " /* two\n lines */", lambda d, r: "#\\\n" + d + r, lambda d, r: "#" + d + " \\\n" + r]
    for i, ln in enumerate(BASE):
        if ln[0] != "#": continue
        d, _, r = ln[1:].partition(" ")
        r = " " + r if r else ""
        for v in pp.NAMES[d]:
            for w in (v, v.upper()): yield BASE[:i] + ["#" + w + r] + BASE[i + 1:]
        for f in deco: yield BASE[:i] + f(d, r).split("\n") + BASE[i + 1:]
    for ru in (0, 1):
        for up in (0, 1):
            yield ["#" + (lambda w: w.upper() if up else w)(pp.NAMES[l[1:].split()[0]][ru]) + l[1 + len(l[1:].split()[0]):] if l[0] == "#" else l for l in BASE]


def depth():
    for n in list(range(1, 40)) + [64, 100, 200]:
        for inner in ("#if 0", "#if 1"):
            L = []
            for i in range(n): L += [inner if i == n // 2 else "#if 1", "a%d" % i]
            for i in range(n): L += ["#else", "b%d" % i, "#endif"]
            yield L + ["z"]


def many_arms():
    for n in range(1, 25):
        for k in range(n + 1):
            L = []
            for i in range(n): L += ["#%s %d" % ("elif" if i else "if", i == k), "t%d" % i]
            yield L + ["#else", "e", "#endif", "z"]


C = ["T D", "#if 0", "#if 1", "#elif 1", "#else", "#endif"]
pp.explore(c, itertools.product(C, repeat=6 if c.thorough else 5), lambda s: numbered(s, "branches"), label="all branch sequences", size=400)
pp.explore(c, sequences(A, 5 if c.thorough else 4), lambda s: numbered(s, "conditional lines"), label="all line sequences", size=400)
pp.explore(c, sequences(B, 5 if c.thorough else 4), lambda s: numbered(s, "blocks"), label="all block sequences", size=400)
pp.explore(c, (s for n in range(5, 9 if c.thorough else 7) for s in balanced(n)), lambda s: numbered(s, "nest"), label="balanced nests", size=400)
for name, g in (("skipped text", junk), ("conditions", conditions), ("spellings", spellings), ("deep nests", depth), ("many branches", many_arms)):
    pp.explore(c, g(), lambda L: pp.Case(L, tag=name), label=name)
c.assumptions += ["the text that is kept is compared token by token through `ruc -E`"]
sys.exit(c.finish())
