#!/usr/bin/env python3
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, pp

c = vlib.Check("C41")

# every history of definitions over two names, the text probing both names after every step
NAMES = [("A", "AB"), ("А", "A"), ("x", "X"), ("f1", "f"), ("_", "__"), ("имя", "имя2"), ("define", "include")]
OPS = ["#define P 1", "#define P", "#define Q 2", "#define P Q", "#define Q P", "#set P 3", "#set Q 4 5", "#undef P", "#undef Q", "#define P(x) x 6", "#macro P\n7 Q\n#endm", "#set P #eval P + 1", "#ifdef P\n#undef P\n#endif"]


def histories(n):
    for k in range(1, n + 1):
        for h in itertools.product(range(len(OPS)), repeat=k): yield ("P", "Q"), h, True
    for names in NAMES:
        for k in range(1, n):
            for h in itertools.product(range(len(OPS)), repeat=k): yield names, h, False


def make(seed):
    (p, q), h, each = seed
    L = []

    def name(s): return s.replace("P", "\1").replace("Q", "\2").replace("\1", p).replace("\2", q)
    for i, o in enumerate(h):
        L += name(OPS[o]).split("\n")
        L.append(name("k%d P(0) Q PQ QP 1P P1 'P' \"Q\" // P" % i) if each else name("k%d P(0) Q // Q" % i))
    return pp.Case(L, tag="history", warn=True)


# tables: n names, some of them removed, some defined again: every name has its latest replacement
def name(i, kind):
    if kind == 0: return "N%d" % i
    if kind == 1: return "".join("abcdefghij"[int(d)] for d in "%d" % i)
    if kind == 2: return "я" * (i % 7 + 1) + "abc"[i % 3] * (i // 7 + 1)
    return "L%s%d" % ("o" * 20, i)


def tables(thorough):
    for n in [1, 2, 3, 5, 8, 13, 21, 34, 55] + ([89, 144, 233, 500, 1000] if thorough else [144]):
        for kind in range(4):
            for step in (1, 2, 3, 5, 7):
                for again in ("none", "define", "set", "both"):
                    L = ["#define %s v%d" % (name(i, kind), i) for i in range(n)]
                    gone = list(range(0, n, step))
                    if again != "set": L += ["#undef " + name(i, kind) for i in gone]
                    if again in ("define", "set", "both"): L += ["#%s %s w%d %s" % ("set" if again == "set" else "define", name(i, kind), i, "long" * (i % 5)) for i in gone]
                    if again == "both": L += ["#set %s" % name(i, kind) for i in range(1, n, 2)]
                    yield L + ["%s;" % name(i, kind) for i in range(n)]


# replacements: any text, of any length, kept as it is written
TEXTS = ["a", "a b", " a  b ", "a\tb", "\"s \\\" t\" 'c'", "1.5e-3 0x1F", "( ) [ ] { } ; , .", "+ - * / % << >> <= >= == != && || ! ~ & | ^ = += ?:", "привет мир", "/* c */ x // y", "x /* c */ y", "a \\\n b", "", "a-b", "a - b", "// only", "\"//\" '\"' \"/*\"", "if (a) { b; }", "P1 P2", "漢字 é"]


def texts():
    for t in TEXTS:
        for use in ("P", "x P y", "P P", "(P)", "P;P", "-P+P", "P\n\nP"):
            for d in ("define", "set"):
                yield ["#%s P %s" % (d, t)] + ("%s z" % use).split("\n")
        yield ["#macro P", *t.split("\n"), "#endm", "x P y"]
    for n in (1, 10, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4000):
        yield ["#define P " + "q" * n, "P x P"]
        yield ["#define %s 5" % ("q" * n), "q" * n + " x " + "q" * (n - 1) + "; " + "q" * (n + 1)] if n < 1000 else ["x"]
        yield ["#define P " + " ".join(["ab"] * (n // 3)), "P"]
    for n in range(1, 60): yield ["#define P%d P%d" % (i, i + 1) for i in range(n)] + ["P%d P0" % (n - 1)]
    for n in range(1, 9): yield ["#define P0 x"] + ["#define P%d P%d P%d" % (i, i - 1, i - 1) for i in range(1, n)] + ["P%d" % (n - 1)]


# wrong directives
BAD = ["#define", "#define 5 x", "#define \"a\" x", "#define + x", "#set", "#set 5", "#undef", "#undef 7", "#define P( x", "#define P(5) x", "#define P(x x) y", "#define P(x,x) y", "#define P(x y", "#define P # x", "#define P a #", "#define P a # b", "#define P ## a", "#define P a ##", "#define P a ## b"
       , "#define P(x) a ## b", "#define P(x) # b", "#define P \"a", "#define P 'a", "#define P P\nP", "#define P Q\n#define Q P\nP", "#define P(x) P(x)\nP(1)", "#macro", "#macro 5\n#endm", "#macro P", "#endm", "#macro P\nP\n#endm\nP", "#bogus", "#", "# 5", "x # y", "#define P x\n#P"]


def bad():
    for b in BAD:
        for pre in ([], ["#define Z 1"]):
            yield pre + b.split("\n") + ["z Z"]


# definitions given to the next source file and on the command line
def several():
    for h in itertools.product(range(len(OPS)), repeat=2):
        a, b = (OPS[o].split("\n") for o in h)
        yield pp.Case(files={"a.c": a + ["a P(0) Q"], "b.c": b + ["b P(0) Q"]}, mains=("a.c", "b.c"), tag="two files")
        yield pp.Case(files={"a.c": a + ["a P(0) Q"], "b.c": b + ["b P(0) Q"]}, mains=("b.c", "a.c"), tag="two files")
    for o in OPS:
        for f in (("-DP=8",), ("-DP",), ("-DP=8", "-DQ=9"), ("-DQ=P", "-DP=a+b"), ("-DQ", "-DP=\"s\""), ("-DИмя=1", "-DP=Имя"), ("-DP=",)):
            yield pp.Case(["x P(0) Q Имя"] + o.split("\n") + ["y P(0) Q Имя"], tag="command line", flags=f)


pp.explore(c, histories(4 if c.thorough else 3), make, label="histories", size=200)
for label, g in (("tables", tables(c.thorough)), ("replacements", texts()), ("wrong directives", bad())):
    pp.explore(c, g, lambda L: pp.Case(L, tag=label), label=label, size=25)
pp.explore(c, several(), label="several files", size=25)
sys.exit(c.finish())
