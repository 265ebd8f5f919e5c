#!/usr/bin/env python3
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, pp

c = vlib.Check("C43")
T = c.thorough
PRE = ["#define A 5", "#define B (A + 1)", "#define M -3", "#define E", "#define Z 0", "#define P +", "#define L (", "#define F(x, y) ((x) * (y))", "#define S 2 + 3", "#define H 0x1f", "#define Q 'q'"]


def status(e):
    r = pp.Reference({"t.c": PRE + ["#eval " + e]})
    try: r.run("t.c")
    except pp.Err: return "error"
    except pp.Unspecified: return "any"
    return "ok"


def make(exprs):
    """accepted expressions share a file, every refused one has its own"""
    good, out = [], []
    for e in exprs:
        if status(e) == "ok": good.append(e)
        else: out.append(case([e]))
    return out + [case(good[i:i + 50]) for i in range(0, len(good), 50)]


def case(es):
    L = list(PRE)
    for e in es: L.append("#eval " + e)
    if len(es) < 3: L += ["#if " + es[0], "yes", "#else", "no", "#endif"]
    return pp.Case(L + ["z"], tag="expressions")


BIN = ["*", "/", "%", "+", "-", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "^", "|", "&&", "||"]
UN = ["-", "+", "~", "!"]


def sequences(n):
    for k in range(1, n + 1):
        for t in itertools.product(["1", "0", "-", "!", "+", "*", "<", "&&", "(", ")", "X", "A"], repeat=k): yield " ".join(t)


def glued(n):
    for k in range(1, n + 1):
        for t in itertools.product("10-+*/<>=!&|(~ A.'", repeat=k):
            e = "".join(t)
            if "//" in e or "/*" in e or not e.strip() or "'" in e.replace("'1'", "").replace("'0'", "").replace("'A'", "") : continue
            yield e


VALS = ["0", "1", "2", "3", "7", "-1", "-2", "-7", "63", "2147483647", "-2147483648", "4294967296", "9223372036854775807", "(-9223372036854775807 - 1)", "X", "A", "B", "M", "'a'", "0xff"]


def pairs():
    for a, op, b in itertools.product(VALS, BIN, VALS): yield "%s %s %s" % (a, op, b)


def triples():
    for o1, o2 in itertools.product(BIN, repeat=2):
        for a, b, d in itertools.product(["0", "1", "2", "5", "12"], ["1", "3", "8"], ["0", "1", "2", "6"]):
            yield "%s %s %s %s %s" % (a, o1, b, o2, d)
            yield "(%s %s %s) %s %s" % (a, o1, b, o2, d)
            yield "%s %s (%s %s %s)" % (a, o1, b, o2, d)


def quads():
    for ops in itertools.product(BIN, repeat=3):
        for v in (("7", "2", "5", "3"), ("0", "1", "4", "2"), ("-9", "4", "1", "6")): yield "%s %s %s %s %s %s %s" % tuple(x for p in zip(v, ops + ("",)) for x in p)[:7]


def quints():
    reps = ["*", "-", "<<", "<", "==", "&", "^", "|", "&&", "||", "/", "%"]
    for ops in itertools.product(reps, repeat=4):
        v = ("9", "2", "3", "1", "2")
        yield " ".join(x for p in zip(v, ops + ("",)) for x in p)


def unaries(n):
    for k in range(0, n + 1):
        for us in itertools.product(UN, repeat=k):
            for v in ("0", "1", "5", "A", "M", "X", "(3)", "(2 + 1)", "'b'"):
                yield " ".join(us + (v,))
                if k and k < 3:
                    for op in BIN:
                        yield "2 %s %s" % (op, " ".join(us + (v,)))
                        yield "%s %s 2" % (" ".join(us + (v,)), op)


def trees():
    def shapes(lo, hi):
        if hi - lo == 1:
            yield "v%d" % lo
            return
        for m in range(lo + 1, hi):
            for x in shapes(lo, m):
                for y in shapes(m, hi): yield "(%s o%d %s)" % (x, m, y)
    for n in (2, 3, 4, 5):
        for s in shapes(0, n):
            for ops in itertools.product(["+", "-", "*", "<<", "<", "&&"] if n < 5 else ["-", "*", "<"], repeat=n - 1):
                e = s
                for i, o in enumerate(ops): e = e.replace("o%d" % (i + 1), o)
                for i in range(n): e = e.replace("v%d" % i, str((7, 3, 2, 5, 1)[i]))
                yield e
                yield e[1:-1]


def literals():
    nums = ["0", "00", "1", "7", "8", "9", "10", "012", "08", "123456789", "2147483648", "9223372036854775807", "0x0", "0x1F", "0Xab", "0xFFFFFFFFFFFFFFFF", "0x7fffffffffffffff", "0x", "0xg", "0b0", "0b1011", "0B11", "0b", "0b2", "0b12", "0o17", "0O7", "0o8", "0o", "0d19", "0D5", "0d", "0da",
            "1.5", "1.", ".5", "1e5", "1E3", "1e", "1a", "1_", "1я", "0x1.", "5x", "0b101x"]
    suf = ["", "u", "U", "l", "L", "ll", "LL", "ul", "UL", "uL", "Ul", "lu", "LU", "ull", "ULL", "llu", "LLU", "lul", "uu", "lll", "ulu", "f", "F", "i"]
    for n in nums:
        for s in suf if n in ("0", "1", "10", "0x1F", "0b1011", "0o17") else [""]:
            for f in ("%s", "%s + 1", "-%s", "(%s)", "%s*2", "2*%s", "1+%s+1", "%s ", "\t%s // c", "/* c */%s/* c */"): yield f % (n + s)
    for ch in ("'a'", "'0'", "' '", "'я'", "'\"'", "''", "'ab'", "\"a\"", "'a", "a'", "\"", "'(' + ')'", "'a' - 'A'", "'a' == 97", "'Ю' > 'А'"):
        for f in ("%s", "%s + 1", "-%s", "(%s)"): yield f % ch
    for w in ("", "@", "$", "?", "1 ? 2 : 3", ":", ";", "1;", ",", "1, 2", "[1]", "{1}", "\\", "#", "# 1", "1 #", "a b", "a.b", "1 2", "f()", "X()", "A()", "F(2, 3)", "F(2)", "F", "F(1, 2, 3)", "F((1), 2) * 2", "F(A, B) - F(M, S)", "S * 2", "2 * S", "B * B", "E", "E 1", "1 E", "1 E + E 1", "1 P 2", "P 1",
              "L 1)", "(L 1))", "M", "-M", "--M", "- M", "1-M", "1--M", "H", "H + 1", "-H", "Q", "Q + 1", "HH", "H H", "#eval", "defined A", "==", "= 1", "1 = 1", "1 += 1", "1 ++ 1", "1 + + 1", "1 - - 1", "1 -- 1", "! 1", "!!1", "! = 1", "1 ! = 1", "1 < < 2", "1 <<= 2", "1 & & 1", "1 &&& 1", "1 ||| 1", "1 | | 1"):
        yield w
        yield "(%s)" % w


def deep():
    for n in (1, 2, 10, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129):
        yield "(" * n + "7" + ")" * n
        yield "(" * n + "7" + ")" * (n - 1)
        yield "(" * n + "7" + ")" * (n + 1)
        yield "- " * n + "7"
        yield "!" * n + "7"
        yield "~ - " * n + "7"
        yield "1 + " * n + "1"
        yield "".join("%d - (" % i for i in range(n)) + "1" + ")" * n
        yield "1" + " * 1 + 1" * n
        yield "".join("(%d + " % i for i in range(n)) + "0" + ") * 1" * n
        yield " || ".join(["0 && 1 | 2 ^ 3 & 4 == 5 < 6 << 1 + 2 * 3"] * n) if n < 130 else "1"


for label, g in (("token sequences", sequences(5 if T else 4)), ("glued characters", glued(4 if T else 3)), ("operator pairs of values", pairs()), ("two operators", triples()), ("three operators", quads()), ("four operators", quints()),
                 ("prefix operators", unaries(5 if T else 4)), ("brackets", trees()), ("literals and tokens", literals()), ("deep expressions", deep())):
    pp.explore(c, vlib.chunks(g, 8 if label == "deep expressions" else 200), make, label=label, size=1)
sys.exit(c.finish())
