#!/usr/bin/env python3
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, pp

c = vlib.Check("C42")
T = c.thorough
PRE = ["#define a 1", "#define AB 7", "#define E", "#define G(x) <x>", "#define H(x,y) [y|x]"]

# every replacement of up to n tokens over the parameters, their stringised and glued forms, macros and text
BODY = ["X", "Y", "#X", "##X", "##Y", "A", "AB", "\"X\"", "(", ")", ",", "+", "1", "G"]
ARGS = [("B", "2"), ("", ""), ("a", "b"), ("AB", "a"), ("(1,2)", "[]"), ("\"s, \\\" )\"", "')'"), ("a b", "  c\td "), ("G(1)", "H(1,2)"), ("E", "X"), ("F", "Y"), ("1e+5", "-1"), ("G", "(3)")]


def bodies(n):
    for k in range(0, n + 1):
        for b in itertools.product(BODY, repeat=k): yield b


def balanced(b):
    d = 0
    for t in b:
        d += (t == "(") - (t == ")")
        if d < 0: return False
    return d == 0


def body_case(b):
    L = PRE + ["#define F(X,Y) " + " ".join(b).replace(" ##", "##") + " ;"]
    bad = not balanced(b)
    for x, y in ARGS[:4] if bad or len(b) > 2 else ARGS: L.append("F(%s,%s)" % (x, y))
    if len(b) > 2 and not bad: L += ["F(%s,%s)" % p for p in ARGS[4:]]
    return pp.Case(L + ["z"], tag="body")


# replacements written without white space: tokens never merge
TIGHT = ["X", "-", "+", "1", "a", "N", "G(1)", "I(X)", "&", "\"s\"", "(X)", "O", ".", "I(1)", "=", "<"]


def tight(n):
    for k in range(1, n + 1):
        for t in itertools.product(TIGHT, repeat=k): yield "".join(t)


def tight_case(b):
    return pp.Case(PRE + ["#define N -1", "#define I(x) x", "#define O()", "#define F(X) " + b, "#define W I(F(-1))F(2)F(a)"] + ["F(%s)%s" % (x, t) for x, t in (("1", "1"), ("-", "-"), ("a", "F(a)"), ("", "+"), ("N", "N"), (" x ", ""))] + ["W", "-W", "I(N)-I(-N)I(1)1I(a)a a()a"], tag="tight")


# every argument list text over an alphabet of characters
ARGT = ["1", "a", ",", "(", ")", "\"", "'", " ", "\n", "G", "/**/", "[", "\\\n", "#", "я"]


def lists(n):
    for k in range(0, n + 1):
        for t in itertools.product(ARGT, repeat=k): yield "".join(t)


def list_cases(t):
    return pp.Case(PRE + ["#define F(x,y) {x;y;#x}", "#define K(x) {x}"] + ("F(%s) K(%s) z" % (t, "")).split("\n") + ["w"], tag="arguments")


def list1_cases(t):
    return pp.Case(PRE + ["#define K(x) {x;#x}"] + ("K(%s) z" % t).split("\n") + ["w"], tag="one argument")


# calls: how many arguments, where the bracket is
def shapes():
    for n in range(0, 12):
        ps = ["p%d" % i for i in range(n)]
        head = "#define F(%s) %s" % (",".join(ps), " ".join("%s;" % p for p in reversed(ps)))
        for m in range(0, 14):
            yield [head, "F(%s) z" % ",".join("v%d" % i for i in range(m))]
        yield [head, "F(%s) z" % "\n,\n".join("v%d" % i for i in range(n))]
        yield [head, "F(%s) z" % ",".join("F" for i in range(n))]
        for sep in (" ", "\t", "\n", " /* c */ ", " // c\n", "\\\n", "x", ";", "+"): yield [head] + ("F%s(%s) z" % (sep, ",".join("v%d" % i for i in range(n)))).split("\n")
        yield [head, "F"]
        yield [head, "F(", "z"]
        yield [head, "F z"]
        yield ["#macro F(%s)" % ",".join(ps)] + [p for p in ps] + ["#endm", "F(%s) z" % ",".join("v%d" % i for i in range(n))]
    for seq in itertools.product(["F(1)", "F(2)+", "x", "O", "E", "F(O)", "F(F(1))", "O(1)", "O()"], repeat=3):
        yield ["#define F(x) {x}", "#define O o", "#define E"] + [" ".join(seq)]
        yield ["#define F(x) {x}", "#define O o", "#define E"] + ["\n".join(seq)]
        yield ["#define F(x) {x}", "#define O o", "#define E"] + ["".join(s + ";" for s in seq)]


# every tree of nested calls of a two-parameter macro up to a depth
def trees(depth, leaves=("1", "a", "", "(2,3)", "E")):
    if depth == 0: return list(leaves)
    sub = trees(depth - 1, leaves[:3] if depth > 1 else leaves)
    return list(leaves) + ["G(%s)" % x for x in sub] + ["H(%s,%s)" % (x, y) for x in sub for y in sub]


# macros that call each other: every small call graph, acyclic or not (a text that is made a string again and again doubles, so those calls go on)
CALLS = ["F%d(x)", "F%d(F%d(x))", "N%d x", "F%d(N%d)", "F%d(k##x)", "F%d(#x)", "F%d", "F%d()"]


def graphs():
    for n in (1, 2, 3):
        nodes = [[""] + [k.replace("%d", str(to)) for k in CALLS for to in range(n)] for i in range(n)]
        if n == 3: nodes = [[k for k in ks if k.count("F") < 2 and "()" not in k and (T or all(int(ch) > i for ch in k if ch.isdigit()))] for i, ks in enumerate(nodes)]
        for choice in itertools.product(*nodes):
            if any("(#x)" in k for k in choice) and any(int(ch) <= i for i, k in enumerate(choice) for ch in k if ch.isdigit()): continue
            L = []
            for i, k in enumerate(choice): L += ["#define F%d(x) {%d x %s}" % (i, i, k), "#define N%d <%d>" % (i, i) if i else "#define N0 " + choice[-1].replace("x", "0").replace("##", "").replace("#", "")]
            yield L + ["F0(q)", "N0", "z"]


def recursion():
    for n in (1, 2, 3, 10, 100, 250, 253, 254, 255, 256, 257, 258, 300, 400):
        L = ["#define M%d M%d" % (i, i + 1) for i in range(n)] + ["#define M%d end" % n]
        yield L + ["M0"]
        yield ["#define M%d(x) M%d(x)" % (i, i + 1) for i in range(n)] + ["#define M%d(x) x" % n, "M0(5)"]
        if n < 60: yield ["#define M%d(x) M%d(x x)" % (i, i + 1) for i in range(min(n, 10))] + ["#define M%d(x) x" % min(n, 10), "M0(5)"]
        if n <= 257: yield ["#define F(x) {x}", "F(" * n + "1" + ")" * n]
        yield ["#macro M%d(x)\nM%d(x)\n#endm" % (i, i + 1) for i in range(n)] + ["#define M%d(x) x" % n, "M0(5)"]
    for b in ("M", "M M", "M M M", "F(M)", "(M)", "N", "N N", "F(N) M"):
        yield ["#define F(x) x", "#define N M", "#define M " + b, "M", "z"]
        yield ["#define F(x) F(x) " + b, "#define N F(1)", "#define M N", "F(1)", "M", "z"]
        yield ["#define F(x) x", "#define N M", "#macro M", b, b, "#endm", "M", "z"]


# macros whose body is a group of lines
GROUPS = [["x"], ["x", "x y"], ["#if x", "t", "#else", "y", "#endif"], ["#define D x", "D", "#undef D"], ["#set S #eval S + x", "S"], ["#ifdef D", "x", "#endif"], ["#while S", "y", "#set S #eval S - 1", "#endw"],
          ["#eval x + 1"], ["F(x)"], ["G2(x, y)"], ["#macro IN(q)", "q x", "#endm", "IN(y)"], [], [""], ["  x  ", "", "y"], ["x \\", "y"], ["/* x", "*/ y"], ["// x", "y"], ["\"x\" 'y'"], ["x1 yx 1x"]]


def groups():
    for g in GROUPS:
        for h in [[]] + GROUPS[:8]:
            for x, y in (("1", "2"), ("S", "D"), ("0", ""), ("(1)", "F(3)"), ("1 + 1", "\"s\"")):
                L = ["#define S 3", "#define F(x) {x}", "#macro G2(p, q)", "<p;q>", "#endm", "#macro M(x,y)"] + g + h + ["#endm"]
                yield L + ["M(%s,%s)" % (x, y), "M(%s,%s) z M(5,6)" % (x, y), "S z"]


def flat(L): return [l for s in L for l in s.split("\n")]


pp.explore(c, bodies(4 if T else 3), body_case, label="replacements", size=40)
pp.explore(c, tight(4 if T else 3), tight_case, label="replacements without white space", size=40)
pp.explore(c, lists(5 if T else 4), list_cases, label="argument lists", size=400)
pp.explore(c, lists(4 if T else 3), list1_cases, label="single arguments", size=400)
for name, g in (("shapes of calls", shapes()), ("nested calls", ([*PRE, t, "z"] for t in trees(3 if T else 2))), ("call graphs", graphs()), ("chains and recursion", recursion()), ("groups of lines", groups())):
    pp.explore(c, g, lambda L: pp.Case(flat(L), tag=name), label=name, size=50)
sys.exit(c.finish())
