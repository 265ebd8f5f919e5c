#!/usr/bin/env python3
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, pp

c = vlib.Check("C44")
T = c.thorough

# every loop body of up to n lines; i counts up, j and k are changed by the bodies
LINES = ["i J k", "#set i #eval i + 1", "#set J #eval J - 1", "#if i % 2\nodd\n#else\neven\n#endif", "#while J > 0\ninner J\n#set J #eval J - 1\n#endw", "#undef k\n#define k i", "#macro M(x)\nx i\n#endm", "M(J) M(i)", "#ifdef M\n#undef M\n#endif", "#eval i * J", "#while 0\nnever\n#endw",
         "#set C #eval C && J"]


def nested(body, cond):
    return ["#define i 0", "#define J 2", "#define k z", "#define C 1", "#define M(x) [x]", "#while " + cond] + body + ["#endw", "end i J k C M(1)"]


def bodies(n):
    for k in range(0, n + 1):
        for b in itertools.product(LINES, repeat=k): yield b


def body_case(b):
    body = "\n".join(b).split("\n") if b else []
    # the count in the condition keeps every loop finite
    return pp.Case(["#define n 0"] + nested(body + ["#set n #eval n + 1"], "n < 3 && C"), tag="loop body")


def inside_macro(b):
    body = "\n".join(b).split("\n") if b else []
    body = [l for l in body]
    return pp.Case(["#define i 0", "#define J 2", "#define k z", "#define C 1", "#define M(x) [x]", "#macro L(n, q)", "<n q>", "#define t n", "#while t"] + body + ["#set t #eval t - 1", "#endw", "t q", "#endm", "L(2, a)", "L(1, i + 1) L(0, J)", "end i J k C"], tag="loop in a macro")


def flat(L): return [l for s in L for l in s.split("\n")]


# how many times: every start, step and bound
def counts():
    for a, s, b in itertools.product(range(-3, 5), (1, 2, 3, 5), range(-3, 8)):
        yield ["#define i (%d)" % a, "#while i < (%d)" % b, "i;", "#set i #eval i + %d" % s, "#endw", "i"]
    for a, b, d in itertools.product(range(4), repeat=3):
        yield ["#define i %d" % a, "#while i", "#set i #eval i - 1", "#define j %d" % b, "#while j", "#set j #eval j - 1", "#define k %d" % d, "#while k", "#set k #eval k - 1", "i j k;", "#endw", "#undef k", "#endw", "#undef j", "#endw", "end i"]
    for n in range(1, 12):
        L = []
        for i in range(n): L += ["#define v%d 2" % i, "#while v%d" % i, "#set v%d #eval v%d - 1" % (i, i)]
        L += ["leaf"]
        for i in reversed(range(n)): L += ["#undef v%d" % i, "#define v%d 0" % i, "#endw", "#undef v%d" % i]
        yield L + ["z"]


def limit():
    for n in (1, 2, 10, 100, 1000, 4096, 32767, 32768, 32769):
        yield ["#define i 0", "#while i < %d" % n, "#set i #eval i + 1", "#endw", "i"]
    for cond in ("1", "i", "!i", "i == 0", "-1", "5"):
        yield ["#define i 1", "#while " + cond, "#if i", "#set i 0", "#endif", "x", "#endw"] if cond == "i" else ["#define i 0", "#while " + cond, "#set i 1", "#if 0", "#endif", "#endw", "z"]


# conditions that change: every pair of condition and change
def conditions():
    conds = ["A", "A < 3", "A != B", "F(A)", "F(A) && B", "!E(A)", "A - 3", "(A) < (B)", "A == B || A < 2", "3 - A", "A * A < 10", "A /* c */ < 3", "A < 3 // c", "A \\\n< 3", "U", "1 2", "", ")", "A +"]
    changes = ["#set A #eval A + 1", "#set A 3", "#set A 0", "#undef A", "#set B #eval A - 1\n#set A #eval A + 2", "#set F(x) 0", "#define A 0", "#set A", "#if A == 2\n#set A 0\n#else\n#set A #eval A + 1\n#endif", "#set A #eval (A + 1) % 4"]
    for a in (0, 1, 2, 5):
        for cond, ch in itertools.product(conds, changes):
            yield ["#define A %d" % a, "#define B 3", "#define F(x) ((x) < 3)", "#define E(x) ((x) > 2)"] + ["#while " + cond, ch, "t A B", "#endw", "z A B"]


def condition(L):
    cs = pp.Case(flat(L), tag="conditions")
    r = pp.Reference(cs.files)
    r.LOOP = 40
    try: r.run("t.c")
    except pp.Err as e:
        if "passes" in str(e): return None      # endless loops are in another family
    except pp.Unspecified: pass
    return cs


# the documented way to write a table; directives around the loop
def places():
    loop = ["#while i < 3", "i", "#set i #eval i + 1", "#endw"]
    for pre, post in itertools.product((["#if 1"], ["#if 0"], ["#ifdef i"], ["#if 0", "x", "#else"], ["#macro M"], ["#while j", "#set j #eval j - 1", "#set i 0"], []), repeat=2):
        ends = {"#if 1": "#endif", "#if 0": "#endif", "#ifdef i": "#endif", "#macro M": "#endm", "#while j": "#endw"}
        L = ["#define i 0", "#define j 2", *pre, *post, "before", *loop, "after"]
        if post: L.append(ends[post[0]])
        if pre: L.append(ends[pre[0]])
        yield L + ["M", "z i j"]
    for bad in (["#while 1"], ["#while 0"], ["#endw"], ["#while 0", "#endif"], ["#if 1", "#while 0", "#endif", "#endw"], ["#while 0", "#if 1", "#endw", "#endif"], ["#while 0", "#else", "#endw"], ["#while", "#endw"], ["#while 0 1", "#endw"], ["#while )", "#endw"],
                ["#while 1", "x", "#endw"], ["#while 1", "#while 1", "#endw", "#endw"], ["#while 0", "#endw", "#endw"], ["#while 0", "#macro Q", "#endw", "#endm"], ["#macro Q", "#while 0", "#endm", "#endw"], ["#macro Q", "#endw", "#endm"]):
        yield bad + ["z"]
        yield ["#if 0"] + bad + ["#endif", "z"]
        yield ["#if 1"] + bad + ["#endif", "z"]
    # the loop is read again from its own file and line
    for depth in range(1, 6):
        yield ("files", depth)


def place(L):
    if isinstance(L, tuple):
        d = L[1]
        files = {"t.c": ["#define i 0", "#include \"h1.h\"", "after i"]}
        for k in range(1, d + 1): files["h%d.h" % k] = ["h%d begin" % k] + (["#include \"h%d.h\"" % (k + 1)] if k < d else []) + ["#while i < %d" % (3 * k), "h%d i" % k, "#set i #eval i + 1", "#endw", "h%d end" % k]
        return pp.Case(files=files, tag="loops in headers")
    return pp.Case(L, tag="places")


pp.explore(c, bodies(5 if T else 4), body_case, label="loop bodies", size=50)
pp.explore(c, bodies(4 if T else 3), inside_macro, label="loops in macros", size=50)
pp.explore(c, counts(), lambda L: pp.Case(flat(L), tag="counts"), label="counts", size=10)
pp.explore(c, limit(), lambda L: pp.Case(flat(L), tag="limit"), label="the limit of passes", size=1)
pp.explore(c, conditions(), condition, label="conditions", size=20)
pp.explore(c, places(), place, label="places", size=2)
sys.exit(c.finish())
