#!/usr/bin/env python3
"""C35: expressions of literals, in every mixture with variables of the same values and in every
place that takes a constant, give what the language defines (and so what run time gives)."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, cases, ref
from cases import Case
from ref import *

c = vlib.Check("C35")
T = c.thorough

ref.no_overflow = w32  # 32-bit two's complement: folding must wrap as run time does
BIN = ["*", "/", "%", "+", "-", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "^", "|", "&&", "||"]
UNS = ["-", "~", "!", "abs"]
INTS = [0, 1, -1, 2, 3, 7, -8, 31, 32, 255, 65535, 65536, -65536, 1 << 30, INT_MAX, INT_MAX - 1, INT_MIN + 1, INT_MIN]
FLOATS = [0.0, 1.0, -1.5, 0.25, 2.0, 1e6, -1e-3, 3.0e9]
CHARS = [0x41, 0x30, 0x44f]
VALUES = [(v, "i") for v in INTS] + [(v, "f") for v in FLOATS] + [(v, "c") for v in CHARS] + [(0, "b"), (1, "b")]
FEW = [(v, "i") for v in (0, 1, -3, 6, 31, INT_MAX, INT_MIN)] + [(1.5, "f"), (-0.5, "f"), (1, "b"), (0, "b"), (0x41, "c")]
FEWER = [(v, "i") for v in (0, 1, -3, 6, INT_MAX)] + [(1.5, "f"), (1, "b")]


def literal(v, t):
    if t == "i" and v == INT_MIN: return E("i", UN, "-2147483648", lambda _: INT_MIN, True)
    if t == "f" and v < 0: return E("f", UN, repr(v), lambda _: v, True)
    return lit(v, t)


def leaf(v, t, k):
    """the k-th leaf as a literal (mask bit clear) or as a variable that holds the value"""
    def make(mask):
        if not mask >> k & 1: return literal(v, t)
        return E(t, PRIM, "v%d_@" % k, lambda _: v)
    make.v, make.t = v, t
    return make


def declare(leaves, mask):
    return "".join("%s v%d_@ = %s; " % (TNAME[l.t], k, literal(l.v, l.t).s) for k, l in enumerate(leaves) if mask >> k & 1)


def case(leaves, build, masks):
    """one case for an expression with literals and variables in every mixture"""
    out, calls = [], []
    for mask in masks:
        e = build([l(mask) for l in leaves])
        if e is None: return None
        try: r = e.ev(None)
        except (Undef, OverflowError): return None
        if e.t == "f" and (abs(r) > 1e15 or r == 0): return None  # the sign of a zero is left open
        out.append(fmt(e.t, r) + " ")
        calls.append("{ %sprintf(\"%s \", %s); }" % (declare(leaves, mask), directive(e.t), shown(e)))
    return Case("", calls, "".join(out), e.s)


def ok_shift(op, b): return not (op in ("<<", ">>") and b.t in "ic" and not 0 <= b.v <= 31)


def singles():
    for v in VALUES:
        a = leaf(*v, 0)
        for op in UNS:
            yield case([a], lambda l: un(op, l[0]), range(2))
            for op2 in UNS: yield case([a], lambda l: (lambda x: x and un(op2, x))(un(op, l[0])), range(2))
    for v in VALUES:
        for w in VALUES:
            a, b = leaf(*v, 0), leaf(*w, 1)
            for op in BIN: yield case([a, b], lambda l: bi(op, l[0], l[1]), range(4))


def conversions():
    """an integer constant where a floating value is expected, and the other way round through round()"""
    for v in VALUES:
        if v[1] in "ic": yield Case("", ["float f_@ = %s; printf(\"%%f \", f_@);" % literal(*v).s, "f_@ = %s; printf(\"%%f \", f_@);" % literal(*v).s
                                         , "printf(\"%%f \", %s);" % literal(*v).s] , ("%f " % v[0]) * 3, "conversion of %s" % (v,))


def doubles(values, masks):
    for x, y, z in itertools.product(values, repeat=3):
        ls = [leaf(*x, 0), leaf(*y, 1), leaf(*z, 2)]
        for o1, o2 in itertools.product(BIN, repeat=2):
            yield case(ls, lambda l: (lambda m: m and bi(o1, m, l[2]))(bi(o2, l[0], l[1])), masks)
            yield case(ls, lambda l: (lambda m: m and bi(o1, l[0], m))(bi(o2, l[1], l[2])), masks)
        for o in UNS:
            for o1 in BIN: yield case(ls[:2], lambda l: (lambda m: m and un(o, m))(bi(o1, l[0], l[1])), range(4)) if z == values[0] else None
    for x, y, z in itertools.product(values, repeat=3):
        ls = [leaf(*x, 0), leaf(*y, 1), leaf(*z, 2)]
        yield case(ls, lambda l: cond(l[0], l[1], l[2]), range(8))


def places():
    """a constant expression in every place that takes one"""
    vals = [0, 1, 2, 3, 5, -2, 7]
    exprs = []
    for a, b in itertools.product(vals, repeat=2):
        for op in BIN[:7] + ["&", "^", "|"]: exprs.append(bi(op, literal(a, "i"), literal(b, "i")))
    for a, b, d in itertools.product((1, 2, 5), repeat=3):
        for o1, o2 in itertools.product(("*", "+", "-", "/", "<<"), repeat=2): exprs.append(bi(o1, bi(o2, literal(a, "i"), literal(b, "i")), literal(d, "i")))
    for a in vals:
        for op in ("-", "~", "abs"): exprs.append(un(op, literal(a, "i")))
    for e in exprs:
        try: r = e.ev(None)
        except Undef: continue
        s = e.s
        top = "int g@ = %s; enum E@ { A@ = %s, B@ }; int f@() { return %s; } int i@(int x) { return x; }\n" % (s, par(e, 3), s)
        calls = ["printf(\"%%i %%i %%i %%i %%i \", g@, A@, B@, f@(), i@(%s));" % s
                 , "int l_@ = %s; printf(\"%%i \", l_@);" % s
                 , "switch (%d) { case %s: printf(\"hit \"); break; default: printf(\"miss \"); }" % (r, par(e, 3))
                 , "switch (%s) { case %d: printf(\"hit \"); break; default: printf(\"miss \"); }" % (s, r)
                 , "switch (%d) { case %s: printf(\"hit \"); break; default: printf(\"miss \"); }" % (r + 1, par(e, 3))]
        out = "%d %d %d %d %d %d hit hit miss " % (r, r, r + 1, r, r, r)
        if 0 < r < 50:
            calls.append("int a_@[%s]; printf(\"%%i \", upb(0, a_@)); a_@[%s] = 4; printf(\"%%i \", a_@[%d]);" % (s, "%s - 1" % par(e, 12), r - 1))
            out += "%d 4 " % r
        yield Case(top, calls, out, "places of " + s)
    for a, b in itertools.product((-3, 0, 1, 2), repeat=2):
        for op in ("<", ">", "<=", ">=", "==", "!=", "&&", "||"):
            e = bi(op, literal(a, "i"), literal(b, "i"))
            r = e.ev(None)
            yield Case("bool g@ = %s;\n" % e.s
                       , ["if (%s) printf(\"y \"); else printf(\"n \");" % e.s, "printf(\"%%i \", %s ? 1 : 2);" % par(e, 4)
                          , "int n_@ = 0; while (%s) { n_@++; if (n_@ == 3) break; } printf(\"%%i \", n_@);" % e.s
                          , "printf(\"%i \", g@ ? 1 : 0);"], "%s %d %d %d " % ("y" if r else "n", 1 if r else 2, 3 if r else 0, r), "places of " + e.s)


def run(label, gen):
    cases.explore(c, (x for x in gen if x is not None), "vm", size=400, max_calls=1500, label=label)


def main():
    run("one operator", singles())
    run("conversions", conversions())
    run("two operators", doubles(FEW if T else FEWER, range(8)))
    run("places", places())
    c.assumptions += ["division by zero, shifts outside 0..31 and left shifts of negative numbers are left out", "the virtual machine is the model in lib/vm.c, whose integers are 32 bits"]
    sys.exit(c.finish())


if __name__ == "__main__": main()
