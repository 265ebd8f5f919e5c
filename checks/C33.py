#!/usr/bin/env python3
"""C33: statements are accepted only where they make sense."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, verdict, rules
from operands import DECL, LOCAL, ALL

c = vlib.Check("C33")
T = c.thorough
SHOW = bool(sys.argv[1:])

# a context wraps a statement: (name, text with %s, in loop, in switch: None unchanged, set of case values taken (by a new switch), position)
# position: "stmt" (only statements), "block" (declarations too)
CTX = {
    "block": ("{ %s }", "block"), "then": ("if (b) %s", "stmt"), "else": ("if (b) ; else %s", "stmt"), "then-else": ("if (b) { %s } else ;", "block"), "while": ("while (b) %s", "stmt"), "while-block": ("while (b) { %s }", "block"),
    "do": ("do %s while (b);", "stmt"), "do-block": ("do { i; %s } while (b);", "block"), "for": ("for (;;) %s", "stmt"), "for-decl": ("for (int n = 0; n < 3; n++) { n; %s }", "block"),
    "switch": ("switch (i) %s", "stmt"), "switch-block": ("switch (i) { case 1: i++; default: i--; %s }", "block"), "case": ("switch (i) { case 2: %s }", "stmt"), "default": ("switch (i) { default: %s }", "stmt"), "after": ("{ i++; { i--; } %s i++; }", "block"),
    "label": ("case 3: %s", "stmt"), "label-default": ("default: %s", "stmt"),
}
LOOPS = {"while", "while-block", "do", "do-block", "for", "for-decl"}
SWITCHES = {"switch": (), "switch-block": (1, "d"), "case": (2,), "default": ("d",)}
# statements: text, what they need
STMT = {";": None, "i = 1;": None, "{ }": None, "vv();": None, "break;": "break", "continue;": "continue", "case 1: i++;": 1, "case 2: ;": 2, "case 3: { }": 3, "case 4: break;": 4, "default: i++;": "d", "case 4: case 5: i++;": 4, "case 1 + 2: ;": 3,
        "int n = 1;": "decl", "int n, *m;": "decl", "struct Q { int x; };": "decl", "enum { Z };": "decl", "struct Q { int x; } w;": "decl", "P w;": "decl", "const int n = 1;": "decl",
        "return;": "void", "return 1;": "int", "return 1.5;": "float", "return b;": "bool", "return o;": "struct P", "return p;": "ptr", "return null;": "null", "return vv();": "novalue",
        "int n() { return 1; }": "never", "typedef int n;": "never", "void n();": "never", "else ;": "never", "int;": "never", "return {1};": "never", "{ if (b); else ; else ; }": "never", "do ;": "never", "do ; while (b)": "never", "if ;": "never", "switch i { }": "never",
        "for (;) ;": "never", "for (;;;) ;": "never", "for () ;": "never", "case i: ;": "never", "case : ;": "never", "case 1 ;": "never", "default ;": "never", "case b: ;": "never", "break": "never", "continue": "never", "break 1;": "never", "continue i;": "never", "goto q;": "never", "void n;": "never"}
RETURNS = {"void": None, "int": "int", "float": "float", "bool": "bool", "P": "struct P", "int *": "ptr", "char": "int"}


def allowed(stmt, need, path, ret):
    """may the statement stand at the end of the path of contexts?"""
    loop = switch = False
    taken = set()
    pos = "block"
    for ctx in path:
        if ctx in ("label", "label-default"):
            lab = 3 if ctx == "label" else "d"
            if not switch or lab in taken: return False
            taken = taken | {lab}
        if ctx in LOOPS: loop = True
        if ctx in SWITCHES: switch = True; taken = set(SWITCHES[ctx])
        pos = CTX[ctx][1]
    if need is None: return True
    if need == "never": return False
    if need == "break": return loop or switch
    if need == "continue": return loop
    if need == "decl": return pos == "block"
    if isinstance(need, int) or need == "d":
        return switch and need not in taken and not ("case 5" in stmt and 5 in taken)
    r = RETURNS[ret]
    if need == "void": return r is None
    if need == "novalue": return False
    if r is None: return False
    if need == "int": return r in ("int", "float")
    if need == "null": return r == "ptr"
    return need == r


VALUE = {None: "", "int": "return 1;", "float": "return 1.5;", "bool": "return b;", "struct P": "return o;", "ptr": "return p;"}
G = "struct P { int x; };\nint i, *p; bool b; P o; float f;\nvoid vv() { }\n"


def prog(ret, body): return G + "%s f_()\n{\n\t%s\n\t%s\n}\nvoid main() { }\n" % (ret, body, VALUE[RETURNS[ret]])


def contexts():
    depth = 4 if T else 3
    for n in range(depth + 1):
        for path in itertools.product(CTX, repeat=n):
            for stmt, need in STMT.items():
                if n == depth and need in (None, "never") and stmt not in (";", "int n() { return 1; }"): continue
                if n == depth and T and need not in ("break", "continue", 3, 1, "d", "decl"): continue
                rets = RETURNS if n <= 1 else ("void", "int") if n == 2 else ("void",) if not stmt.startswith("return") else ("int",)
                for ret in rets:
                    text = stmt
                    for ctx in reversed(path): text = CTX[ctx][0] % text
                    yield allowed(stmt, need, path, ret), "%s in %s of %s function" % (stmt, ">".join(path) or "body", ret), prog(ret, text)


# complete statements after (or before) which a statement stands: they leave no trace on it
WHOLE = ["while (b) ;", "while (b) { continue; }", "do ; while (b);", "do break; while (b);", "for (;;) break;", "for (int k = 0; b; k++) continue;", "switch (i) { case 1: default: ; }", "switch (i) { }", "switch (i) ;",
         "if (b) ; else ;", "switch (i) { case 3: while (b) break; default: break; }", "while (b) switch (i) { case 1: continue; default: ; }", "for (;;) { do ; while (b); break; }", "switch (i) { default: switch (i) { case 3: ; } }", "{ }", "{ int n = 2; i = n; }"]


def siblings():
    paths = [()] + [(x,) for x in CTX] + [(x, y) for x in CTX for y in ("block", "while-block", "for-decl", "switch-block", "do-block", "then-else", "label")]
    if T: paths += [(x, y, z) for x in LOOPS | set(SWITCHES) for y in CTX for z in ("block", "while-block", "switch-block", "label")]
    for path in paths:
        for stmt, need in STMT.items():
            if need not in ("break", "continue", "d", 1, 3, "decl"): continue
            for whole in WHOLE:
                for form in ("{ %s %s }", "{ if (b) { %s } %s }", "{ %s { %s } }"):
                    text = form % (whole, stmt)
                    for ctx in reversed(path): text = CTX[ctx][0] % text
                    yield allowed(stmt, need, path + ("block",), "void"), "%s after %s in %s" % (stmt, whole, ">".join(path) or "body"), prog("void", text)
                if need == "decl": continue
                text = "{ %s %s }" % (stmt, whole)
                for ctx in reversed(path): text = CTX[ctx][0] % text
                yield allowed(stmt, need, path + ("block",), "void"), "%s before %s in %s" % (stmt, whole, ">".join(path) or "body"), prog("void", text)


def neighbours():
    """labels of neighbouring and nested switches"""
    labs = ["case 1: ;", "case 2: i++;", "case 1 + 1: ;", "case 'a': ;", "case 97: ;", "default: ;", "case A: ;", "case B: break;", "case -1: ;", "{ case 1: ; }", "if (b) case 2: ;", "while (b) { default: ; }", "switch (i) { case 1: ; default: ; }", "switch (i) { case 2: ; case 97: ; }", "case 1: case 2: ;", "case 5: default: ;", "case 2147483647: ;", "case -2147483647: ;", "case ~0: ;"]
    val = {labs[0]: [1], labs[1]: [2], labs[2]: [2], labs[3]: [97], labs[4]: [97], labs[5]: ["d"], labs[6]: [0], labs[7]: [1], labs[8]: [-1], labs[9]: [1], labs[10]: [2], labs[11]: ["d"], labs[12]: [], labs[13]: [], labs[14]: [1, 2], labs[15]: [5, "d"], labs[16]: [2147483647], labs[17]: [-2147483647], labs[18]: [-1]}
    for n in (1, 2, 3):
        for seq in itertools.product(labs, repeat=n):
            vals = [v for l in seq for v in val[l]]
            yield len(vals) == len(set(vals)), "labels " + " ".join(seq), "enum { A, B };\n" + prog("void", "switch (i) { " + " ".join(seq) + " }")


def conditions():
    """the types of conditions, selectors, case labels and returned values"""
    for e in ALL:
        if rules.is_fn(e.type): continue
        sc, it = rules.is_scalar(e.type), rules.is_int(e.type)
        for t, ok in (("if (%s) ;", sc), ("if (%s) ; else ;", sc), ("while (%s) ;", sc), ("do ; while (%s);", sc), ("for (; %s; ) ;", sc), ("for (%s; ; ) break;", True), ("for (; ; %s) break;", True), ("switch (%s) { case 1: ; }", it), ("switch (%s) { default: ; }", it), ("(%s);", True), ("switch (%s) ;", it)):
            yield ok, "condition " + t % e.text, DECL + "void main()\n{\n" + LOCAL + t % e.text + "\n}\n"
        for k in ("(%s)", "(%s) + 1", "-(%s)") if it else ("(%s)",):
            if e.type == "null": continue
            yield (e.lit and it), "case " + k % e.text, DECL + "void main()\n{\n" + LOCAL + "switch (i) { case " + k % e.text + ": ; }\n}\n"
        types = [("int", "int"), ("float", "float"), ("char", "char"), ("bool", "bool"), ("S", "struct S"), ("P", "struct P"), ("int *", ("ptr", "int")), ("float *", ("ptr", "float")), ("const int *", ("ptr", ("const", "int"))), ("P *", ("ptr", "struct P")), ("E", "enum E")]
        for name, ty in types:
            v = rules.assignable(ty, e.type)
            if v == rules.UNKNOWN: continue
            yield bool(v), "return of %s as %s" % (e.text, name), DECL + "%s f_()\n{\n%sreturn %s;\n}\nvoid main() { }\n" % (name, LOCAL, e.text)
    for r in RETURNS:
        yield r == "void", "function without return", G + "%s f_() { }\nvoid main() { }\n" % r
        yield r == "void", "function with empty return", G + "%s f_() { if (b) return; }\nvoid main() { }\n" % r
        for t in ("if (b) %s", "while (b) %s", "{ { %s } }", "for (;;) %s", "switch (i) { case 1: %s }", "do { %s } while (b);"):
            if r != "void": yield True, "return inside " + t, G + "%s f_() { %s }\nvoid main() { }\n" % (r, t % VALUE[RETURNS[r]])


def main_function():
    for r, ok in (("int", True), ("void", True), ("float", False), ("bool", False), ("P", False), ("int *", False)):
        v = {"void": ""}.get(r) if r == "void" else VALUE[RETURNS[r]]
        yield ok, "main of %s" % r, G + "%s main() { %s }\n" % (r, v)
    for pars, ok in (("", True), ("char x[][]", True), ("int x", False), ("char x[]", False), ("char x[][], int y", False), ("int x[][]", False), ("int x, int y", False)): yield ok, "main(%s)" % pars, G + "void main(%s) { }\n" % pars
    for t in ("", "int main;", "void main();", "void main() { } void main() { }", "struct main { int x; }; void main() { }", "void main() { } int main() { return 1; }", "enum { main };", "void f_() { }", "int g_;", "void main() { main(); }", "void main() { int a = main; }"): yield False, "program " + t, G + t + "\n"
    for t in ("int f_() { return 1; } void main() { }", "void main() { } int f_() { return 1; }", "void main() { } int g_; void h_() { }"): yield True, "program " + t, G + t + "\n"
    for t in ("i = 1;", ";", "if (b) ;", "{ }", "i;", "return;", "break;", "vv();", "1;", "for (;;) ;", "case 1: ;", "}", "{", ")", "int f() return 1;", "int f() { return 1; };", "void f() { } ;"):
        yield False, "outside functions " + t, G + t + "\nvoid main() { }\n"


def main():
    for name, gen in (("contexts", contexts), ("neighbouring statements", siblings), ("labels of a switch", neighbours), ("conditions", conditions), ("main and globals", main_function)):
        verdict.explore(c, gen(), name, show=SHOW, per_label=1 if not SHOW else 3, group=lambda l: l.split(" in ")[0] if " in " in l else l[:14])
    sys.exit(c.finish())


if __name__ == "__main__": main()
