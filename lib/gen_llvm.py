"""The part of the enumerations inside the subset of C20: programs over int, float and bool."""
import re
import gen_expr, gen_call, gen_aggr
from cases import Case


def plain(c):
    """No characters, strings or function parameters (strings only as formats)."""
    t = c.top + " ".join(c.calls)
    return "char" not in t and "'" not in t


OUT = re.compile(r"^(element of member)\b")


def expressions(thorough):
    for c in gen_expr.all_cases(thorough):
        if plain(c) and not OUT.match(c.tag): yield c


def calls(thorough):
    for n in range(4 if thorough else 3):
        for c in gen_call.signatures(n, True):
            m = re.match(r"call (\w*) -> ", c.tag)
            if (m is None or set(m.group(1)) <= set("ifP")) and plain(c): yield c
    for c in gen_call.contexts():
        if plain(c): yield c
    for c in gen_call.graphs(thorough):
        if plain(c): yield c
    yield from (c for c in gen_call.recursion() if plain(c))
    # functions passed as arguments are outside the subset
    for c in gen_call.functions():
        if plain(c) and "argument" not in c.tag: yield c


def aggregates(thorough):
    for c in gen_aggr.arrays(True):
        if plain(c): yield c
    for c in gen_aggr.constants():
        if plain(c): yield c
    for k in ((1, 2) if thorough else (1,)):
        for c in gen_aggr.groups(k, True):
            if "char" not in c.tag and "nested" not in c.tag and "struct" not in c.tag: yield c
    for c in gen_aggr.pointers(3 if thorough else 2):
        if plain(c): yield c
    for c in gen_aggr.arrays_shared():
        if plain(c) and "matrix" not in c.tag: yield c
    # structures of numbers: initialisers, assignments and pointers to them
    for c in gen_aggr.structs():
        if plain(c) and "bool" not in c.tag and not re.search("nested|initialised|store through", c.tag): yield c


def heights(gen):
    for c in gen:
        e = re.match(r"repeated statement: (.*) \(\d\)$", c.tag).group(1)
        if e in ("c", "c = 'a'", "'a'", "p = &s", "q = &i", "\"s\"", "fa(v)"): continue
        yield Case(c.top, [x.replace("char c = 'q'; ", "") for x in c.calls], c.exp, c.tag) if "char" in " ".join(c.calls) else Case(c.top.replace("char c = 'q'; ", ""), c.calls, c.exp, c.tag)


# ---- long functions: register numbers pass through those of the declared identifiers
def long_functions():
    places = [("variable", "int x;", "x"), ("global", "", "g@"), ("element", "int v[3];", "v[1]"), ("computed element", "int v[3]; int k = 1;", "v[k + 1]"), ("global element", "", "w@[1]"),
              ("matrix element", "int m[2][2];", "m[1][0]"), ("dynamic element", "int n = 2; int v[n + 1];", "v[n]"), ("member", "struct S@ s;", "s.y"), ("global member", "", "t@.y"), ("arrow", "struct S@ s; struct S@ *p = &s;", "p->y"),
              ("deref", "int x; int *p = &x;", "*p"), ("global deref", "int *p = &g@;", "*p"), ("element of structures", "struct S@ u[2];", "u[1].y")]
    top = "int g@; int h@; float e@; int w@[3]; struct S@ { float x; int y; }; struct S@ t@; int i@; int j@;\n"
    for name, decl, lv in places:
        par = "(%s)" % lv if lv[0] == "*" else lv
        for op, step in (("%s++;" % par, 1), ("++%s;" % par, 1), ("%s--;" % par, -1), ("%s += 3;" % lv, 3), ("%s -= h@;" % lv, -2), ("%s = %s + 2;" % (lv, lv), 2), ("h@ = %s++;" % par, 1)):
            n = 90
            body = "%s h@ = 2; %s = 5; " % (decl, lv) + (op + " ") * n + "printf(\"%%i\", %s);" % lv
            yield Case(top + "void f@() { %s }\n" % body, ["f@();"], str(5 + step * n), "long function: %s on %s" % (op, name))
