#!/usr/bin/env python3
"""C34: declarations, initialisers, calls, prototypes, structures, enumerations and type definitions against the rules of docs/Language.md, chapter 9."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, verdict
from rules import *
from rules import X
from operands import *

T = os.environ.get("VERIF_TIER") == "thorough"
SHOW = "show" in sys.argv
c = vlib.Check("C34", "exhaustive enumeration of declarations x initialisers, signatures x argument lists, prototypes x definitions, structures, enumerations; verdicts of the real compiler against the rules")

PRE = DECL + "struct C1 { const int x; };\nstruct N { P p; int a[2]; };\ntypedef int TI; typedef int *TP; typedef P TS; typedef E TE; typedef const int TK;\n"
ST = dict(STRUCTS, C1=(("x", k(I)),), N=(("p", P_), ("a", arr(I))))
# specifier -> type (None: not a type)
SPEC = {"int": I, "char": C_, "bool": Bo, "float": F, "double": F, "long": I, "P": P_, "struct P": P_, "N": "struct N", "E": "enum E", "enum G": "enum G", "TI": I, "TP": ptr(I), "TS": P_, "TE": "enum E", "TK": k(I), "C1": "struct C1",
        "void": None, "undef": None, "struct undef": None, "enum undef": None, "struct E": None, "enum P": None, "vi": None, "A": None, "gi": None}
CORE = ["int", "char", "bool", "float", "P", "E", "TP"]


def needs_init(t):
    if const(t): return True
    if is_arr(t): return needs_init(t[1])
    if is_struct(t): return any(needs_init(m) for _, m in ST[t[7:]])
    return False


def declared(spec, cst, star, sconst, dims):
    """the declared type, None when refused, UNKNOWN"""
    t = SPEC[spec]
    if t is None and not (spec == "void"): return None
    if spec == "void": return None                                  # only functions may be void
    if cst: t = None if const(t) else ("const", t)
    if t is None: return None
    if star: t = ("ptr", t)
    if sconst:
        if not star: return None
        t = ("const", t)
    for d in range(dims): t = ("arr", t)
    return t


def init_ok(t, init):
    """init: X or list"""
    if isinstance(init, list):
        u = unq(t)
        if not init: return False
        if is_struct(u):
            ms = ST[u[7:]]
            if len(ms) != len(init): return False
            rs = [init_ok(m, i) for (_, m), i in zip(ms, init)]
        elif is_arr(u): rs = [init_ok(u[1], i) for i in init]
        else: return False
        return False if False in rs else UNKNOWN if UNKNOWN in rs else True
    if init.type == "void": return False
    return assignable(t, init.type)


def text(init): return "{" + ", ".join(map(text, init)) + "}" if isinstance(init, list) else init.text


def brackets(ds): return "".join("[%s]" % d for d in ds)


def shape(t, dims):
    """an initialiser of the right shape for type t with the given dimensions"""
    u = unq(t)
    if dims:
        n = int(dims[0]) if dims[0].isdigit() else 2
        return [shape(u[1], dims[1:]) for _ in range(n)]
    if is_arr(u): return [shape(u[1], []) for _ in range(2)]
    if is_struct(u): return [shape(m, []) for _, m in ST[u[7:]]]
    return X({"int": "1", "char": "'c'", "bool": "true", "float": "2.5"}.get(u) or ("null" if is_ptr(u) else {"enum E": "A", "enum G": "H"}[u]), {"int": I, "char": C_, "bool": Bo, "float": F}.get(u) or ("null" if is_ptr(u) else u), False, True)


def mutants(i):
    """the initialiser with one nesting level, one element or one kind of element changed"""
    yield i
    yield [i]
    for e in (X("1", I, False, True), X("2.5", F, False, True), X("true", Bo, False, True), X("null", "null", False, True), X("A", "enum E", False, True), X("o", P_, True, False), X("p", ptr(I), True, False), X("ar", arr(I), True, False)): yield e
    if isinstance(i, list):
        for j in range(len(i)):
            if len(i) > 1 or True: yield i[:j] + i[j + 1:] if len(i) > 1 else None
            for m in mutants(i[j]):
                if m is not None: yield i[:j] + [m] + i[j + 1:]
        yield i + [i[-1]]
        yield i[0]


def wrap(decl, place):
    if place == "local": return PRE + "void main()\n{\n" + LOCAL + decl + "\n}\n"
    if place == "global": return PRE + GLOBAL + decl + "\nvoid main() { }\n"
    if place == "block": return PRE + GLOBAL + "void main()\n{\n if (b) { " + decl + " }\n}\n"
    if place == "for": return PRE + GLOBAL + "void main()\n{\n for (" + decl + " b; ) ;\n}\n"


def decls():
    """every declarator without initialiser, and with every operand"""
    for spec, cst, star, sconst in itertools.product(SPEC, (0, 1), (0, 1), (0, 1)):
        head = "%s%s %s%s" % ("const " if cst else "", spec, "*" if star else "", "const " if sconst else "")
        for dims in ((), ("2",), ("",), ("2", "3"), ("2", ""), ("", "2")):
            t = declared(spec, cst, star, sconst, len(dims))
            ok = t is not None and "" not in dims and not needs_init(t)
            for place in ("local", "global", "block"): yield ok, "declaration " + head + brackets(dims) + " " + place, wrap(head + "z_" + brackets(dims) + ";", place)
            if t is None: continue
            if dims == ("", "2"): continue
            seen = set()
            for m in mutants(shape(t, dims)):
                if m is None: continue
                s = text(m)
                if s in seen: continue
                seen.add(s)
                v = init_ok(t, m)
                if v == UNKNOWN: continue
                if v and dims and not fits(m, dims): continue       # the number of elements is another family
                for place in ("local", "global"): yield bool(v), "initialiser " + head + brackets(dims) + " = " + s + " " + place, wrap(head + "z_" + brackets(dims) + " = " + s + ";", place)


def fits(m, dims):
    if not isinstance(m, list): return True
    n = dims[0]
    if n and len(m) != int(n): return False
    return all(fits(e, dims[1:]) for e in m) if len(dims) > 1 else True


def par_(e): return "(%s)" % e.text if ", " in e.text else e.text


def operands():
    """every kind of type initialised with every operand; parameters given every operand"""
    specs = CORE + ["N", "C1", "TK", "enum G"]
    for spec, cst, star, sconst in itertools.product(specs, (0, 1), (0, 1), (0, 1)):
        head = "%s%s %s%s" % ("const " if cst else "", spec, "*" if star else "", "const " if sconst else "")
        for dims in ((), ("2",), ("",)):
            t = declared(spec, cst, star, sconst, len(dims))
            if t is None: continue
            for e in ALL:
                v = False if e.type == "void" else assignable(t, e.type)
                if v == UNKNOWN or "vs()" in e.text and "[" in e.text: continue
                yield bool(v), "initialiser %s%s = %s" % (head, brackets(dims), e.text), wrap(head + "z_" + brackets(dims) + " = " + par_(e) + ";", "local")
    for spec, cst, star, sconst in itertools.product(specs, (0, 1), (0, 1), (0, 1)):
        for dims in (0, 1, 2):
            if star and dims and sconst: continue
            t = declared(spec, cst, star, sconst, dims)
            if t is None: continue
            par = "%s%s %s%s" % ("const " if cst else "", spec, "*" if star else "", "const " if sconst else "")
            for e in ALL:
                v = False if e.type == "void" else assignable(t, e.type)
                if v == UNKNOWN: continue
                yield bool(v), "argument %s for %s" % (e.text, par + "x" + "[]" * dims), PRE + "void f_(%sx%s) { }\nvoid main()\n{\n" % (par, "[]" * dims) + LOCAL + "f_(" + par_(e) + ");\n}\n"


def bounds():
    """every array bound: integers, positive when constant"""
    for e in ALL + [X(t, I, False, True) for t in ("0", "-1", "1", "-2 + 3", "2 - 2", "1 << 3", "B - 1", "'c' - 99", "A", "B", "-A")] + [X("1.0", F, False, True), X("true", Bo, False, True), X("ki", k(I), True, False)]:
        it = is_int(e.type)
        val = {"0": 0, "-1": -1, "1": 1, "-2 + 3": 1, "2 - 2": 0, "1 << 3": 8, "B - 1": 0, "'c' - 99": 0, "A": 0, "B": 1, "-A": 0, "5": 5, "'c'": 99, "H": 0}.get(e.text)
        ok = it and (val is None or val > 0)
        for t in ("int z_[%s];", "P *z_[%s];", "int z_[2][%s];", "int z_[%s][2];", "int x_, z_[%s], y_;"):
            for place in ("local", "block") + (("global",) if it and val is not None or not it else ()): yield ok, "bound " + t % e.text + " " + place, wrap(t % e.text, place)
        yield ok, "bound of member " + e.text, PRE + GLOBAL + "struct Z { int m[%s]; };\nvoid main() { }\n" % e.text if val is not None or not it else PRE + GLOBAL + "void main() { struct Z { int m[%s]; }; }\n" % e.text
    for t in ("int z_[2", "int z_2];", "int z_[2]]; ", "int [2]z_;", "int z_[2;", "int z_[1, 2;", "int z_();", "int (z_);", "int &z_;", "int **z_;", "int *z_*;", "int z_ y_;", "int , z_;", "int z_,;", "int z_ = ;", "int z_ = 1 2;", "int z_ == 1;", "int;", "bool;", "P;", "const int;", "const;", "int const z_ = 1;", "const const int z_ = 1;", "int z_ = {};", "int z_[2] = {};", "int z_[2] = {1, 2,,};", "int z_[2] = {,1, 2};", "int z_[2] = {1 2};", "int z_[2] = {1, 2;", "int z_[2] = 1, 2};", "int z_[2] = {1, 2}};", "int z_[1] = {{1}};", "int int z_;", "int float z_;", "z_;", "int 1;", "int \"z\";", "int if;", "int true;", "const z_ = 1;", "static int z_;", "unsigned z_;"):
        for place in ("local", "block"): yield False, "malformed " + t + " " + place, wrap(t, place)
    for t in ("int z_[2] = {1, 2,};", "int z_, y_;", "int z_ = 1, y_ = z_;", "int *z_, y_, *x_;", "int z_[2], y_ = 1, x_[1] = {2};", "int z_ = i, *y_ = &z_;", "const int z_ = 1, y_ = 2;", "int z_ = (1, 2);", "int z_ = i = 2;", "int z_[2][3][4];", "int z_[1][1] = {{1}};", "int z_[] = {1};", "int z_[1][] = {{1, 2}};", "char z_[] = \"abc\";", "char z_[][] = {\"a\", \"bcd\"};", "N z_ = {{1}, {1, 2}};", "N z_[1] = {{{1}, {1, 2}}};", "struct { int x; } z_;", "struct Z { int x; } z_;", "struct Z { int x; } *z_;", "struct Z { int x; } z_ = {1};", "struct Z { int x; } z_[2];", "struct Z { int x; };", "enum Z { Y };", "enum Z { Y } z_ = Y;", "enum { Y } z_;", "enum { Y };", "struct Z { int x; Z *z; };", "struct Z { struct Y { int x; } y; }; Y z_;", "struct Z { enum Y { W } y; }; Y z_ = W;"):
        if t == "char z_[][] = {\"a\", \"bcd\"};": continue
        for place in ("local", "block", "global"): yield True, "well formed " + t + " " + place, wrap(t, place)


def lengths():
    """numbers of elements of initialisers against the declared dimensions"""
    def lists(dims, depth):
        if depth == 0:
            yield "1"
            return
        subs = list(lists(dims, depth - 1))
        for n in range(1, 4):
            for combo in itertools.product(subs, repeat=n) if depth == 1 or n < 3 else ((s,) * 3 for s in subs): yield list(combo)
    def txt(l): return l if isinstance(l, str) else "{" + ", ".join(map(txt, l)) + "}"
    def ok(l, dims):
        if not dims: return True
        return (dims[0] == "" or len(l) == int(dims[0])) and all(ok(x, dims[1:]) for x in l)
    for dims in (("1",), ("2",), ("3",), ("",), ("1", "1"), ("1", "2"), ("2", "1"), ("2", "2"), ("3", "2"), ("2", "3")):
        for l in lists(dims, len(dims)):
            for elem in ("int", "P"):
                s = txt(l).replace("1", "{1}") if elem == "P" else txt(l)
                yield ok(l, dims), "length %s z%s = %s" % (elem, brackets(dims), s), wrap("%s z_%s = %s;" % (elem, brackets(dims), s), "local")


PAR = ["int", "float", "char", "bool", "int *", "const int *", "int[]", "int[][]", "P", "P *", "E", "int (*)(int)", "void (*)()", "int *const"]
NAMED = lambda t, n: {"int[]": "int %s[]", "int[][]": "int %s[][]", "int (*)(int)": "int (*%s)(int)", "void (*)()": "void (*%s)()"}.get(t, t + " %s") % n
RET = ["void", "int", "float", "bool", "P", "int *", "char"]
RV = {"void": "", "int": "return 1;", "float": "return 1.5;", "bool": "return true;", "P": "return o_;", "int *": "return null;", "char": "return 'c';"}


def prototypes():
    """a prototype and a definition agree in everything; every prototype is defined, before or after use, once"""
    pre = DECL + "P o_;\n"
    def df(r, ps): return "%s f_(%s) { %s }\n" % (r, ", ".join(NAMED(p, "a%d" % i) for i, p in enumerate(ps)), RV[r])
    def pr(r, ps): return "%s f_(%s);\n" % (r, ", ".join(ps))
    sigs = [()] + [(p,) for p in PAR] + [("int", p) for p in PAR[:9]] + [(p, "int") for p in PAR[1:9]] + [("int", "int", "int"), ("int", "float", "int")]
    for r1, p1 in itertools.product(RET, sigs):
        yield True, "definition %s%s" % (r1, p1), pre + df(r1, p1) + "void main() { }\n"
        yield True, "prototype and definition %s%s" % (r1, p1), pre + pr(r1, p1) + df(r1, p1) + "void main() { }\n"
        yield True, "prototype and later definition %s%s" % (r1, p1), pre + pr(r1, p1) + "int g_() { return 1; }\nvoid main() { }\n" + df(r1, p1)
        yield False, "prototype without definition %s%s" % (r1, p1), pre + pr(r1, p1) + "void main() { }\n"
        yield False, "two definitions %s%s" % (r1, p1), pre + df(r1, p1) + df(r1, p1) + "void main() { }\n"
        yield False, "prototype and two definitions %s%s" % (r1, p1), pre + pr(r1, p1) + df(r1, p1) + df(r1, p1) + "void main() { }\n"
        if len(p1) <= 1 and r1 in ("void", "int"):
            for d in ("int f_;\n", "struct f_ { int x; };\n", "enum f_ { W };\n", "enum { f_ };\n", "typedef int f_;\n"):
                yield False, "function and " + d.strip(), pre + df(r1, p1) + d + "void main() { }\n"
                yield False, d.strip() + " and function", pre + d + df(r1, p1) + "void main() { }\n"
    for r1, p1 in itertools.product(RET, sigs):
        for r2, p2 in itertools.product(RET, sigs):
            if (r1, p1) == (r2, p2): continue
            if not T and r1 != r2 and p1 != p2: continue
            if r1 == r2 and len(p1) == len(p2) and all(a == b or {a, b} == {"int *", "int *const"} for a, b in zip(p1, p2)): continue
            yield False, "prototype %s%s of %s%s" % (r1, p1, r2, p2), pre + pr(r1, p1) + df(r2, p2) + "void main() { }\n"
    for t in ("void f_(int) { }", "void f_(int, int b) { }", "void f_(int a, int) { }", "void f_(void a) { }", "void f_(void) { }", "void f_(int a, int a) { }", "void f_(int a b) { }", "void f_(int a,) { }", "void f_(, int a) { }", "void f_(int a;) { }", "void f_(int a { }", "void f_ int a) { }", "void f_(int a = 1) { }", "void f_(a) { }", "void f_(undef a) { }", "void f_(int a[2]) { }",
              "const int f_() { return 1; }", "void f_();", "void f_()", "void f_() { } ;", "void f_() { int g() { } }", "int f_[2]() { }", "f_() { }", "void f_(int a) { int a; }", "void f_() { }; }", "void f_(...) { }", "void f_(int a, ...) { }", "undef f_() { }", "void () { }", "void 1() { }"):
        yield False, "malformed function " + t, pre + t + "\nvoid main() { }\n"
    for t in ("void f_(int a) { { int a; } }", "void f_(int f_) { }", "void f_(int P) { }", "void f_(TI_ a) { }", "TI_ f_() { return 1; }", "P *f_() { return null; }", "struct P f_(struct P a) { return a; }", "const int *f_() { return null; }", "void f_(int a, float b, bool c, char d, P e, E f, int *g) { }", "void f_() { f_(); }", "int f_(int a) { return a ? f_(a - 1) : 0; }", "enum E f_(enum E e) { return e; }"):
        yield True, "well formed function " + t, pre + "typedef int TI_;\n" + t + "\nvoid main() { }\n"


def calls():
    """argument lists of every length for functions of every number of parameters, defined before and after by prototype"""
    args = [("1", I), ("2.5", F), ("true", Bo), ("&gi", ptr(I)), ("null", "null"), ("gs", "struct S"), ("ar_", arr(I)), ("vi", ("fn", I, (I,))), ("vv()", "void")]
    pt = {"int": I, "float": F, "int *": ptr(I), "bool": Bo, "int[]": arr(I), "int (*)(int)": ("fn", I, (I,))}
    n = 3 if T else 2
    for np in range(n + 1):
        for ps in itertools.product(pt, repeat=np):
            for na in range(n + 2):
                pool = args if na <= 2 and np <= 2 else args[:4]
                if na == 3 and np >= 2: pool = args[:3]
                for a in itertools.product(pool, repeat=na):
                    ok = na == np and all(t != "void" and assignable(pt[p], t) is True for p, (_, t) in zip(ps, a))
                    call_ = "f_(%s);" % ", ".join(x for x, _ in a)
                    df = "void f_(%s) { }\n" % ", ".join(NAMED(p, "a%d" % i) for i, p in enumerate(ps))
                    body = "void main() { " + call_ + " }\n"
                    if (na + np + len(call_)) % 2 or np == na == 1: yield ok, "call %s of %s" % (call_, ps), DECL + "int ar_[2];\n" + df + body
                    else: yield ok, "call %s of %s by prototype" % (call_, ps), DECL + "int ar_[2];\n" + "void f_(%s);\n" % ", ".join(ps) + body + df
    for t in ("f_(1", "f_ 1);", "f_(1,);", "f_(,1);", "f_(1 2);", "f_(1;);", "f_(int a);", "f_({1});", "f_();", "f_;f_(1)(2);", "undef(1);", "gi(1);", "1(1);", "P(1);", "gs.x(1);", "f_(1, 2);"):
        yield False, "malformed call " + t, DECL + "int f_(int a) { return a; }\nvoid main() { " + t + " }\n"


def structures():
    """members, their names and types, and where a structure may be used"""
    M = {"int x;": 1, "float x;": 1, "int *x;": 1, "P x;": 1, "P *x;": 1, "int x[2];": 1, "P x[2];": 1, "E x;": 1, "TI x;": 1, "Z *x;": 0, "struct Z *x;": 0, "Z x;": 0, "Z x[2];": 0, "void x;": 0, "undef x;": 0, "int x[];": 0, "int x = 1;": 0, "int x": 0, "int ;": 0, "x;": 0, "int x, y;": 0, "int **x;": 0, "int x[2.5];": 0, "int x[b];": 0, "int x() { }": 0, "const int x;": 1, "int *const x;": 1, "const int *x;": 1, "struct Y { int y; } x;": 1, "enum { W } x;": 1, ";": 0, "int 1;": 0, "case 1: int x;": 0, "int x; }": 0, "const int *const x;": 1, "typedef int x;": 0, "bool x;": 1, "char x;": 1, "int P;": 1, "int Z;": 1, "TP x;": 1}
    base = PRE + "bool b;\n"
    for place in ("global", "local"):
        def w(d): return base + d + "\nvoid main() { }\n" if place == "global" else base + "void main() { " + d + " }\n"
        for m, ok in M.items():
            if m in ("Z *x;", "struct Z *x;"): continue                # pointers to the structure itself: refused here, allowed by the documentation
            yield bool(ok), "member " + m + " " + place, w("struct Z { " + m + " };")
            yield bool(ok), "member " + m + " after another " + place, w("struct Z { int w; " + m + " };")
            yield bool(ok), "member " + m + " before another " + place, w("struct Z { " + m + " int w; };")
            for m2, ok2 in M.items():
                if m2 in ("Z *x;", "struct Z *x;") or not (ok and ok2): continue
                if "{" in m and "{" in m2: continue
                same = [x.split("[")[0].rstrip(";").split(" ")[-1].lstrip("*") for x in (m, m2)]
                yield same[0] != same[1], "members " + m + " " + m2 + " " + place, w("struct Z { " + m + " " + m2 + " };")
                yield True, "members " + m + " and other " + m2 + " " + place, w("struct Z { " + m + " " + m2.replace("x", "y_") + " };") if same[1] == "x" else w("struct Z { int q_; };")
        for d in ("struct Z { int x; } struct Y { int y; };", "struct Z { int x; }", "struct { int x };", "struct Z int x; };", "struct Z;", "struct Z { int x; }; struct Z { int y; };", "struct Z { int x; }; int Z;", "int Z; struct Z { int x; };", "enum Z { W }; struct Z { int x; };", "struct 1 { int x; };", "struct Z Y { int x; };", "struct;", "struct Z { int x; } z_, z_;", "struct Z { int x; } Z;"):
            yield False, "malformed structure " + d + " " + place, w(d)
        for d in ("struct Z { int x; } z_, *y_, w_[2];", "struct Z { int x; }; struct Y { Z z; };", "struct Z { int x; }; struct Y { int x; };", "struct Z { struct Y { int x; } x; int y; };", "struct Z { int x; }; Z z_, *y_; struct Z w_;"):
            yield True, "well formed structure " + d + " " + place, w(d)


def enums():
    """enumerations: names, values (printed) and where they clash"""
    V = {"": None, "0": 0, "5": 5, "-3": -3, "'a'": 97, "2 + 3 * 4": 14, "A": 0, "B": 1, "~1": -2, "(7)": 7, "1 ? 4 : 5": None, "'a' + 1": 98, "B + 1": 2, "-B": -1, "10 / 3": 3, "1 << 4": 16}
    BAD = ["1.5", "true", "gi", "vi(1)", "\"s\"", "null", "undef", "1 2", "{1}", "1 < 2", "!0", "&gi", "=1", "2.0 + 1"]
    n = 3 if T else 3
    vals = [v for v in V if v != "1 ? 4 : 5"]
    for size in range(1, n + 1):
        pool = vals if size <= 2 else vals[:6]
        for vs in itertools.product(pool, repeat=size):
            names = ["N%d" % i for i in range(size)]
            out, cur = [], 0
            for v in vs:
                cur = V[v] if v else cur
                out.append("%d\n" % cur)
                cur += 1
            body = "enum Z { " + ", ".join(nm + (" = " + v if v else "") for nm, v in zip(names, vs)) + " };"
            prints = "".join("print(%s + 0); " % nm for nm in names)
            yield "".join(out), "enumeration " + body, PRE + body + "\nvoid main() { " + prints + "}\n"
            if size <= 2:
                yield "".join(out), "enumeration in a block " + body, PRE + "void main() { " + body + " " + prints + "}\n"
                body2 = body.replace("N1", "N0")
                if size == 2: yield False, "repeated constant " + body2, PRE + body2 + "\nvoid main() { }\n"
    for v in BAD:
        for t in ("enum Z { N0 = %s };", "enum Z { N0, N1 = %s };", "enum Z { N0 = %s, N1 };", "enum { N0 = %s };"):
            yield False, "value " + t % v, PRE + t % v + "\nvoid main() { }\n"
            yield False, "value in a block " + t % v, PRE + "void main() { " + t % v + " }\n"
    for v, r in (("N0 + 1", 4), ("N0", 3), ("-N0", -3), ("N0 * N0", 9)): yield "3\n%d\n" % r, "value of another constant " + v, PRE + "enum Z { N0 = 3, N1 = %s };\nvoid main() { print(N0 + 0); print(N1 + 0); }\n" % v
    for d in ("enum Z { };", "enum { };", "enum Z { , };", "enum Z { 1 };", "enum Z { N0 N1 };", "enum Z { N0; };", "enum Z { N0,, N1 };", "enum Z N0 };", "enum Z { N0;", "enum Z { int };", "enum Z { A };", "enum Z { P };", "enum Z { gi };", "enum Z { vi };", "enum Z { N0 }; int N0;", "int N0; enum Z { N0 };", "enum Z { N0 }; enum Z { N1 };", "enum Z { N0 }; struct Z { int x; };", "enum Z { N0 }; void Z() { }", "enum Z { N0 }; enum Y { N0 };", "enum Z;", "enum;", "enum Z { N0 } }", "enum E { N0 };", "enum P { N0 };", "enum gi { N0 };", "enum Z { N0 }", "enum Z { N0 = };", "enum Z { Z };"):
        yield False, "malformed enumeration " + d, PRE + d + "\nvoid main() { }\n"
    for d in ("enum Z { N0, };", "enum Z { N0, N1, };", "enum Z { N0 }; Z z_ = N0;", "enum Z { N0 } z_; void f_() { z_ = N0; }", "enum Z { N0 }; void f_() { int N0; int Z; }", "enum Z { N0 }; Z f_(Z z) { return z; }", "enum Z { N0 }; struct Y { Z z; };"):
        yield True, "well formed enumeration " + d, PRE + d + "\nvoid main() { }\n"


def typedefs():
    for spec in SPEC:
        for star in ("", "*"):
            ok = SPEC[spec] is not None
            if spec == "void": continue
            yield ok, "typedef %s %s" % (spec, star), PRE + "typedef %s %sZ;\nvoid main() { }\n" % (spec, star)
            if not ok: continue
            t = declared(spec, 0, star, 0, 0)
            for e in (X("1", I, 0, 1), X("2.5", F, 0, 1), X("&gi", ptr(I), 0, 0), X("true", Bo, 0, 1), X("gs", "struct S", 0, 0), X("A", "enum E", 0, 1), X("null", "null", 0, 1)):
                v = assignable(t, e.type)
                if v != UNKNOWN:
                    yield bool(v), "typedef %s %s initialised with %s" % (spec, star, e.text), PRE + "typedef %s %sZ;\nvoid main() { Z z_ = %s; }\n" % (spec, star, e.text)
                    yield bool(v), "typedef %s %s as parameter given %s" % (spec, star, e.text), PRE + "typedef %s %sZ;\nvoid f_(Z z) { }\nvoid main() { f_(%s); }\n" % (spec, star, e.text)
    for d in ("typedef;", "typedef int;", "typedef Z;", "typedef int Z, Y;", "typedef int Z = 1;", "typedef int 1;", "typedef int Z; int Z;", "int Z; typedef int Z;", "typedef int Z; typedef float Z;", "typedef int P;", "typedef int gi;", "typedef int vi;", "typedef int A;", "typedef undef Z;", "typedef int Z", "typedef typedef int Z;", "Z z_; typedef int Z;", "typedef int Z; void Z() { }"):
        yield False, "malformed typedef " + d, PRE + d + "\nvoid main() { }\n"
    for d in ("typedef int Z; Z z_;", "typedef Z_ Z; Z z_;", "typedef int Z; typedef Z Y; Y z_ = 1;", "typedef struct { int x; } Z; Z z_;", "typedef struct W { int x; } Z; Z z_; W y_;", "typedef enum { N0 } Z; Z z_;", "typedef int Z; void f_() { float Z; Z = 1.5; }", "typedef int Z; Z f_(Z z) { return z; }", "typedef P *Z; Z z_;"):
        yield True, "well formed typedef " + d, PRE + "typedef int Z_;\n" + d + "\nvoid main() { }\n"


def alike():
    """types that differ in exactly one part: the name or the type of one member or parameter, or their number"""
    T0, T1 = ["int", "float", "int *", "P", "int", "float *"], {"int": "float", "float": "int", "int *": "float *", "P": "Q_", "float *": "int *"}
    pre = DECL + "struct Q_ { float q1; float q2; };\n"
    for n in range(1, 7):
        a = [(t, "m%d" % i) for i, t in enumerate(T0[:n])]
        variants = [("name of member %d" % i, [(t, "w" if j == i else nm) for j, (t, nm) in enumerate(a)]) for i in range(n)]
        variants += [("type of member %d" % i, [(T1[t] if j == i else t, nm) for j, (t, nm) in enumerate(a)]) for i in range(n)]
        variants += [("one more member", a + [("int", "w")]), ("a member first", [("int", "w")] + a)]
        variants += [("one member less", a[:-1])] if n > 1 else []
        variants += [("order of members", [a[1], a[0]] + a[2:])] if n > 1 else []
        variants += [("order of the last members", a[:-2] + [a[-1], a[-2]])] if n > 2 else []
        for what, b in variants:
            for first, second in ((a, b), (b, a)):
                d = lambda nm, ms: "struct %s { %s };\n" % (nm, " ".join("%s%s;" % (t if t.endswith("*") else t + " ", m) for t, m in ms))
                for head in (pre + d("Y_", first) + d("Z_", second), pre + d("Y_", first) + "struct W_ { int u; };\nvoid h_(int *p, float f) { }\n" + d("Z_", second)):
                    glob = head + "Y_ y_; Z_ z_; Y_ *py_; Z_ *pz_;\nvoid fy_(Y_ a) { }\nvoid fz_(Z_ *a) { }\n"
                    body = lambda x: glob + "void main() { " + x + " }\n"
                    for x in ("y_ = z_;", "z_ = y_;", "py_ = &z_;", "pz_ = py_;", "fy_(z_);", "fz_(&y_);", "fz_(py_);", "Y_ l_ = z_;", "Z_ *l_ = &y_;"): yield False, "alike structures: %s of %d: %s" % (what, n, x), body(x)
                    for x in ("y_ = y_;", "z_ = z_;", "py_ = &y_;", "pz_ = &z_;", "fy_(y_);", "fz_(&z_);", "fz_(pz_);", "Y_ l_ = y_;", "Z_ *l_ = pz_;"): yield True, "alike structures: %s of %d: %s" % (what, n, x), body(x)
                    for v, p, ms, other in (("y_", "py_", first, second), ("z_", "pz_", second, first)):
                        for t, m in ms:
                            yield True, "alike structures: %s of %d: member %s" % (what, n, m), body("%s.%s = %s->%s;" % (v, m, p, m))
                            for bad in ("int *", "float *", "P", "Q_"):
                                if bad != t: yield False, "alike structures: %s of %d: %s read as %s" % (what, n, m, bad), body("%s%sl_ = %s.%s;" % (bad, "" if bad.endswith("*") else " ", v, m))
                        for t, m in other:
                            if m not in [q for _, q in ms]: yield False, "alike structures: %s of %d: no member %s" % (what, n, m), body("%s.%s;" % (v, m)); yield False, "alike structures: %s of %d: no member ->%s" % (what, n, m), body("%s->%s;" % (p, m))
        # parameters of functions
        for i in range(n):
            ps, qs = T0[:n], [T1[t] if j == i else t for j, t in enumerate(T0[:n])]
            df = lambda nm, r, l: "%s %s(%s) { %s }\n" % (r, nm, ", ".join("%s%sa%d" % (t, "" if t.endswith("*") else " ", j) for j, t in enumerate(l)), "return 1;" if r == "int" else "")
            for r in ("void", "int"):
                for l1, l2 in ((ps, qs), (qs, ps), (ps, ps + ["int"]), (ps + ["int"], ps)):
                    glob = pre + df("f_", r, l1) + df("g_", r, l2) + "void h_(%s (*x)(%s)) { }\nvoid main() { " % (r, ", ".join(l1))
                    yield True, "alike functions: parameter %d of %d" % (i, n), glob + "h_(f_); }\n"
                    yield False, "alike functions: parameter %d of %d" % (i, n), glob + "h_(g_); }\n"
                    yield False, "alike functions: prototype, parameter %d of %d" % (i, n), pre + "%s f_(%s);\n" % (r, ", ".join(l1)) + df("f_", r, l2) + "void main() { }\n"
                    yield True, "alike functions: prototype, parameter %d of %d" % (i, n), pre + "%s f_(%s);\n" % (r, ", ".join(l1)) + df("f_", r, l1) + df("g_", r, l2) + "void main() { }\n"


def main():
    for name, gen in (("declarations", decls), ("initialisers and arguments", operands), ("bounds", bounds), ("lengths", lengths), ("functions", prototypes), ("calls", calls), ("alike types", alike), ("structures", structures), ("enumerations", enums), ("type definitions", typedefs)):
        verdict.explore(c, gen(), name, show=SHOW, per_label=1 if not SHOW else 4, group=lambda l: " ".join(l.split(" ")[:2]) + l.split(" ")[-1])
    sys.exit(c.finish())


if __name__ == "__main__": main()
