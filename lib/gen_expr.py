"""Enumerations of expressions (C10, C20, C21)."""
import itertools
from ref import *
from cases import Case

BIN = ["*", "/", "%", "+", "-", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "^", "|", "&&", "||"]
UNS = ["-", "~", "!", "abs"]
VALS = [0, 1, -1, 2, 7, -8, 31, INT_MAX, INT_MIN]
SMALL = [0, 1, -3, 6]
FVALS = [0.0, 1.5, -2.25, 1e6]

PARAMS = [("a", "i"), ("b", "i"), ("c", "i")]


def arg(v, t):
    if t == "f": return repr(v)
    if t == "b": return "true" if v else "false"
    if t == "c": return "'%s'" % chr(v)
    return "-2147483647 - 1" if v == INT_MIN else str(v)


def fun_case(params, e, vectors, tag=None, post="", setup=""):
    """A function that prints the expression, called with every vector for which it is defined."""
    sig = ", ".join(TNAME[t] + " " + n for n, t in params)
    body = setup + "printf(\"%s \", %s);" % (directive(e.t), shown(e)) + post
    calls, out = [], []
    for vec in vectors:
        env = Env({n: v for (n, _), v in zip(params, vec)})
        try:
            r = e.ev(env)
        except Undef:
            continue
        calls.append("f@(" + ", ".join(arg(v, t) for (n, t), v in zip(params, vec)) + ");")
        out.append("".join(env.trace) + fmt(e.t, r) + " ")
    if not calls:
        return None
    return Case("void f@(%s)\n{\n\t%s\n}\n" % (sig, body), calls, "".join(out), tag or e.s)


def some(gen):
    return (x for x in gen if x is not None)


# ---- A: precedence, associativity and values of all pairs of operators on int
def pairs(full):
    a, b, c = (var(n, "i") for n, _ in PARAMS)
    vals = [0, 1, -3, 6, 31] if full else [1, -3, 6]
    vecs = list(itertools.product(vals, repeat=3)) + [(INT_MAX, 1, 0), (INT_MIN, 1, 0), (0, INT_MIN, INT_MAX), (7, 2, 2), (-8, 3, 1), (-7, -2, 3)]
    for o1 in BIN:
        for o2 in BIN:
            for shape in (0, 1):
                if shape == 0:
                    l = bi(o2, a, b)
                    e = l and bi(o1, l, c)
                else:
                    r = bi(o2, b, c)
                    e = r and bi(o1, a, r)
                if e:
                    yield fun_case(PARAMS, e, vecs)


# ---- B: three operators (thorough)
def triples():
    ops = ["*", "%", "+", "-", "<<", "<", "==", "&", "^", "|", "&&", "||"]
    P = PARAMS + [("d", "i")]
    a, b, c, d = (var(n, "i") for n, _ in P)
    vecs = list(itertools.product([0, 3, -2], repeat=4))[::2] + [(7, 2, 3, 5)]
    for o1, o2, o3 in itertools.product(ops, repeat=3):
        def mk(o, l, r): return l and r and bi(o, l, r)
        for e in (mk(o1, mk(o2, mk(o3, a, b), c), d), mk(o1, mk(o2, a, mk(o3, b, c)), d), mk(o1, mk(o2, a, b), mk(o3, c, d))
                  , mk(o1, a, mk(o2, mk(o3, b, c), d)), mk(o1, a, mk(o2, b, mk(o3, c, d)))):
            if e:
                yield fun_case(P, e, vecs)


# ---- C: unary operators on and under binary ones
def unaries():
    a, b = var("a", "i"), var("b", "i")
    vecs = list(itertools.product(VALS, repeat=2))
    for u in UNS:
        yield fun_case(PARAMS[:2], un(u, a), [(v, 0) for v in VALS])
        for u2 in UNS:
            i = un(u2, a)
            e = un(u, i)
            if e: yield fun_case(PARAMS[:2], e, [(v, 0) for v in VALS], "%s after %s" % (u, u2))
        for o in BIN:
            for e in (bi(o, un(u, a), b), bi(o, a, un(u, b)), (lambda x: x and un(u, x))(bi(o, a, b))):
                if e: yield fun_case(PARAMS[:2], e, vecs)


# ---- D: every operator on every pair of operand types, as variables and as literals
TV = {"i": [0, 3, -5, 1000000, 16777217, -2147483647], "c": [65, 97, 48], "b": [0, 1], "f": FVALS}


def typed():
    for o in BIN + [","]:
        for lt in "icbf":
            for rt in "icbf":
                if result_type(o, lt, rt) is None: continue
                P = [("a", lt), ("b", rt)]
                yield fun_case(P, bi(o, var("a", lt), var("b", rt)), itertools.product(TV[lt], TV[rt]), "%s %s %s" % (lt, o, rt))
                for v in TV[rt]:
                    e = bi(o, var("a", lt), lit(v, rt))
                    yield fun_case([("a", lt)], e, [(x,) for x in TV[lt]], "%s %s literal %s" % (lt, o, v))
                for v in TV[lt]:
                    e = bi(o, lit(v, lt), var("b", rt))
                    yield fun_case([("b", rt)], e, [(x,) for x in TV[rt]], "literal %s %s %s" % (v, o, rt))
    for u in UNS:
        for t in "icbf":
            e = un(u, var("a", t))
            if e: yield fun_case([("a", t)], e, [(x,) for x in TV[t]], "%s %s" % (u, t))
    for ct in "icb":
        for lt in "icbf":
            for rt in "icbf":
                P = [("p", ct), ("a", lt), ("b", rt)]
                e = cond(var("p", ct), var("a", lt), var("b", rt))
                if e: yield fun_case(P, e, itertools.product(TV[ct], TV[lt][:3], TV[rt][:3]), "%s ? %s : %s" % (ct, lt, rt))


# ---- E: mixed int/float trees of two operators
def mixed():
    ar = ["*", "/", "+", "-", "<", ">", "<=", ">=", "==", "!="]
    for o1 in ar[:4] + ["<", "=="]:
        for o2 in ar[:4]:
            for ts in itertools.product("if", repeat=3):
                P = list(zip("abc", ts))
                a, b, c = (var(n, t) for n, t in P)
                vecs = list(itertools.product(*[{"i": [0, 3, -2], "f": [0.5, -3.25]}[t] for t in ts]))
                for e in (bi(o1, bi(o2, a, b), c), bi(o1, a, bi(o2, b, c))):
                    if e: yield fun_case(P, e, vecs, "%s over %s" % (e.s, "".join(ts)))


# ---- F: evaluation order and count: logical, conditional and comma operators over traced leaves
def tracer(n, name):
    def ev(v):
        v.trace.append("<%d>" % n)
        return v[name]
    return E("i", PRIM, "tr(%d, %s)" % (n, name), ev)


def orders(depth):
    names = "abcde"

    def trees(n):
        """All operator trees with n leaves."""
        if n == 1:
            yield ("leaf",)
            yield ("!", ("leaf",))
            return
        for k in range(1, n):
            for l in trees(k):
                for r in trees(n - k):
                    for o in ("&&", "||", ","):
                        yield (o, l, r)
        if n >= 3:
            for i in range(1, n - 1):
                for j in range(1, n - i):
                    for c in trees(i):
                        for l in trees(j):
                            for r in trees(n - i - j):
                                yield ("?", c, l, r)

    def build(t, ctr):
        if t[0] == "leaf":
            ctr[0] += 1
            return tracer(ctr[0], names[ctr[0] - 1])
        if t[0] == "!":
            x = build(t[1], ctr)
            return x and un("!", x)
        if t[0] == "?":
            xs = [build(x, ctr) for x in t[1:]]
            return None if None in xs else cond(*xs)
        l = build(t[1], ctr)
        r = build(t[2], ctr)
        return l and r and bi(t[0], l, r)
    for n in range(2, depth + 1):
        P = [(names[i], "i") for i in range(n)]
        vecs = list(itertools.product([0, 5], repeat=n))
        for t in trees(n):
            if n >= 4 and str(t).count("!") > 1: continue
            e = build(t, [0])
            if e: yield fun_case(P, e, vecs)


# ---- G: assignments and increments through every kind of lvalue
def lvalues(t, llvm=False):
    """(kind, top-level text, local text, lvalue text, text reading the object back)"""
    T = TNAME[t]
    yield "local", "", "%s x;" % T, "x", "x"
    yield "global", "%s x@;" % T, "", "x@", "x@"
    yield "element", "", "%s v[3];" % T, "v[1]", "v[1]"
    yield "computed element", "", "%s v[3]; int k = 1;" % T, "v[k + 1]", "v[2]"
    yield "global element", "%s v@[3];" % T, "", "v@[2]", "v@[2]"
    yield "matrix element", "", "%s v[2][3];" % T, "v[1][2]", "v[1][2]"
    yield "member", "struct S@ { int z; %s x; };" % T, "struct S@ s;", "s.x", "s.x"
    yield "global member", "struct S@ { float z; %s x; }; struct S@ s@;" % T, "", "s@.x", "s@.x"
    yield "arrow", "struct S@ { int z; %s x; };" % T, "struct S@ s; struct S@ *p = &s;", "p->x", "s.x"
    yield "deref", "", "%s x; %s *p = &x;" % (T, T), "*p", "x"
    yield "global deref", "%s x@; %s *p@;" % (T, T), "p@ = &x@;", "*p@", "x@"
    yield "member of element", "struct S@ { int z; %s x; };" % T, "struct S@ v[2];", "v[1].x", "v[1].x"
    yield "element of member", "struct S@ { int z; %s x[3]; };" % T, "struct S@ s;", "s.x[1]", "s.x[1]"
    yield "parameter", "", None, "y", "y"


def assigns():
    for t in "icbf":
        vals = {"i": [5, -7, 100], "c": [65, 100], "b": [0, 1], "f": [1.5, -2.0]}[t]
        for kind, top, loc, text, back in lvalues(t):
            ops = ["=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "^=", "|="]
            exprs = []
            lv = LV("x", t, text)
            for o in ops:
                for rt in "icbf":
                    e = asg(o, lv, var("r", rt))
                    if e: exprs.append((e, rt, "%s %s %s" % (kind, o, rt)))
            for o in ("++", "--"):
                for post in (True, False):
                    e = inc(o, lv, post)
                    if e: exprs.append((e, "i", "%s %s%s" % (kind, "post" if post else "pre", o)))
            for e, rt, tag in exprs:
                rvals = {"i": [3, -2], "c": [66, 49], "b": [0, 1], "f": [0.25, -4.0]}[rt]
                for ctx in ("void", "value", "operand", "comma", "branch"):
                    if t == "b" and ctx == "operand": continue
                    yield assign_case(t, e, rt, vals, rvals, ctx, top, loc, text, back, tag + " on " + TNAME[t] + " as " + ctx)


def assign_case(t, e, rt, vals, rvals, ctx, top, loc, text, back, tag):
    T = TNAME[t]
    params = [("y", t), ("r", rt)]
    sig = ", ".join(TNAME[x] + " " + n for n, x in params)
    out, calls = [], []
    init = "" if loc is None else (loc + " " if loc else "") + text + " = y; "
    pv = "printf(\"%s \", %s);" % (directive(t), back + " ? 1 : 0" if t == "b" else back)
    if ctx == "void":
        stmt = e.s + ";"
    elif ctx == "value":
        stmt = "printf(\"%s \", %s);" % (directive(t), shown(e))
    elif ctx == "operand":
        stmt = "printf(\"%s \", 1 + %s);" % (directive(t), par(e, 13))
    elif ctx == "comma":
        stmt = "int k0 = 0; k0 = 1, %s; printf(\"%%i \", k0);" % e.s
        stmt = stmt.replace("k0 = 1, %s" % e.s, "k0 = (%s, 4)" % e.s)
    else:
        stmt = "if (%s) { %s; } else { %s; }" % ("r" if rt != "f" else "r > 0", e.s, e.s) + " while (false) %s;" % e.s
    for a in vals:
        for b in rvals:
            env = Env({"x": a, "r": b, "y": a})
            try:
                v = e.ev(env)
                s = ""
                if ctx == "value": s = fmt(t, v) + " "
                elif ctx == "operand": s = fmt(t, (no_overflow(v + 1) if t != "f" else v + 1)) + " "
                elif ctx == "comma": s = "4 "
            except Undef:
                continue
            out.append(s + fmt(t, env["x"]) + " ")
            calls.append("f@(%s, %s);" % (arg(a, t), arg(b, rt)))
    if not calls: return None
    body = init + stmt + " " + pv
    return Case((top + "\n" if top else "") + "void f@(%s)\n{\n\t%s\n}\n" % (sig, body), calls, "".join(out), tag)


# ---- H: reading every kind of object inside an expression
def reads():
    for t in "icbf":
        for kind, top, loc, text, back in lvalues(t):
            if loc is None: continue
            lv = LV("x", t, text)
            k = E("i", PRIM, "g", lambda v: v["g"])
            es = [bi("+", lv, k), bi("-", k, lv), bi("<", k, lv), bi("&&", lv, k), bi("||", k, lv), un("-", lv), un("!", lv), cond(lv, k, k), cond(k, lv, lv)
                  , bi("==", lv, lv), bi("*", lv, lv)]
            for e in some(es):
                out, calls = [], []
                for a in {"i": [5, -7, 0], "c": [65, 100], "b": [0, 1], "f": [1.5, -2.0]}[t]:
                    for g in (0, 4):
                        try: v = e.ev(Env({"x": a, "g": g}))
                        except Undef: continue
                        out.append(fmt(e.t, v) + " ")
                        calls.append("f@(%s, %d);" % (arg(a, t), g))
                body = (loc + " " if loc else "") + text + " = y; printf(\"%s \", %s);" % (directive(e.t), shown(e))
                yield Case((top + "\n" if top else "") + "void f@(%s y, int g)\n{\n\t%s\n}\n" % (TNAME[t], body), calls, "".join(out), "%s read in %s (%s)" % (kind, e.s, TNAME[t]))


def all_cases(thorough, llvm=False):
    yield from some(pairs(thorough))
    yield from some(unaries())
    yield from some(typed())
    yield from some(mixed())
    yield from some(orders(4 if thorough else 3))
    yield from some(assigns())
    yield from some(reads())
    if thorough:
        yield from some(triples())
