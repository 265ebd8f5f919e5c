"""Enumerations of aggregates and pointers (C12, C20): declaration shapes with initialisers, groups of neighbouring
objects, access histories, copies and pointers."""
import itertools, re
from ref import TNAME, fmt, directive
from cases import Case

VAL = {"i": lambda n: n * 7 - 20, "c": lambda n: 65 + n % 57, "b": lambda n: n % 2, "f": lambda n: n * 1.25 - 3}


def show(t, s):
    return "%s ? 1 : 0" % s if t == "b" else s


def pr(t, s):
    return "printf(\"%s \", %s);" % (directive(t), show(t, s))


def src(t, v):
    if t == "f": return repr(float(v))
    if t == "b": return "true" if v else "false"
    if t == "c": return "'%s'" % chr(v) if chr(v) not in "'\\\"" else str(v)
    return str(v)


def cells(dims):
    return list(itertools.product(*[range(d) for d in dims]))


def sub(ix):
    return "".join("[%d]" % i for i in ix)


def nest(dims, vals):
    if len(dims) == 1: return "{" + ", ".join(vals) + "}"
    n = len(vals) // dims[0]
    return "{" + ", ".join(nest(dims[1:], vals[i * n:(i + 1) * n]) for i in range(dims[0])) + "}"


DIMS = [(1,), (2,), (3,), (5,), (1, 1), (1, 3), (2, 2), (3, 2), (2, 1, 2), (2, 2, 2), (1, 2, 3), (2, 2, 1, 2)]


# ---- A: arrays: scope x type x dimensions x bounds and initialiser form; then every single write, reading all back
def arrays(llvm=False):
    for t in "icbf":
        T = TNAME[t]
        for dims in DIMS:
            n = 1
            for d in dims: n *= d
            cs = cells(dims)
            vals = [VAL[t](k + 1) for k in range(n)]
            for scope in ("global", "local", "block"):
                for form in ("none", "literals", "ints", "exprs", "empty", "computed", "const"):
                    if form == "ints" and t != "f": continue
                    if form == "empty" and len(dims) > 1: continue
                    if form in ("exprs", "computed") and scope == "global": continue
                    name = "v@" if scope == "global" else "v"
                    b = sub(dims)
                    pre = ""
                    if form == "empty": b = "[]"
                    if form == "computed":
                        b = "".join("[n + %d]" % (d - 1) for d in dims)
                        pre = "int n = 1; "
                    if form in ("literals", "empty", "const"): init = " = " + nest(dims, [src(t, v) for v in vals])
                    elif form == "ints":
                        vals = [float(k - 2) for k in range(n)]
                        init = " = " + nest(dims, [str(k - 2) for k in range(n)])
                    elif form == "exprs":
                        pre = "%s e = %s; " % (T, src(t, vals[0]))
                        vals = [vals[0] if k % 2 else VAL[t](k + 1) for k in range(n)]
                        init = " = " + nest(dims, ["e" if k % 2 else src(t, vals[k]) for k in range(n)])
                    else: init = ""
                    decl = "%s%s %s%s%s;" % ("const " if form == "const" else "", T, name, b, init)
                    body, out = [], []
                    if not init:
                        for c, v in zip(cs, vals): body.append("%s%s = %s;" % (name, sub(c), src(t, v)))
                    for c, v in zip(cs, vals):
                        body.append(pr(t, name + sub(c)))
                        out.append(fmt(t, v) + " ")
                    if len(dims) == 1 or not llvm:
                        body.append("printf(\"%%i \", upb(%s));" % name)
                        out.append("%d " % dims[0])
                    if len(dims) > 1 and not llvm:
                        body.append("printf(\"%%i \", upb(%s[0]));" % name)
                        out.append("%d " % dims[1])
                    if form != "const":
                        for k, c in enumerate(cs):
                            nv = VAL[t](k + 40)
                            body.append("%s%s = %s;" % (name, sub(c), src(t, nv)))
                            vals2 = list(vals)
                            vals2[k] = nv
                            for c2, v in zip(cs, vals2):
                                body.append(pr(t, name + sub(c2)))
                                out.append(fmt(t, v) + " ")
                            body.append("%s%s = %s;" % (name, sub(c), src(t, vals[k])))
                    st = " ".join(body)
                    if scope == "global": top, fn = decl + "\n", st
                    elif scope == "local": top, fn = "", pre + decl + " " + st
                    else: top, fn = "", "int z = 1; if (z) { " + pre + decl + " " + st + " }"
                    yield Case(top + "void f@() { %s }\n" % fn, ["f@();"], "".join(out), "%s array %s%s %s" % (scope, T, sub(dims), form))


# ---- B: groups of neighbouring objects of every shape: all cells written in every order, all read back
def objects():
    """(name, top-level text, declaration of NAME, list of (type, cell text of NAME))"""
    for t in "icbf": yield TNAME[t], "", TNAME[t] + " NAME;", [(t, "NAME")]
    for t in "icbf": yield TNAME[t] + "[2]", "", TNAME[t] + " NAME[2];", [(t, "NAME[0]"), (t, "NAME[1]")]
    yield "float[2][2]", "", "float NAME[2][2];", [("f", "NAME[%d][%d]" % (i, j)) for i in (0, 1) for j in (0, 1)]
    yield "struct", "", "struct A@ NAME;", [("i", "NAME.x"), ("f", "NAME.y"), ("c", "NAME.z")]
    yield "nested struct", "", "struct B@ NAME;", [("f", "NAME.p"), ("i", "NAME.a.x"), ("f", "NAME.a.y"), ("c", "NAME.a.z"), ("b", "NAME.q")]
    yield "struct with array", "", "struct C@ NAME;", [("i", "NAME.h"), ("f", "NAME.w[0]"), ("f", "NAME.w[1]"), ("i", "NAME.t")]
    yield "array of struct", "", "struct A@ NAME[2];", [(t, "NAME[%d].%s" % (i, m)) for i in (0, 1) for t, m in (("i", "x"), ("f", "y"), ("c", "z"))]
    yield "array of struct with array", "", "struct C@ NAME[2];", [(t, "NAME[%d].%s" % (i, m)) for i in (0, 1) for t, m in (("i", "h"), ("f", "w[0]"), ("f", "w[1]"), ("i", "t"))]


STRUCTS = "struct A@ { int x; float y; char z; }; struct B@ { float p; struct A@ a; bool q; }; struct C@ { int h; float w[2]; int t; };\n"


def groups(k, llvm=False):
    obs = [o for o in objects() if not (llvm and "with array" in o[0])]
    for combo in itertools.product(obs, repeat=k):
        for scope in ("global", "local", "block", "mixed"):
            if scope in ("block", "mixed") and k != 2: continue
            decls, cs = [], []
            for j, (n, top, d, cl) in enumerate(combo):
                name = "abc"[j] + ("@" if scope == "global" or (scope == "mixed" and j == 0) else "")
                decls.append(d.replace("NAME", name))
                cs += [(t, c.replace("NAME", name)) for t, c in cl]
            body, out = [], []
            for order in (range(len(cs)), range(len(cs) - 1, -1, -1)):
                vals = {}
                for q, i in enumerate(order):
                    vals[i] = VAL[cs[i][0]](q + 3)
                    body.append("%s = %s;" % (cs[i][1], src(cs[i][0], vals[i])))
                for i, (t, c) in enumerate(cs):
                    body.append(pr(t, c))
                    out.append(fmt(t, vals[i]) + " ")
            st = " ".join(body)
            if scope == "global": top, fn = " ".join(decls) + "\n", st
            elif scope == "local": top, fn = "", " ".join(decls) + " " + st
            elif scope == "mixed": top, fn = decls[0] + "\n", decls[1] + " " + st
            else: top, fn = "", "int z = 0; { " + "int y0; y0 = 7; } " + decls[0] + " { int y1 = 5; " + decls[1] + " { float y2 = 2.5; " + st + " printf(\"%i %f \", y1, y2); } } printf(\"%i \", z);"
            if scope == "block": out.append("5 2.500000 0 ")
            yield Case((STRUCTS if not llvm else STRUCTS[:STRUCTS.index(" struct C@")] + "\n") + top + "void f@() { %s }\n" % fn, ["f@();"], "".join(out), "%s group: %s" % (scope, ", ".join(o[0] for o in combo)))


# ---- B2: structures with array members at every position, alone, in arrays and through pointers
PARTS = {"i": ("int %s;", [("i", "%s")]), "f": ("float %s;", [("f", "%s")]), "I": ("int %s[2];", [("i", "%s[0]"), ("i", "%s[1]")]), "F": ("float %s[2];", [("f", "%s[0]"), ("f", "%s[1]")]),
         "c": ("char %s[3];", [("c", "%s[0]"), ("c", "%s[2]")]), "s": ("struct A@ %s;", [("i", "%s.x"), ("f", "%s.y"), ("c", "%s.z")]), "p": ("int *%s;", [])}


def layouts(longest):
    for n in range(2, longest + 1):
        for seq in itertools.product(PARTS, repeat=n):
            if not set(seq) & set("IFc"): continue
            ms = [(k, "m%d" % j) for j, k in enumerate(seq)]
            decl = "struct L@ { %s };" % " ".join(PARTS[k][0] % m for k, m in ms)
            cs = [(t, c % m) for k, m in ms for t, c in PARTS[k][1]]
            for place, d, objs in (("local", "struct L@ a; struct L@ b;", ["a.", "b."]), ("global", "struct L@ a@; struct L@ b@;", ["a@.", "b@."]), ("elements", "struct L@ v[2];", ["v[1].", "v[0]."]),
                                   ("pointed to", "struct L@ a; struct L@ b; struct L@ *p = &b;", ["a.", "p->"])):
                if n == longest and n > 2 and place in ("global", "elements"): continue
                body, out, vals = [], [], {}
                for q, (o, (t, m)) in enumerate(itertools.product(objs, cs)):
                    vals[o, m] = VAL[t](q + 3)
                    body.append("%s%s = %s;" % (o, m, src(t, vals[o, m])))
                for o, (t, m) in itertools.product(objs, cs):
                    body.append(pr(t, o + m))
                    out.append(fmt(t, vals[o, m]) + " ")
                yield Case("struct A@ { int x; float y; char z; }; %s\n%svoid f@() { %s %s }\n" % (decl, d + "\n" if place == "global" else "", "" if place == "global" else d, " ".join(body))
                           , ["f@();"], "".join(out), "%s structures of layout %s" % (place, "".join(seq)))


# ---- C: structure initialisers and copies
def flat(ms):
    for t, n in ms: yield t, n


SHAPES = [[("i", "x")], [("f", "x")], [("i", "x"), ("f", "y")], [("f", "x"), ("i", "y")], [("c", "x"), ("b", "y"), ("f", "z")], [("f", "x"), ("f", "y")], [("i", "x"), ("i", "y"), ("i", "z"), ("f", "w")]]


def structs():
    for ms in SHAPES:
        for scope in ("global", "local"):
            for nested in (False, True):
                S = "struct S@ { %s };" % " ".join("%s %s;" % (TNAME[t], n) for t, n in ms)
                N = "struct N@ { int k; struct S@ s; float e; };"
                ty = "N@" if nested else "S@"
                mem = [("i", "k")] + [(t, "s." + n) for t, n in ms] + [("f", "e")] if nested else ms

                def ini(vals):
                    it = iter([src(t, v) for (t, _), v in zip(mem, vals)])
                    if not nested: return "{" + ", ".join(it) + "}"
                    k = next(it)
                    return "{%s, {%s}, %s}" % (k, ", ".join(next(it) for _ in ms), next(it))
                v1 = [VAL[t](i + 2) for i, (t, _) in enumerate(mem)]
                v2 = [VAL[t](i + 31) for i, (t, _) in enumerate(mem)]

                def dump(o): return " ".join(pr(t, o + "." + n) for t, n in mem)

                def show_(vals): return "".join(fmt(t, v) + " " for (t, _), v in zip(mem, vals))

                def setall(o, vals): return " ".join("%s.%s = %s;" % (o, n, src(t, v)) for (t, n), v in zip(mem, vals))
                a, b = ("a@", "b@") if scope == "global" else ("a", "b")
                tops = S + " " + N + "\n"
                d = "struct %s %s = %s; struct %s %s;" % (ty, a, ini(v1), ty, b)
                g, l = (d + "\n", "") if scope == "global" else ("", d)
                tag = "%s %sstruct {%s}" % (scope, "nested " if nested else "", ", ".join(TNAME[t] for t, _ in ms))
                for what, extra, body, out in [
                    ("initialiser", "", dump(a), show_(v1)),
                    ("assignment", "", "%s = %s; %s %s %s" % (b, a, setall(a, v2), dump(b), dump(a)), show_(v1) + show_(v2)),
                    ("chain", "", "struct %s c; c = %s = %s; %s c = %s = c; %s %s" % (ty, b, a, setall(a, v2), b, dump("c"), dump(b)), show_(v1) + show_(v1)),
                    ("chain through places", "", "struct %s c[2]; struct %s *p = &%s; *p = c[1] = %s; c[0] = *p = c[1]; %s %s %s" % (ty, ty, b, a, dump("c[0]"), dump("c[1]"), dump(b)), show_(v1) * 3),
                    ("assignment as argument", "void g@(struct %s p, int q) { %s printf(\"%%i \", q); }\n" % (ty, dump("p")), "g@(%s = %s, 6); %s" % (b, a, dump(b)), show_(v1) + "6 " + show_(v1)),
                    ("initialised copy", "", "struct %s c = %s; %s %s" % (ty, a, setall(a, v2), dump("c")), show_(v1)),
                    ("argument", "void g@(struct %s p) { %s %s %s }\n" % (ty, dump("p"), setall("p", v2), dump("p")), "g@(%s); %s" % (a, dump(a)), show_(v1) + show_(v2) + show_(v1)),
                    ("two arguments", "void g@(int q, struct %s p, float r, struct %s o) { printf(\"%%i %%f \", q, r); %s %s }\n" % (ty, ty, dump("p"), dump("o"))
                     , setall(b, v2) + " g@(5, %s, 1.5, %s);" % (b, a), "5 1.500000 " + show_(v2) + show_(v1)),
                    ("result", "struct %s g@(int q) { struct %s r = %s; if (q) r = r; return r; }\n" % (ty, ty, ini(v2)), "%s = g@(1); %s" % (b, dump(b)), show_(v2)),
                    ("member of result", "struct %s g@() { struct %s r = %s; return r; }\n" % (ty, ty, ini(v2)), " ".join(pr(t, "g@()." + n) for t, n in mem), show_(v2)),
                    ("array of structures", "", "struct %s u[3]; %s %s u[0] = %s; u[1] = %s; u[2] = u[1]; %s %s u[1] = u[0]; %s" % (
                        ty, setall(b, v2), setall(a, v1), a, b, dump("u[0]"), dump("u[2]"), dump("u[1]")), show_(v1) + show_(v2) + show_(v1)),
                    ("initialised array", "", "struct %s u[2] = {%s, %s}; %s %s" % (ty, ini(v1), ini(v2), dump("u[0]"), dump("u[1]")), show_(v1) + show_(v2)),
                    ("pointer", "", "struct %s *p = &%s; %s = *p; %s %s" % (ty, a, b, " ".join("p->%s = %s;" % (n, src(t, v)) for (t, n), v in zip(mem, v2)), dump(a) + " " + dump(b)), show_(v2) + show_(v1)),
                    ("store through pointer", "", "struct %s *p = &%s; %s *p = %s; %s (*p).%s = %s; %s" % (ty, b, setall(b, v2), a, dump(b), mem[0][1], src(mem[0][0], v2[0]), dump(b)), show_(v1) + show_([v2[0]] + v1[1:])),
                ]:
                    yield Case(tops + g + extra + "void f@() { %s %s }\n" % (l, body), ["f@();"], out, tag + ": " + what)


# ---- D: pointers: every sequence of pointer operations up to the length bound against a reference store
def pointers(length):
    """p and q point to objects; operations move, store through and read through them."""
    for t in "if":
        T = TNAME[t]
        targets = [("x", "x"), ("y", "y"), ("v[1]", "v1"), ("s.m", "sm"), ("g@", "g")]
        ops = []
        for p in "pq":
            for txt, name in targets: ops.append(("&", p, txt, name))
            ops.append(("=", p, "", ""))
        ops += [("copy", "p", "q", ""), ("copy", "q", "p", ""), ("inc", "p", "", ""), ("add", "q", "p", "")]
        for start in (("x", "y"), ("v[1]", "x"), ("g@", "s.m")):
            for seq in itertools.product(ops, repeat=length):
                store = {"x": 1, "y": 2, "v1": 3, "sm": 4, "g": 5}
                nm = dict((a, b) for a, b in targets)
                pt = {"p": nm[start[0]], "q": nm[start[1]]}
                body, k = [], 10
                for o, a, b, c in seq:
                    if o == "&":
                        body.append("%s = &%s;" % (a, b))
                        pt[a] = c
                    elif o == "=":
                        k += 7
                        body.append("*%s = %d;" % (a, k))
                        store[pt[a]] = k
                    elif o == "copy":
                        body.append("%s = %s;" % (a, b))
                        pt[a] = pt[b]
                    elif o == "inc":
                        body.append("(*%s)++;" % a)
                        store[pt[a]] += 1
                    else:
                        body.append("*%s += *%s;" % (a, b))
                        store[pt[a]] += store[pt[b]]
                if sum(1 for o in seq if o[0] not in ("&", "copy")) == 0: continue
                d = directive(t)
                out = " ".join(fmt(t, store[n]) for _, n in targets) + " " + fmt(t, store[pt["p"]]) + " " + fmt(t, store[pt["q"]])
                yield Case("%s g@; struct S@ { %s z; %s m; %s e; };\nvoid f@() { %s x = 1; %s y = 2; %s v[3]; struct S@ s; v[0] = v[2] = 50; v[1] = 3; s.m = 4; s.z = s.e = 60; g@ = 5; %s *p = &%s; %s *q = &%s; %s "
                           "printf(\"%s\", x, y, v[1], s.m, g@, *p, *q); if (v[0] != 50 || v[2] != 50 || s.z != 60 || s.e != 60) printf(\"!\"); }\n"
                           % (T, T, T, T, T, T, T, T, start[0], T, start[1], " ".join(body), " ".join([d] * 7)), ["f@();"], out, "%s pointers from %s: %s" % (T, start, " ".join(body)))


# ---- E: pointers kept in objects
def kept():
    for t in "icbf":
        T = TNAME[t]
        v = [VAL[t](k) for k in (3, 8, 14)]
        for decl, place in (("%s *h[2];", "h[1]"), ("%s *h[2][2];", "h[1][0]"), ("struct P@ h;", "h.p"), ("struct P@ h[2];", "h[1].p"), ("struct P@ w; struct P@ *h = &w;", "h->p"), ("struct P@ w[2]; struct P@ *h = &w[1];", "h->p")):
            body = ("%s x = %s; %s y = %s; %s = &x; %s %s = &y; %s *%s = %s; %s %s %s *l = %s; *l = %s; %s %s"
                    % (T, src(t, v[0]), T, src(t, v[1]), place, pr(t, "*" + place), place, pr(t, "*" + place), place, src(t, v[2]), pr(t, "y"), pr(t, "x"), T, place, src(t, v[0]), pr(t, "y"), pr(t, "*" + place)))
            out = "".join(fmt(t, z) + " " for z in (v[0], v[1], v[2], v[0], v[0], v[0]))
            for scope in ("local", "global"):
                ds = (decl % T if "%" in decl else decl)
                if scope == "global" and "&w" in ds: continue
                yield Case("struct P@ { int k; %s *p; float e; };\n" % T + (re.sub(r"\bh\b", "h@", ds) + "\n" if scope == "global" else "") + "void f@() { %s %s }\n"
                           % ("" if scope == "global" else ds, body if scope == "local" else body.replace("h[", "h@[").replace("h.", "h@.")), ["f@();"], out, "%s pointer kept in %s %s" % (T, scope, place))
        yield Case("%s *g@(%s *p) { *p = %s; return p; }\nvoid f@() { %s x = %s; %s *g@(&x) = %s; %s }\n" % (T, T, src(t, v[1]), T, src(t, v[0]), pr(t, "*g@(&x)"), src(t, v[2]), pr(t, "x"))
                   , ["f@();"], fmt(t, v[1]) + " " + fmt(t, v[2]) + " ", T + " pointer returned")
        yield Case("void g@(%s *p, %s *q) { %s k = *p; *p = *q; *q = k; }\nvoid f@() { %s x = %s; %s y[2]; y[1] = %s; g@(&x, &y[1]); %s %s }\n" % (T, T, T, T, src(t, v[0]), T, src(t, v[1]), pr(t, "x"), pr(t, "y[1]"))
                   , ["f@();"], fmt(t, v[1]) + " " + fmt(t, v[0]) + " ", T + " swap through pointers")


# ---- F: indices outside an array stop the program before anything is stored
def arrays_shared():
    for t in "icbf":
        T = TNAME[t]
        a = [VAL[t](k + 1) for k in range(3)]
        yield Case("void g@(%s p[], int i) { p[i] = %s; }\nvoid f@() { %s v[3] = {%s}; g@(v, 1); %s }\n" % (T, src(t, VAL[t](55)), T, ", ".join(src(t, x) for x in a), " ".join(pr(t, "v[%d]" % i) for i in range(3)))
                   , ["f@();"], "".join(fmt(t, x) + " " for x in (a[0], VAL[t](55), a[2])), T + " array argument is shared")
        yield Case("void g@(%s p[][], int i) { p[i][1] = %s; }\nvoid f@() { %s v[2][2] = {{%s}, {%s}}; g@(v, 1); %s }\n"
                   % (T, src(t, VAL[t](55)), T, ", ".join(src(t, x) for x in a[:2]), ", ".join(src(t, x) for x in a[1:]), " ".join(pr(t, "v[%d][%d]" % (i, j)) for i in (0, 1) for j in (0, 1)))
                   , ["f@();"], "".join(fmt(t, x) + " " for x in (a[0], a[1], a[1], VAL[t](55))), T + " matrix argument is shared")
        yield Case("void g@(%s p[]) { %s }\nvoid f@() { %s v[2][3] = {{%s}, {%s}}; g@(v[1]); }\n" % (T, " ".join(pr(t, "p[%d]" % i) for i in range(3)), T, ", ".join([src(t, a[0])] * 3), ", ".join(src(t, x) for x in a))
                   , ["f@();"], "".join(fmt(t, x) + " " for x in a), T + " row argument")


# ---- G: constants of every ordered pair of basic types (each pair a program of its own, so nothing was declared before)
def constants():
    for a, b in itertools.permutations("icbf", 2):
        A, B = TNAME[a], TNAME[b]
        va, vb = VAL[a](3), VAL[b](5)
        for form in ("scalar", "array", "mixed"):
            da = "const %s %%s = %s;" % (A, src(a, va)) if form == "scalar" else "const %s %%s[1] = {%s};" % (A, src(a, va))
            db = "const %s %%s[1] = {%s};" % (B, src(b, vb)) if form == "array" else "const %s %%s = %s;" % (B, src(b, vb))
            ra, rb = ("%s", "%s") if form == "scalar" else ("%s[0]", "%s[0]") if form == "array" else ("%s[0]", "%s")
            out = fmt(a, va) + " " + fmt(b, vb) + " "
            yield Case(da % "p@" + "\n" + db % "q@" + "\nvoid f@() { %s %s }\n" % (pr(a, ra % "p@"), pr(b, rb % "q@")), ["f@();"], out, "%s constants of type %s then %s, global" % (form, A, B))
            yield Case("void f@() { %s %s %s %s }\n" % (da % "p", db % "q", pr(a, ra % "p"), pr(b, rb % "q")), ["f@();"], out, "%s constants of type %s then %s, local" % (form, A, B))
            yield Case("struct S@ { int h; %s };\nvoid f@() { %s %s struct S@ s; s.h = 1; %s %s }\n" % (B + " m;", da % "p", db % "q", pr(a, ra % "p"), pr(b, rb % "q")), ["f@();"], out, "%s constants of type %s then %s, with structure" % (form, A, B))


def strings():
    for s in ("", "a", "ab", "привет", "x y", "a\\nb"):
        n = len(s.replace("\\n", "\n"))
        if n == 0: continue
        txt = s.replace("\\n", "\n").replace("\n", "|")
        s2 = s.replace("\\n", "|")
        yield Case("void f@() { char s[] = \"%s\"; printf(\"%%s %%i \", s, upb(s)); %s }\n" % (s2, " ".join("printf(\"%%i \", s[%d]);" % i for i in range(n))), ["f@();"]
                   , "%s %d " % (txt, n) + "".join("%d " % ord(ch) for ch in txt), "string " + s)
        yield Case("char s@[] = \"%s\";\nvoid f@() { printf(\"%%s %%i \", s@, upb(s@)); s@[0] = 'Z'; printf(\"%%s \", s@); }\n" % s2, ["f@();"], "%s %d Z%s " % (txt, n, txt[1:]), "global string " + s)
        yield Case("void g@(char p[]) { printf(\"%%s %%i\", p, upb(p)); }\nvoid f@() { g@(\"%s\"); }\n" % s2, ["f@();"], "%s %d" % (txt, n), "string argument " + s)
        yield Case("void f@() { char s[2][%d] = {\"%s\", \"%s\"}; printf(\"%%s %%s\", s[0], s[1]); }\n" % (n, s2, s2), ["f@();"], "%s %s" % (txt, txt), "array of strings " + s)


KNOWN = [
    Case("struct S@ { int x; int v[2]; float y; };\nvoid f@() { struct S@ s = {1, {2, 3}, 4}; printf(\"%i %i %i %f\", s.x, s.v[0], s.v[1], s.y); }\n", ["f@();"], "1 2 3 4.000000", "initialiser of a structure with an array member"),
    Case("struct T@ { int v[2]; }; struct S@ { struct T@ t; int k; };\nvoid f@() { struct S@ s; s.t.v[0] = 1; printf(\"%i\", s.t.v[0]); }\n", ["f@();"], "1", "array in a structure nested in a structure"),
]


def all_cases(thorough):
    yield from arrays()
    yield from structs()
    yield from groups(1)
    yield from groups(2)
    yield from layouts(4 if thorough else 3)
    yield from kept()
    yield from arrays_shared()
    yield from strings()
    yield from pointers(3 if thorough else 2)
    if thorough: yield from groups(3)
    yield from KNOWN
