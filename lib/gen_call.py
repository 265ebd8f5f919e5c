"""Enumerations of calls (C13, C20): signatures x argument forms x call contexts, call graphs, recursion, function arguments."""
import itertools
from ref import TNAME, fmt, directive
from cases import Case
from gen_aggr import VAL, src, pr

# parameter kinds: i c b f scalars, I F arrays, S structure, P pointer to int, Q pointer to float, G function int(int), H function float(float)
KINDS = "icbfIFSPQGHBJKL"
DECL = {"i": "int %s", "c": "char %s", "b": "bool %s", "f": "float %s", "I": "int %s[]", "F": "float %s[]", "S": "struct T@ %s", "P": "int *%s", "Q": "float *%s", "G": "int (*%s)(int)", "H": "float (*%s)(float)", "B": "bool %s[]", "J": "int %s[]", "K": "float %s[]", "L": "char %s[]"}
PROTO = {"i": "int", "c": "char", "b": "bool", "f": "float", "I": "int[]", "F": "float[]", "S": "struct T@", "P": "int *", "Q": "float *", "G": "int (*)(int)", "H": "float (*)(float)", "B": "bool[]", "J": "int[]", "K": "float[]", "L": "char[]"}
TOP = "struct T@ { int x; float y; }; int dbl@(int n) { return n * 2; } float half@(float z) { return z / 2; }\n"


def forms(k, j):
    """Argument forms: (setup, argument text, value, text dumping the caller's object afterwards, its output)."""
    n = "%s%d" % (k, j)
    if k in "icbf":
        v = VAL[k](j + 5)
        yield "", src(k, v), v, "", ""
        yield "%s %s = %s;" % (TNAME[k], n, src(k, v)), n, v, pr(k, n), fmt(k, v) + " "
        if k in "if":
            yield "%s %s = %s;" % (TNAME[k], n, src(k, v)), "%s * 2 + 1" % n, v * 2 + 1, pr(k, n), fmt(k, v) + " "
            yield "", "%s@(%s)" % ("dbl" if k == "i" else "half", src(k, v)), v * 2 if k == "i" else v / 2, "", ""
        if k == "f":
            yield "int %s = %d;" % (n, j + 3), n, float(j + 3), pr("i", n), "%d " % (j + 3)
            yield "", str(j + 4), float(j + 4), "", ""
            yield "int %s = %d;" % (n, j + 3), "%s + 1" % n, float(j + 4), pr("i", n), "%d " % (j + 3)
        if k == "i": yield "char %s = 'k';" % n, n, ord("k"), pr("c", n), "%d " % ord("k")
    elif k in "IF":
        t = k.lower()
        v = [VAL[t](j + 2 + q) for q in range(2)]
        yield ("%s %s[2] = {%s};" % (TNAME[t], n, ", ".join(src(t, x) for x in v)), n, v, " ".join(pr(t, "%s[%d]" % (n, q)) for q in (0, 1)), fmt(t, v[0]) + " " + fmt(t, VAL[t](30)) + " ")
    elif k == "B":
        yield "", "{%s}" % ("true, false" if j else "false, true"), (1, 0) if j else (0, 1), "", ""
    elif k in "JKL":
        t = {"J": "i", "K": "f", "L": "c"}[k]
        v = [VAL[t](j + 3 + q) for q in range(3)]
        yield "", "{%s}" % ", ".join(src(t, x) for x in v), v, "", ""
        if k == "K": yield "", "{%d, %d, %d}" % (j, j + 1, j + 2), [float(j), j + 1.0, j + 2.0], "", ""
    elif k == "S":
        v = (j + 3, j + 0.5)
        yield "int %s = %d;" % (n, j + 3), "{%s, %r}" % (n, v[1]), v, pr("i", n), "%d " % (j + 3)
        yield "", "{%d, %r}" % v, v, "", ""
        yield "struct T@ %s = {%d, %r};" % (n, v[0], v[1]), n, v, pr("i", n + ".x") + pr("f", n + ".y"), "%d %f " % v
    elif k in "PQ":
        t = "i" if k == "P" else "f"
        v = VAL[t](j + 9)
        yield "%s %s = %s;" % (TNAME[t], n, src(t, v)), "&" + n, v, pr(t, n), fmt(t, VAL[t](40)) + " "
    elif k == "G": yield "", "dbl@", None, "", ""
    elif k == "H": yield "", "half@", None, "", ""


def callee(k, n, v):
    """Statements printing and then changing parameter n, and the output."""
    if k in "icbf": return pr(k, n) + " %s = %s; " % (n, src(k, VAL[k](60))) + pr(k, n), fmt(k, v) + " " + fmt(k, VAL[k](60)) + " "
    if k in "IF":
        t = k.lower()
        return " ".join(pr(t, "%s[%d]" % (n, q)) for q in (0, 1)) + " %s[1] = %s; printf(\"%%i \", upb(%s));" % (n, src(t, VAL[t](30)), n), "".join(fmt(t, x) + " " for x in v) + "2 "
    if k in "BJKL":
        t = {"B": "b", "J": "i", "K": "f", "L": "c"}[k]
        return " ".join(pr(t, "%s[%d]" % (n, q)) for q in range(len(v))) + " printf(\"%%i \", upb(%s));" % n, "".join(fmt(t, x) + " " for x in v) + "%d " % len(v)
    if k == "S": return pr("i", n + ".x") + pr("f", n + ".y") + " %s.x = 99; %s.y = 9.5; " % (n, n) + pr("i", n + ".x") + pr("f", n + ".y"), "%d %f 99 9.500000 " % v
    if k in "PQ":
        t = "i" if k == "P" else "f"
        return pr(t, "*" + n) + " *%s = %s;" % (n, src(t, VAL[t](40))), fmt(t, v) + " "
    if k == "G": return "printf(\"%%i \", %s(21));" % n, "42 "
    return "printf(\"%%f \", %s(21.0));" % n, "10.500000 "


def RET(r, v=7):
    return {"v": ("", ""), "i": ("return %d;" % v, "%d" % v), "f": ("return %d;" % v, "%f" % v), "c": ("return 'a';", "97"), "b": ("return true;", "1"), "S": ("struct T@ rr = {%d, 1.5}; return rr;" % v, "%d" % v)}[r]


RT = {"v": "void", "i": "int", "f": "float", "c": "char", "b": "bool", "S": "struct T@"}


def signatures(n, llvm=False):
    kinds = "if" + "IFSP" if llvm else KINDS
    for ks in itertools.product(kinds, repeat=n):
        combos = list(itertools.product(*[list(forms(k, j)) for j, k in enumerate(ks)])) or [()]
        if n == 3: combos = combos[::max(1, len(combos) // 3)]
        for ci, combo in enumerate(combos):
            r = "vifcbS"[(ci + len(combos)) % 6] if not llvm else "vif"[(ci + len(combos)) % 3]
            style = ci % 3         # defined before, prototype, prototype + definition after
            body, out = [], []
            for j, (k, f) in enumerate(zip(ks, combo)):
                b, o = callee(k, "p%d" % j, f[2])
                body.append(b)
                out.append(o)
            rs, ro = RET(r)
            sig = "%s g@(%s)" % (RT[r], ", ".join(DECL[k] % ("p%d" % j) for j, k in enumerate(ks)))
            proto = "%s g@(%s);\n" % (RT[r], ", ".join(PROTO[k] for k in ks))
            # locals of the callee (scalars and arrays) must not disturb the caller
            define = "%s { int l0 = 123; float l1[2]; l1[0] = l1[1] = 7.5; %s l0 = l0 + 1; %s }\n" % (sig, " ".join(body), rs)
            call = "g@(%s)" % ", ".join(f[1] for f in combo)
            if r == "v": st, so = call + ";", ""
            elif r == "S": st, so = "printf(\"%%i \", %s.x);" % call, ro + " "
            elif r == "f": st, so = "printf(\"%%f \", %s);" % call, ro + " "
            else: st, so = pr(r, call), ro + " "
            main = "void f@() { int a0 = 11; float a1 = 2.25; %s int a2 = 33; %s %s printf(\"%%i %%f %%i\", a0, a1, a2); }\n" % (" ".join(f[0] for f in combo), st, " ".join(f[3] for f in combo))
            exp = "".join(out) + so + "".join(f[4] for f in combo) + "11 2.250000 33"
            if style == 0: top = TOP + define + main
            elif style == 1: top = TOP + proto + define + main
            else: top = TOP + proto + main + define
            yield Case(top, ["f@();"], exp, "call %s -> %s, arguments (%s), style %d" % ("".join(ks), r, ", ".join(f[1] for f in combo), style))


# ---- contexts in which a call's value is used
def contexts():
    for t in "ifcb":
        one = "%s g@(int n) { printf(\"<%%i>\", n); return %s; }\n" % (TNAME[t], {"i": "n * 3", "f": "n * 1.5", "c": "'d'", "b": "n > 1"}[t])

        def val(n): return {"i": n * 3, "f": n * 1.5, "c": 100, "b": 1 if n > 1 else 0}[t]
        ctx = [("initialiser", "%s x = g@(2); %s" % (TNAME[t], pr(t, "x")), "<2>" + fmt(t, val(2)) + " "),
               ("assignment", "%s x; x = g@(1); %s" % (TNAME[t], pr(t, "x")), "<1>" + fmt(t, val(1)) + " "),
               ("element", "%s v[2]; v[1] = g@(2); v[0] = g@(1); %s %s" % (TNAME[t], pr(t, "v[0]"), pr(t, "v[1]")), "<2><1>" + fmt(t, val(1)) + " " + fmt(t, val(2)) + " "),
               ("statement", "g@(1); g@(2);", "<1><2>"),
               ("comma", "int k; k = (g@(1), 5); printf(\"%i\", k);", "<1>5"),
               ("ternary", "int c = 1; %s" % pr(t, "(c ? g@(2) : g@(1))") , "<2>" + fmt(t, val(2)) + " "),
               ("loop", "int k = 0; while (k < 2) { %s x = g@(k); %s k++; }" % (TNAME[t], pr(t, "x")), "<0>" + fmt(t, val(0)) + " <1>" + fmt(t, val(1)) + " "),
               ("return", None, "<2>" + fmt(t, val(2)) + " ")]
        if t in "ifc":
            ctx += [("operands", "printf(\"%s\", g@(1) - g@(2));" % directive("f" if t == "f" else "i"), "<1><2>" + fmt(t, val(1) - val(2))),
                    ("negated", "printf(\"%s\", -g@(2));" % directive("f" if t == "f" else "i"), "<2>" + fmt(t, -val(2))),
                    ("compared", "if (g@(2) > g@(1)) printf(\"y\"); else printf(\"n\");", "<2><1>" + ("y" if val(2) > val(1) else "n"))]
        if t in "ib":
            ctx += [("condition", "if (g@(2)) printf(\"y\"); else printf(\"n\"); while (g@(0)) printf(\"!\");", "<2>y<0>"), ("logical", "if (g@(0) && g@(1)) printf(\"y\"); if (g@(2) || g@(1)) printf(\"z\");", "<0><2>z"), ("not", "if (!g@(0)) printf(\"y\");", "<0>y")]
        if t == "i":
            ctx += [("index", "int v[10]; v[g@(2)] = 8; printf(\"%i\", v[g@(2)]);", "<2><2>8"), ("bound", "int v[g@(1)]; printf(\"%i\", upb(v));", "<1>3"), ("switch", "switch (g@(1)) { case 3: printf(\"y\"); break; default: printf(\"n\"); }", "<1>y"),
                    ("nested", "printf(\"%i\", g@(g@(g@(1))));", "<1><3><9>27"), ("float argument", "float z; z = g@(1); printf(\"%f\", z);", "<1>3.000000"), ("compound", "int x = 5; x += g@(2); x -= g@(1); printf(\"%i\", x);", "<2><1>8")]
        for n, st, out in ctx:
            extra, body = "", st
            if st is None:
                extra = "%s h@(int n) { return g@(n); }\n" % TNAME[t]
                body = pr(t, "h@(2)")
            yield Case(one + extra + "void f@() { int a0 = 4; %s printf(\"|%%i\", a0); }\n" % body, ["f@();"], out + "|4", "%s result in %s" % (TNAME[t], n))


# ---- all call graphs over three functions
def graphs(thorough):
    names = "fgh"
    bodies = [()] + [(a,) for a in range(3)] + [(a, b) for a in range(3) for b in range(3)]
    idx = 0
    for bs in itertools.product(bodies, repeat=3):
        idx += 1
        order = list(itertools.permutations(range(3)))[idx % 6]
        out = []

        def run(k, n, d):
            out.append("%s%d(" % (names[k], n))
            acc = n + k
            for c in bs[k]:
                if n > 0: acc += run(c, n - 1, d + 1) * 2
            out.append(")")
            return acc
        funcs = []
        for k in range(3):
            calls = " ".join("if (n > 0) acc += %s@(n - 1) * 2;" % names[c] for c in bs[k])
            funcs.append("int %s@(int n) { int acc = n + %d; int save = n; printf(\"%s%%i(\", n); %s if (save != n) printf(\"!\"); printf(\")\"); return acc; }\n" % (names[k], k, names[k], calls))
        res = []
        for s in range(3):
            for n in range(3 if thorough else 2, -1, -2):
                r = run(s, n, 0)
                out.append("=%d " % r)
                res.append("printf(\"=%%i \", %s@(%d));" % (names[s], n))
        protos = "int f@(int); int g@(int); int h@(int);\n"
        yield Case(protos + "".join(funcs[k] for k in order), res, "".join(out), "call graph %r defined in order %r" % (bs, order))


# ---- recursion with frames holding arrays, structures and floating variables
REC = [
    ("factorial", "int r@(int n) { if (n < 2) return 1; return n * r@(n - 1); }", ["printf(\"%%i \", r@(%d));" % n for n in range(0, 11)], "".join("%d " % x for x in (1, 1, 2, 6, 24, 120, 720, 5040, 40320, 362880, 3628800))),
    ("fibonacci", "int r@(int n) { return n < 2 ? n : r@(n - 1) + r@(n - 2); }", ["printf(\"%%i \", r@(%d));" % n for n in range(0, 12)], "".join("%d " % x for x in (0, 1, 1, 2, 3, 5, 8, 13, 21, 34, 55, 89))),
    ("ackermann", "int r@(int m, int n) { if (m == 0) return n + 1; if (n == 0) return r@(m - 1, 1); return r@(m - 1, r@(m, n - 1)); }", ["printf(\"%%i \", r@(%d, %d));" % (m, n) for m in range(3) for n in range(4)], "".join("%d " % x for x in (1, 2, 3, 4, 2, 3, 4, 5, 3, 5, 7, 9))),
    ("even and odd", "bool odd@(int); bool even@(int n) { return n == 0 ? true : odd@(n - 1); } bool odd@(int n) { return n == 0 ? false : even@(n - 1); }", ["printf(\"%%i%%i \", even@(%d) ? 1 : 0, odd@(%d) ? 1 : 0);" % (n, n) for n in range(6)], "10 01 10 01 10 01 "),
    ("frames with arrays", "int r@(int n) { int v[3]; v[0] = n; v[1] = n * 2; v[2] = n * 3; int s = n > 0 ? r@(n - 1) : 0; return s + v[0] + v[1] + v[2]; }", ["printf(\"%%i \", r@(%d));" % n for n in range(5)], "0 6 18 36 60 "),
    ("frames with floats", "float r@(int n, float z) { float a = z * 2; if (n == 0) return a; float b = r@(n - 1, a); return a + b; }", ["printf(\"%%f \", r@(%d, 1.5));" % n for n in range(4)], "3.000000 9.000000 21.000000 45.000000 "),
    ("frames with structures", "struct R@ { int x; float y; }; struct R@ r@(struct R@ p, int n) { struct R@ q; q.x = p.x + 1; q.y = p.y * 2; if (n == 0) return q; struct R@ t; t = r@(q, n - 1); t.x = t.x + q.x * 100; return t; }"
     , ["struct R@ s = {1, 0.5}; printf(\"%i %f \", r@(s, 2).x, r@(s, 2).y); printf(\"%i %f\", s.x, s.y);"], "504 4.000000 1 0.500000"),
    ("hanoi", "int cnt@; void r@(int n, char a, char b, char c) { if (n == 0) return; r@(n - 1, a, c, b); printf(\"%c%c\", a, c); cnt@++; r@(n - 1, b, a, c); }", ["r@(3, 'A', 'B', 'C'); printf(\" %i\", cnt@);"], "ACABCBACBABCAC 7"),
    ("gcd", "int r@(int a, int b) { while (b) { int t = a % b; a = b; b = t; } return a; }", ["printf(\"%i %i %i\", r@(12, 18), r@(7, 5), r@(0, 4));"], "6 1 4"),
    ("array sum by recursion", "int r@(int v[], int n) { return n == 0 ? 0 : v[n - 1] + r@(v, n - 1); }", ["int w[4] = {1, 20, 300, 4000}; printf(\"%i\", r@(w, 4));"], "4321"),
    ("sort", "void r@(int v[], int n) { int i; int j; for (i = 0; i < n; i++) for (j = 0; j + 1 < n - i; j++) if (v[j] > v[j + 1]) { int t = v[j]; v[j] = v[j + 1]; v[j + 1] = t; } }", ["int w[5] = {5, 2, 9, 1, 7}; r@(w, 5); printf(\"%i%i%i%i%i\", w[0], w[1], w[2], w[3], w[4]);"], "12579"),
    ("early return from loops", "int r@(int n) { int i; for (i = 0; i < 5; i++) { int j = 0; while (j < 5) { switch (j) { case 3: if (i == n) return i * 10 + j; default: j++; } } } return -1; }", ["printf(\"%i %i %i\", r@(0), r@(2), r@(9));"], "3 23 -1"),
]


def recursion():
    for n, top, calls, out in REC: yield Case(top + "\n", calls, out, n)


# ---- functions as arguments
def functions():
    A = "int add@(int a, int b) { return a + b; } int sub@(int a, int b) { return a - b; } int neg@(int a) { return -a; } int twice@(int a) { return a * 2; } float hf@(float z) { return z / 2; } void say@(int n) { printf(\"<%i>\", n); }\n"
    yield Case(A + "int ap@(int (*g)(int, int), int x, int y) { return g(x, y); }\n", ["printf(\"%i %i\", ap@(add@, 7, 2), ap@(sub@, 7, 2));"], "9 5", "function argument")
    yield Case(A + "int ap@(int x, int (*g)(int), int y, int (*h)(int)) { return g(x) * 100 + h(y); }\n", ["printf(\"%i %i\", ap@(3, neg@, 4, twice@), ap@(3, twice@, 4, neg@));"], "-292 596", "two function arguments")
    yield Case(A + "int in@(int (*g)(int), int x) { return g(x) + 1; } int out@(int x, int (*g)(int)) { return in@(g, x * 10); }\n", ["printf(\"%i %i\", out@(2, neg@), out@(2, twice@));"], "-19 41", "function argument passed on")
    yield Case(A + "float ap@(float (*g)(float), int n) { float z = n; while (n > 0) { z = g(z); n--; } return z; }\n", ["printf(\"%f\", ap@(hf@, 3));"], "0.375000", "float function argument")
    yield Case(A + "void ap@(void (*g)(int), int n) { int i; for (i = 0; i < n; i++) g(i); }\n", ["ap@(say@, 3);"], "<0><1><2>", "void function argument")
    yield Case(A + "int rec@(int (*g)(int), int n) { if (n == 0) return g(1); return rec@(g, n - 1) + g(n); }\n", ["printf(\"%i %i\", rec@(twice@, 3), rec@(neg@, 2));"], "14 -4", "function argument in recursion")
    yield Case("int late@(int); int ap@(int (*g)(int), int n) { return g(n); } int use@() { return ap@(late@, 5); } int late@(int n) { return n * 11; }\n", ["printf(\"%i\", use@());"], "55", "function defined later as argument")
    yield Case(A + "int ap@(int (*g)(int), int n) { return g(g(n)); } int wrap@(int n) { return ap@(twice@, n) + ap@(neg@, n); }\n", ["printf(\"%i %i\", wrap@(3), ap@(wrap@, 1));"], "15 25", "function calling through arguments as argument")
    for i, (p, q) in enumerate(itertools.product(("neg@", "twice@", "inc@"), repeat=2)):
        f = {"neg@": lambda x: -x, "twice@": lambda x: 2 * x, "inc@": lambda x: x + 1}
        yield Case("int inc@(int); int neg@(int a) { return -a; }\nint ap@(int (*g)(int), int (*h)(int), int n) { int l = g(n); return h(l) * 10 + g(h(n)); }\nint both@(int n) { return ap@(%s, %s, n); } int inc@(int a) { return a + 1; } int twice@(int a) { return a * 2; }\n".replace("int inc@(int);", "int inc@(int); int twice@(int);") % (p, q)
                   , ["printf(\"%%i \", both@(%d));" % n for n in (0, 3, -4)], "".join("%d " % (f[q](f[p](n)) * 10 + f[p](f[q](n))) for n in (0, 3, -4)), "compose %s %s" % (p, q))


def all_cases(thorough):
    for n in (0, 1, 2, 3): yield from signatures(n)
    yield from contexts()
    yield from recursion()
    yield from functions()
    yield from graphs(thorough)

