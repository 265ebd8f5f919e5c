"""Enumerations of statement trees (C11, C20, C21) with a reference interpreter.

Every decision of a program is taken from a script of bits: ask(n) prints ?n and yields the next bit, pick(n) prints
?n and yields the next two; an exhausted script yields zeros. All scripts of the given length are run, which covers
every path with that many decisions."""
import itertools
from cases import Case

TOP = ("int script; int ask(int n) { int r = script % 2; script = script / 2; printf(\"?%i\", n); return r; }\n"
       "int pick(int n) { int r = script % 4; script = script / 4; printf(\"?%i\", n); return r; }\n")

A, B, C, R, N = ("a",), ("b",), ("c",), ("r",), ("e",)


class Loop(Exception):
    pass


def number(t, ctr):
    """Gives every action and decision its own number, in source order."""
    k = t[0]

    def n():
        ctr[0] += 1
        return ctr[0]
    if k in "abcre": return (k, n())
    if k == "seq": return (k, [number(x, ctr) for x in t[1]])
    if k == "decl": return (k, n())
    if k == "if": return (k, n(), number(t[1], ctr))
    if k == "ife": return (k, n(), number(t[1], ctr), number(t[2], ctr))
    if k == "while": return (k, n(), number(t[1], ctr))
    if k == "do": return (k, n(), number(t[1], ctr))
    if k == "for": return (k, t[1], n(), n(), n(), number(t[2], ctr))
    if k == "sw": return (k, n(), [(labs, [number(x, ctr) for x in body]) for labs, body in t[1]])
    raise AssertionError(k)


def text(t, ret="i"):
    k = t[0]
    if k == "a": return "printf(\"%d.\");" % t[1]
    if k == "b": return "break;"
    if k == "c": return "continue;"
    if k == "r": return "return %d;" % t[1] if ret == "i" else "return;"
    if k == "e": return ";"
    if k == "decl": return "int d%d = tr(%d, %d); printf(\"%%i.\", d%d);" % (t[1], t[1], t[1] + 100, t[1])
    if k == "seq": return "{ " + " ".join(text(x, ret) for x in t[1]) + " }"
    if k == "if": return "if (ask(%d)) %s" % (t[1], text(t[2], ret))
    if k == "ife": return "if (ask(%d)) %s else %s" % (t[1], text(t[2], ret), text(t[3], ret))
    if k == "while": return "while (ask(%d)) %s" % (t[1], text(t[2], ret))
    if k == "do": return "do %s while (ask(%d));" % (text(t[2], ret), t[1])
    if k == "for":
        return "for (%s; %s; %s) %s" % ("tr(%d, 0)" % t[2] if t[1] & 1 else "", "ask(%d)" % t[3] if t[1] & 2 else ""
                                        , "tr(%d, 0)" % t[4] if t[1] & 4 else "", text(t[5], ret))
    if k == "sw":
        return "switch (pick(%d)) { %s }" % (t[1], " ".join(" ".join("default:" if l == "d" else "case %d:" % l for l in labs) + " "
                                                           + " ".join(text(x, ret) for x in body) for labs, body in t[2]))
    raise AssertionError(k)


class Machine:
    def __init__(self, script):
        self.script, self.out, self.fuel = script, [], 200

    def ask(self, n, base):
        self.fuel -= 1
        if self.fuel < 0: raise Loop()
        r = self.script % base
        self.script //= base
        self.out.append("?%d" % n)
        return r

    def run(self, t):
        """Returns None (fell through), 'b', 'c' or ('r', n)."""
        self.fuel -= 1
        if self.fuel < 0: raise Loop()
        k = t[0]
        if k == "a":
            self.out.append("%d." % t[1])
        elif k == "e":
            pass
        elif k == "decl":
            self.out.append("<%d>%d." % (t[1], t[1] + 100))
        elif k in "bc":
            return k
        elif k == "r":
            return ("r", t[1])
        elif k == "seq":
            return self.list(t[1])
        elif k == "if":
            if self.ask(t[1], 2): return self.run(t[2])
        elif k == "ife":
            return self.run(t[2] if self.ask(t[1], 2) else t[3])
        elif k == "while":
            while self.ask(t[1], 2):
                s = self.run(t[2])
                if s == "b": break
                if s and s != "c": return s
        elif k == "do":
            while True:
                s = self.run(t[2])
                if s == "b": break
                if s and s != "c": return s
                if not self.ask(t[1], 2): break
        elif k == "for":
            if t[1] & 1: self.out.append("<%d>" % t[2])
            while not t[1] & 2 or self.ask(t[3], 2):
                s = self.run(t[5])
                if s == "b": break
                if s and s != "c": return s
                if t[1] & 4: self.out.append("<%d>" % t[4])
        elif k == "sw":
            v = self.ask(t[1], 4)
            at = next((i for i, (labs, _) in enumerate(t[2]) if v in labs), None)
            if at is None: at = next((i for i, (labs, _) in enumerate(t[2]) if "d" in labs), None)
            if at is not None:
                for labs, body in t[2][at:]:
                    s = self.list(body)
                    if s == "b": break
                    if s: return s
        return None

    def list(self, ts):
        for t in ts:
            s = self.run(t)
            if s: return s
        return None


def make(seed):
    """(tree, script bits, return kind) -> Case"""
    tree, bits, ret = seed
    t = number(tree, [0])
    calls, out = [], []
    for s in range(1 << bits):
        m = Machine(s)
        try:
            r = m.run(t)
        except Loop:
            continue
        v = r[1] if r and r[0] == "r" else 0
        if ret == "i":
            calls.append("script = %d; printf(\"[%%i] \", f@());" % s)
            out.append("".join(m.out) + "[%d] " % v)
        else:
            calls.append("script = %d; f@(); printf(\"; \");" % s)
            out.append("".join(m.out) + "; ")
    if not calls: return None
    body = " ".join(text(x, ret) for x in t[1]) if t[0] == "seq" else text(t, ret)
    top = ("int f@() { %s return 0; }" if ret == "i" else "void f@() { %s }") % body
    return Case(top, calls, "".join(out), body)


def leaves(loop, sw):
    yield A
    if loop or sw: yield B
    if loop: yield C
    yield R


def bodies(inner, loop, sw, rich):
    """Statement lists placed in a compound statement."""
    for x in inner(loop, sw):
        yield x
        if rich:
            yield ("seq", [A, x])
            yield ("seq", [x, A])


SW = [(((0,), 0), ((1,), 1)), (((0,), 0), (("d",), 1)), ((("d",), 0), ((1,), 1)), (((0, 1), 0), (("d",), 1)), (((2,), 0), ((0,), 1), (("d",), 2))
      , (((1,), 0), (("d",), 1), ((0,), 2)), (((0, "d"), 0), ((3,), 1))]


def compounds(inner, loop, sw, rich=True, few=False):
    for b in bodies(inner, loop, sw, rich):
        yield ("if", b)
        yield ("ife", b, A)
        yield ("ife", A, b)
        yield ("seq", [("decl",), b, ("decl",)])
    for b in bodies(inner, True, False, rich):
        yield ("while", b)
        yield ("do", b)
        for m in ((7, 2) if few else range(8)):
            yield ("for", m, b)
    for b in bodies(inner, loop, True, rich):
        lst = b[1] if b[0] == "seq" and b[1][0] != ("decl",) else [b]
        for lay in (SW[1:4:2] if few else SW):
            for pos in range(len(lay)):
                yield ("sw", [(labs, lst if i == pos else [A] if (i + pos) & 1 else [A, B]) for labs, i in lay])


def fix_dangling(t):
    """if without else inside the then branch of if/else needs a block."""
    if not isinstance(t, tuple): return t
    k = t[0]
    if k == "ife":
        a = fix_dangling(t[1])
        if ends_with_if(a): a = ("seq", [a])
        return (k, a, fix_dangling(t[2]))
    if k in ("if", "while", "do"): return (k, fix_dangling(t[1]))
    if k == "for": return (k, t[1], fix_dangling(t[2]))
    if k == "seq": return (k, [fix_dangling(x) for x in t[1]])
    if k == "sw": return (k, [(l, [fix_dangling(x) for x in b]) for l, b in t[1]])
    return t


def ends_with_if(t):
    return t[0] == "if" or (t[0] in ("while",) and ends_with_if(t[1])) or (t[0] == "for" and ends_with_if(t[2])) or (t[0] == "ife" and ends_with_if(t[2]))


def level1(loop, sw):
    return compounds(leaves, loop, sw)


def level1few(loop, sw):
    """One level, each compound once per kind of leaf."""
    for t in compounds(leaves, loop, sw, False, True): yield t


def level2few(loop, sw):
    return compounds(level1few, loop, sw, False, True)


def simple(t):
    return t[0] in "abcre"


def followed():
    """A compound statement inside a loop or switch, followed there by a jump of the outer one."""
    outers = [lambda b: ("while", b), lambda b: ("do", b)] + [lambda b, m=m: ("for", m, b) for m in range(8)]
    inner = list(outers) + [lambda b: ("if", b), lambda b: ("ife", b, A), lambda b: ("sw", [((0,), [b]), (("d",), [A, B])]), lambda b: ("sw", [((1,), [A, B]), ((2,), [b])])]
    for i, x in enumerate(inner):
        for leaf in ([A, B, C] if i < 10 else [A, C] if i < 12 else [A, B]):
            for o in outers:
                for j in (C, B):
                    for jump in (j, ("if", j), ("ife", A, j)):
                        yield ("seq", [o(("seq", [x(leaf), jump, A])), A])
            if i < 10 or leaf != C:
                for jump in (B, ("if", B)):
                    yield ("seq", [("sw", [((0,), [x(leaf), jump, A]), (("d",), [A])]), A])


def trees(thorough, deep=True):
    bits = 5
    for t in leaves(False, False): yield t, 1, "i"
    for t in compounds(leaves, False, False): yield fix_dangling(("seq", [t, A])), bits, "i"
    for t in compounds(level1, False, False, True, not deep and not thorough): yield fix_dangling(("seq", [t, A])), bits, "i"
    for t in level1few(False, False):
        for u in level1few(False, False): yield fix_dangling(("seq", [t, u])), bits, "v"
    for t in followed(): yield fix_dangling(t), 6, "v"
    if deep:
        for t in compounds(level2few, False, False, False, True): yield fix_dangling(("seq", [t, A])), 6, "v"
    if thorough:
        for t in compounds(lambda l, s: compounds(level1few, l, s, True, False), False, False, True, False):
            yield fix_dangling(("seq", [t, A])), 7, "i"


# ---- expression statements of every kind, repeated: the stack must come back to the same height each time
STMTS = ["i", "i + 1", "-i", "!i", "fl", "fl * 2", "i < 2", "b", "v[1]", "v[i]", "s.x", "s.z", "p->x", "*q", "i = 3", "i += 2", "fl = 2", "fl += i", "fl -= 1.5", "v[1] = i", "v[i] *= 2"
         , "s.x = 4", "s.z = 1.5", "p->x = 2", "*q = 7", "*q |= 1", "s = t", "p->x++", "i++", "--i", "fl++", "v[0]--", "++s.x", "(*q)++", "fi()", "ff()", "fv()", "fs()", "fi(), fi()"
         , "i = fi()", "i, fi()", "i++, fl++", "i ? fi() : fi()", "i ? fv() : fv()", "i && fi()", "i || fi()", "!fi()", "i == 1 ? i++ : fi()", "c = 'a'", "c", "b = true", "b && b", "m[1][0] = 5"
         , "m[i][1]", "abs(i)", "p = &s", "q = &i", "i = i = 2", "fl = fl = 1.5", "(i)", "((i = 1))", "1", "1.5", "'a'", "true", "\"s\"", "sqrt(fl)", "upb(v)", "round(fl)", "s.x, s.z", "~i"
         , "fi() + ff()", "w", "w[1] = 1.5", "w[0]", "m[0]", "b == true", "fa(v)", "t = s", "s = fs()", "s = t", "us[1] = s", "us[0].z", "us[i].x += 2", "us[1].z -= 0.5"]
SETUP = ("int i = 1; float fl = 4.0; char c = 'q'; bool b = false; int v[3]; float w[2]; int m[2][2]; struct S@ s; struct S@ t; struct S@ us[2]; struct S@ *p = &s; int *q = &i; "
         "v[0] = 0; v[1] = 0; v[2] = 0; w[0] = 0.5; w[1] = 2.0; m[0][0] = m[0][1] = m[1][0] = m[1][1] = 1; s.x = 1; s.z = 0.5; t.x = 2; t.z = 2.5; us[0].x = us[1].x = 0; us[0].z = us[1].z = 0.0; int k = 0; ")


def height_cases():
    top = ("struct S@ { int x; float z; }; int fi@() { return 1; } float ff@() { return 1.5; } void fv@() { } struct S@ fs@() { struct S@ r; r.x = 1; r.z = 2.5; return r; } "
           "int fa@(int a[]) { return a[0]; }\n")
    import re
    for e in STMTS:
        x = re.sub(r"\bf([ivfas])\(", r"f\1@(", e)
        for j, ctx in enumerate(("while (k < 3) { i = 1; %s; k++; }", "for (k = 0; k < 3; %s, k++) i = 1;", "do { i = 1; if (k == 1) %s; else k += 0; k++; } while (k < 3);"
                                 , "for (%s, k = 0; k < 2; k++) { i = 1; { { %s; } } switch (k) { case 0: %s; break; default: %s; } }", "while (k < 3) { i = 1; k++; i == 1 ? (%s) : (%s); }"
                                 , "while (k++ < 3) { i = 1; switch (k) { case 1: continue; case 2: %s; default: break; } if (k == 2) continue; %s; }")):
            yield Case(top + "void f@() { %s%s printf(\"%%i\", k); }" % (SETUP, ctx.replace("%s", x)), ["f@();"], {0: "3", 1: "3", 2: "3", 3: "2", 4: "3", 5: "4"}[j], "repeated statement: %s (%d)" % (e, j))
