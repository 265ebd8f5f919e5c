#!/usr/bin/env python3
"""C32: names resolve to the innermost visible declaration."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, verdict

c = vlib.Check("C32")
T = c.thorough
SHOW = bool(sys.argv[1:])


class State:
    """scopes: list of {name: (kind, number)}; text so far; closers of the open blocks"""
    __slots__ = ("scopes", "text", "close", "n", "tail")

    def __init__(self, scopes=({},), text="", close=(), n=10, tail=()):
        self.scopes, self.text, self.close, self.n, self.tail = scopes, text, close, n, tail

    def look(self, name):
        for s in reversed(self.scopes):
            if name in s: return s[name]
        return None

    def declare(self, name, kind, text, tail=()):
        """None when the name is declared in this scope already"""
        if name in self.scopes[-1]: return None
        return State(self.scopes[:-1] + ({**self.scopes[-1], name: (kind, self.n)},), self.text + text, self.close, self.n + 1, self.tail + tail)

    def open(self, text, close):
        return State(self.scopes + ({},), self.text + text, self.close + (close,), self.n, self.tail)

    def shut(self):
        return State(self.scopes[:-1], self.text + self.close[-1], self.close[:-1], self.n, self.tail)


DECL = {"var": "int %s = %d;\n", "fn": "int %s() { return %d; }\n", "enum": "enum { %s = %d };\n", "struct": "struct %s { int m%d; };\n", "type": "typedef int %s;\n", "arr": "int %s[1] = { %d };\n", "tag": "enum %s { q%d };\n"}


def decl(st, kind, name):
    """the state after a declaration, and the program text (for a refused one)"""
    if kind == "proto":
        text = "int %s();\n" % name
        return st.declare(name, "fn", text, ("int %s() { return %d; }\n" % (name, st.n),)), text
    text = DECL[kind] % ((name,) if kind == "type" else (name, st.n))
    return st.declare(name, kind, text), text


USES = ("value", "call", "type", "tag", "assign", "index")


def use(st, name, how):
    """text and what it prints (None: must be refused)"""
    kind, n = st.look(name) or ("", 0)
    if how == "value": return 'printf("%%i,", %s);' % name, "%d," % n if kind in ("var", "enum", "param") else None
    if how == "call": return 'printf("%%i,", %s());' % name, "%d," % n if kind in ("fn", "fparam") else None
    if how == "index": return 'printf("%%i,", %s[0]);' % name, "%d," % n if kind in ("arr", "aparam") else None
    if how == "assign": return '%s += 0;' % name, "" if kind in ("var", "param") else None
    if how == "type":
        if kind == "struct": return '{ %s t_; t_.m%d = %d; printf("%%i,", t_.m%d); }' % (name, n, n, n), "%d," % n
        if kind == "tag": return '{ %s t_; t_ = q%d; }' % (name, n), ""
        return '{ %s t_ = 77; printf("%%i,", t_); }' % name, "77," if kind == "type" else None
    if how == "tag":
        if kind == "struct": return '{ struct %s t_; t_.m%d = 1; }' % (name, n), ""
        return '{ struct %s t_; }' % name, None
    raise KeyError(how)


def end(st): return "".join(reversed(st.close)) + "".join(st.tail)


def observe(st, names=("x", "y"), uses=USES):
    """programs that end after the state, with every use of every name"""
    good, out = [], []
    for name in names:
        for how in uses:
            t, p = use(st, name, how)
            if p is None: yield False, "%s of %s in %s" % (how, name, brief(st)), st.text + t + "\n" + end(st)
            else: good.append(t); out.append(p)
    if good: yield "".join(out), "uses in " + brief(st), st.text + "\n".join(good) + "\n" + end(st)


def brief(st): return st.text.replace("\n", " ")[-160:]


def dup(st, text, what): return False, "%s again in %s" % (what, brief(st)), st.text + text + end(st)


MAIN = ("void main() {\n", "}\n")


def globals_(depth, kinds, names, st=None):
    """every sequence of global declarations"""
    st = st or State()
    yield st, None
    if depth == 0: return
    for name in names:
        for k in kinds:
            nxt, text = decl(st, k, name)
            if nxt is None:
                old = st.scopes[-1][name][0]
                if old == "fn" and k in ("fn", "proto"): continue       # prototypes: see functions()
                yield st, (text, k)
            else: yield from globals_(depth - 1, kinds, names, nxt)


def bodies(st, depth, kinds=("var", "enum", "struct", "arr", "tag"), names=("x",), extra=True, top=1):
    """every sequence of declarations and blocks in a function"""
    yield st, None
    if depth == 0: return
    for name in names:
        for k in kinds:
            nxt, text = decl(st, k, name)
            if nxt is None: yield st, (text, k)
            else: yield from bodies(nxt, depth - 1, kinds, names, extra, top)
    if extra:
        nxt, text = decl(st, "var", "y")
        if nxt is None: yield st, (text, "var")
        else: yield from bodies(nxt, depth - 1, kinds, names, extra, top)
    yield from bodies(st.open("{\n", "}\n"), depth - 1, kinds, names, extra, top)
    f = st.open("for (int x = %d; x > 0; ) {\n" % st.n, "break;\n}\n")
    f = State(f.scopes[:-1] + ({"x": ("var", st.n)}, {}), f.text, f.close, st.n + 1, f.tail)
    yield from bodies(f, depth - 1, kinds, names, extra, top)
    if len(st.close) > top:
        nxt = st.shut()
        if st.close[-1].startswith("break"): nxt = State(nxt.scopes[:-1], nxt.text, nxt.close, nxt.n, nxt.tail)
        yield from bodies(nxt, depth - 1, kinds, names, extra, top)


def run_states(states, names=("x", "y"), uses=USES):
    for st, again in states:
        if again: yield dup(st, again[0], again[1])
        else: yield from observe(st, names, uses)


GK = ("var", "fn", "enum", "struct", "type", "proto", "arr", "tag")


def family_globals():
    for st, again in globals_(3 if T else 2, GK, ("x", "y")):
        if again: yield False, "%s again in %s" % (again[1], brief(st)), st.text + again[0] + "void main() { }\n" + end(st)
        else: yield from observe(st.open(*MAIN))


def family_bodies():
    for g in (None,) + GK:
        st = State() if g is None else decl(State(), g, "x")[0]
        few = g in (None, "var")
        yield from run_states(bodies(st.open(*MAIN), 5 if T and few else 4 if few or T else 3))


PARAMS = {"": {}, "int x": {"x": "param"}, "int y": {"y": "param"}, "int x, int y": {"x": "param", "y": "param"}, "int x[]": {"x": "aparam"}, "int (*x)()": {"x": "fparam"}, "float z, int x": {"x": "param"}, "int y, int (*x)()": {"y": "param", "x": "fparam"}}


def function(st, name, params, arg):
    """opens a function whose parameters get known values; the call goes to main"""
    text = "void %s(%s) {\n" % (name, params)
    f = st.open(text, "}\n")
    scope, args, n = {}, [], st.n
    for p in (params.split(", ") if params else []):
        who = "y" if "y" in p else "x" if "x" in p else "z"
        kind = {"[": "aparam", "(": "fparam"}.get(next((ch for ch in p if ch in "[("), ""), "param")
        scope[who] = (kind, n)
        args.append({"param": str(n), "aparam": "a%d_" % n, "fparam": "f%d_" % n}[kind])
        n += 1
    pre = "".join("int a%d_[1] = { %d };\n" % (v[1], v[1]) if v[0] == "aparam" else "int f%d_() { return %d; }\n" % (v[1], v[1]) if v[0] == "fparam" else "" for v in scope.values())
    f = State(f.scopes[:-1] + (scope,), st.text + pre + text, f.close, n, f.tail)
    return f, "%s(%s);\n" % (name, ", ".join(args))


def family_params():
    for g in (None, "var", "fn", "struct", "enum"):
        st = State() if g is None else decl(State(), g, "x")[0]
        for p in PARAMS:
            f, call = function(st, "f", p, None)
            f.tail += ("void main() { %s }\n" % call,)
            yield from run_states(bodies(f, 3 if T or g in (None, "var") else 2))
    for p in ("int x, int x", "int x, float x", "int x, int (*x)()", "int y, int x, int y", "int x[], int x"): yield False, "parameters " + p, "void f(%s) { }\nvoid main() { }\n" % p


def family_two():
    """what one function declares is not seen by the next"""
    for g in (None, "var"):
        st0 = State() if g is None else decl(State(), g, "x")[0]
        for p in ("", "int x", "int y, int (*x)()"):
            f, call = function(st0, "f", p, None)
            for st, again in bodies(f, 2, extra=False):
                if again: continue
                while st.close: 
                    broke = st.close[-1].startswith("break")
                    st = st.shut()
                    if broke: st = State(st.scopes[:-1], st.text, st.close, st.n, st.tail)
                for k in (None,) + GK:
                    nxt = st if k is None else decl(st, k, "x")[0]
                    if nxt is None: continue
                    for m, again2 in bodies(nxt.open("void main() {\n" + call, "}\n"), 1 if not T else 2, extra=False):
                        if not again2: yield from observe(m, ("x",))


def family_members():
    """members of structures are not names of their own, and are looked up in the structure"""
    shapes = [("x", "y"), ("y", "x"), ("x", "z"), ("z", "x"), ("x",), ("y",)]
    for a, b in itertools.product(shapes, repeat=2):
        src = "struct A { %s };\nstruct B { %s };\n" % (" ".join("int %s;" % m for m in a), " ".join("int %s;" % m for m in b))
        for outer in ("", "int x = 7;\n", "enum { x = 7 };\n", "struct x { int q; };\n", "int x() { return 7; }\n"):
            init = "A a = { %s }; B b = { %s };" % (", ".join(str(10 + k) for k in range(len(a))), ", ".join(str(20 + k) for k in range(len(b))))
            for inner in ("", "int y = 8; ", "enum { z = 8 }; "):
                good, exp = [], []
                for v, mem, base in (("a", a, 10), ("b", b, 20)):
                    for m in ("x", "y", "z", "w", "a", "A"):
                        t = 'printf("%%i,", %s.%s);' % (v, m)
                        if m in mem: good.append(t); exp.append("%d," % (base + mem.index(m)))
                        else: yield False, "member %s of %s" % (m, mem), src + outer + "void main() {\n" + init + inner + t + "\n}\n"
                        if m in mem: good.append('{ %s *p = &%s; printf("%%i,", p->%s); }' % (v.upper(), v, m)); exp.append("%d," % (base + mem.index(m)))
                if outer.startswith("int x ="): good.append('printf("%i,", x);'); exp.append("7,")
                if inner: n = inner.split()[1 if inner[0] == "i" else 2]; good.append('printf("%%i,", %s);' % n); exp.append("8,")
                yield "".join(exp), "members %s %s with %s %s" % (a, b, outer.strip(), inner), src + outer + "void main() {\n" + init + inner + " ".join(good) + "\n}\n"
                if not outer: yield False, "member used alone", src + "void main() {\n" + init + inner.replace("y", "w") + 'printf("%i", x);\n}\n'


def family_functions():
    """functions are known after their prototype or definition, and in their own body"""
    call = 'printf("%i,", f(2));'
    two = {"def": "int f(int a) { return a + %d; }\n", "proto": "int f(int);\n", "use": "int g%d() { return f(1); }\n", "var": "int f = %d;\n"}
    for n in range(1, 5 if T else 4):
        for seq in itertools.product(("def", "proto", "use", "other"), repeat=n):
            text, known, defined, bad, ok, uses = "", False, None, False, True, []
            for k, s in enumerate(seq):
                if s == "def":
                    if defined is not None: bad = True
                    text += two["def"] % (10 + k); defined, known = 10 + k, True
                elif s == "proto":
                    if known: ok = False
                    text += two["proto"]; known = True
                elif s == "use":
                    if not known: bad = True
                    text += two["use"] % k; uses.append(k)
                else: text += "int o%d(int f) { return f; }\n" % k
            if not ok: continue
            main = "void main() { " + "".join('printf("%%i,", g%d()); ' % k for k in uses) + "}\n"
            if bad or known and defined is None: yield False, "functions " + " ".join(seq), text + main
            else: yield "".join("%d," % (1 + defined) for _ in uses), "functions " + " ".join(seq), text + main
    yield "120,", "recursion", 'int f(int n) { return n < 2 ? 1 : n * f(n - 1); }\nvoid main() { printf("%i,", f(5)); }\n'
    yield "10,", "mutual recursion", 'int o(int);\nint e(int n) { return n == 0 ? 1 : o(n - 1); }\nint o(int n) { return n == 0 ? 0 : e(n - 1); }\nvoid main() { printf("%i%i,", e(4), o(4)); }\n'
    yield False, "recursion through a variable of the same name", "int f(int n) { int f = 1; return f(n); }\nvoid main() { f(1); }\n"
    for b in ("assert", "cos", "strcat", "printf", "print", "rand"): 
        yield "5,", "local variable called " + b, 'void main() { int %s = 5; { int q = %s; } float r = %s + 1; %s' % (b, b, b, 'printf("%%i,", %s); }\n' % b if b != "printf" else '} void g() { }\n') if b != "printf" else 'int v() { int printf = 5; return printf; }\nvoid main() { printf("%i,", v()); }\n'
    for w in ("value", "call"):
        yield False, "undeclared name " + w, "void main() { %s }\n" % ("int z = q;" if w == "value" else "q();")
    for t in ("q z;", "struct q z;", "enum q z;", "q *z;", "int z[q];", "int z = sizeof_;", "z = 1; int z;", "{ int z; } z = 1;", "for (int z = 0; z < 1; z++) ; z = 1;", "if (q) ;", "while (q) ;", "switch (q) { }", "return q;", "do ; while (q);", "{ int z; { int w; } w = 1; }", "int a = b, b = 1;", "enum { A = B, B };", "struct S { q m; };", "enum E { A }; { enum F { B }; } int z = B;", "{ struct S { int m; }; } S z;"):
        yield False, "undeclared name in " + t, "void main() { %s }\n" % t
        yield False, "undeclared name in a function: " + t, "int f(int a) { %s return a; }\nvoid main() { f(1); }\n" % t
    for t in ("q z;", "struct q z;", "int z[q];", "int z = q;", "int a = b, b = 1;", "enum { A = B, B };", "struct S { q m; };", "int f(q);", "q f() { }", "void f(q a) { }", "typedef q z;"):
        yield False, "undeclared global name in " + t, t + "\nvoid main() { }\n"
    for t in ("a = 1, b = a + 1, x = b + a", "a[2] = { 1, 2 }, x = a[0] + a[1]", "a = 1, *p = &a, x = *p + 2"):
        yield "3,", "earlier declarator of one declaration", 'void main() { int %s; printf("%%i,", x); }\n' % t


def main():
    for name, gen in (("global declarations", family_globals), ("blocks", family_bodies), ("parameters", family_params), ("two functions", family_two), ("members", family_members), ("functions", family_functions)):
        verdict.explore(c, gen(), name, show=SHOW, per_label=1 if not SHOW else 3, group=lambda l: l.split(" in ")[0])
    sys.exit(c.finish())


if __name__ == "__main__": main()
