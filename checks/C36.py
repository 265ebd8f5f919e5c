#!/usr/bin/env python3
"""C36: format strings and argument lists of printf (which are accepted, what they print), and print."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, cases, verdict
from cases import Case

c = vlib.Check("C36")
T = c.thorough
SHOW = bool(sys.argv[1:])

DECL = "struct S@ { int x; } s_@ = { 1 }; enum E@ { A@, B@ } e_@ = B@; int i_@ = 7, v_@[2] = { 1, 2 }; int *p_@ = &i_@; char c_@ = 'q', t_@[] = \"str\"; float f_@ = 2.5; bool b_@ = true; const int k_@ = 9; int fi@(int x) { return x + 1; } float ff@() { return 1.25; }\n"
# argument: text, class (i: integer, f: floating, s: string, x: nothing fits), what each directive prints
ARGS = [("5", "i", 5), ("i_@", "i", 7), ("'z'", "i", 122), ("c_@", "i", 113), ("k_@", "i", 9), ("fi@(3)", "i", 4), ("i_@ + 1", "i", 8), ("v_@[1]", "i", 2), ("*p_@", "i", 7), ("s_@.x", "i", 1), ("e_@", "i", 1), ("B@", "i", 1),
        ("1.5", "f", 1.5), ("f_@", "f", 2.5), ("ff@()", "f", 1.25), ("f_@ * 2", "f", 5.0),
        ("\"lit\"", "s", "lit"), ("t_@", "s", "str"), ("\"\"", "s", ""), ("\"я%i\"", "s", "я%i"),
        ("true", "x", 0), ("b_@", "x", 0), ("i_@ > 1", "x", 0), ("p_@", "x", 0), ("&i_@", "x", 0), ("v_@", "x", 0), ("s_@", "x", 0), ("fi@", "x", 0), ("null", "x", 0)]
FEW = [ARGS[k] for k in (0, 3, 13, 16, 20, 23, 25)]
DIRS = {"%i": "i", "%ц": "i", "%c": "c", "%л": "c", "%f": "f", "%в": "f", "%s": "s", "%с": "s"}
TEXT = ["", "a", "%%", "ю ", "i%%i", "\\n"]


def fits(d, a): return a[1] == {"i": "i", "c": "i", "f": "f", "s": "s"}[d] or (d == "f" and a[1] == "i")


def show(d, a):
    v = a[2]
    return str(v) if d == "i" else chr(v) if d == "c" else "%f" % v if d == "f" else v


def out_text(s): return s.replace("%%", "%").replace("\\n", "\n")


def item(fmt, ds, args):
    ok = len(ds) == len(args) and all(fits(d, a) for d, a in zip(ds, args))
    src = "printf(\"%s\"%s);" % (fmt, "".join(", " + a[0] for a in args))
    return ok, src, (DECL + "void main() { " + src + " }\n").replace("@", "")


def verdicts():
    # one directive, every argument
    for n, d in DIRS.items():
        for a in ARGS:
            for t in TEXT: yield item(t + n + t, [d], [a])
    for t in TEXT:
        yield item(t, [], [])
        for a in ARGS: yield item(t, [], [a])
    # sequences of directives with right, wrong, missing and additional arguments
    four = ["%i", "%c", "%f", "%s"]
    for k in range(1, 4):
        for ds in itertools.product(four, repeat=k):
            dd = [DIRS[d] for d in ds]
            for sep in ("", "%%", " ") if k < 3 else ("%%",):
                for args in itertools.product(FEW if T or k < 3 else FEW[:5], repeat=k): yield item(sep.join(ds), dd, args)
                right = [next(a for a in ARGS if fits(d, a)) for d in dd]
                for j in range(k): yield item(sep.join(ds), dd, right[:j] + right[j + 1:])
                for j in range(k + 1):
                    for a in FEW: yield item(sep.join(ds), dd, right[:j] + [a] + right[j:])
    # directives that do not exist
    for d in "adexuglpIFSCnзфЦ0.-+ 5":
        for args in ([], [ARGS[0]], [ARGS[12]]):
            yield (False,) + item("%" + d, [], args)[1:]
            yield (False,) + item("%i%" + d, [], [ARGS[0]] + args)[1:]
            yield (False,) + item("%5" + d + "%i", [], [ARGS[0]] + args)[1:]
    for t in ("%", "a%", "%i%", "%%%", "%l", "%li", "%5i", "%.2f", "% i", "%ii%"):
        for args in ([], [ARGS[0]], [ARGS[0]] * 2): yield (False,) + item(t, [], args)[1:]
    # the format itself
    for a in ARGS:
        if a[0][0] != '"': yield (False, "printf(%s)" % a[0], (DECL + "void main() { printf(%s); }\n" % a[0]).replace("@", "")); yield (False, "printf(%s, 1)" % a[0], (DECL + "void main() { printf(%s, 1); }\n" % a[0]).replace("@", ""))
    yield False, "printf()", "void main() { printf(); }\n"
    # the number of values
    for n in range(15, 40):
        for x, v in (("%i", "1"), ("%f", "1.5"), ("%s", "\"a\""), ("%c", "'a'")):
            yield n <= 20, "%d values with %s" % (n, x), "void main() { printf(\"%s\"%s); }\n" % (x * n, (", " + v) * n)
            yield n <= 20, "%d values with %%%% and %s" % (n, x), "void main() { printf(\"%s\"%s); }\n" % (("%%" + x) * n, (", " + v) * n)
            for tail in ("%%", "a", "%%%%", "%%a%%"):
                yield n <= 20, "%d values with %s and %s after them" % (n, x, tail), "void main() { printf(\"%s\"%s); }\n" % (x * n + tail, (", " + v) * n)
                yield n <= 20, "%d values with %s and %s before them" % (n, x, tail), "void main() { printf(\"%s\"%s); }\n" % (tail + x * n, (", " + v) * n)


def prints():
    """print: what it accepts"""
    for a in ARGS:
        ok = a[0] not in ("p_@", "&i_@", "fi@", "null")
        if a[0] == "null": continue
        yield ok, "print(%s)" % a[0], (DECL + "void main() { print(%s); }\n" % a[0]).replace("@", "")
        yield ok, "print(1, %s)" % a[0], (DECL + "void main() { print(1, %s); }\n" % a[0]).replace("@", "")
        name = a[0].endswith("_@")
        for f in ("printid", "getid"):
            if name: continue
            if a[0] in ("B@", "fi@"): continue
            yield False, "%s(%s)" % (f, a[0]), (DECL + "void main() { %s(%s); }\n" % (f, a[0])).replace("@", "")
    for f in ("print", "printid", "getid"): yield False, f + "()", "void main() { %s(); }\n" % f
    for n in ("i_", "c_", "f_", "v_", "s_"):
        for f in ("printid", "getid"): yield True, "%s(%s)" % (f, n), (DECL + "void main() { %s(%s); }\n" % (f, n)).replace("@", "")
    yield False, "printid(undeclared)", "void main() { printid(u); }\n"
    yield False, "getid(undeclared)", "void main() { int i; getid(i, u); }\n"


def outputs():
    good = [a for a in ARGS if a[1] != "x"]
    def case(pieces):
        fmt = "".join(p[0] for p in pieces)
        args = [p[2] for p in pieces if p[1]]
        exp = "".join(show(p[1], p[2]) if p[1] else out_text(p[0]) for p in pieces)
        if "\n" in exp: exp, fmt = exp.replace("\n", "|"), fmt.replace("\\n", "|")
        return Case(DECL, ["printf(\"%s\"%s);" % (fmt, "".join(", " + a[0] for a in args))], exp, fmt)
    one = [(n, d, a) for n, d in DIRS.items() for a in good if fits(d, a)]
    texts = [(t, None, None) for t in TEXT if t]
    for p in one:
        yield case([p])
        for t in texts: yield case([t, p, t])
    few = [(n, d, a) for n, d in DIRS.items() for a in good[::3] if fits(d, a)]
    for k in (2, 3) if not T else (2, 3, 4):
        pool = (few if k == 2 or T and k == 3 else few[::3]) + texts[1:3]
        for ps in itertools.product(pool, repeat=k): yield case(ps)
    for n in range(1, 21):
        for d, a in (("%i", good[1]), ("%f", good[12]), ("%s", good[17])): yield case([(d, DIRS[d], a)] * n)
    for v in list(range(0x20, 0x7F)) + list(range(0x410, 0x450)) + [0x451, 0x401, 0x20AC, 0xFFFD, 0x10000, 0x1F600, 0x10FFFF]:
        if chr(v) not in "%\\\"'@": yield Case("", ["printf(\"<%c>%%c%%s\", '%c', \"%c%c\");" % (v, v, v, v)], "<%c>%c%c%c" % (v, v, v, v), "character %d" % v)
    # the value of printf and nested calls
    yield Case("int g@(int x) { printf(\"[%i]\", x); return x * 2; }\n", ["printf(\"%i %i\", g@(1), g@(2));"], "[1][2]2 4", "calls in arguments")
    yield Case("", ["int i_ = 1; printf(\"%i %i %i\", i_++, i_++, i_);"], "1 2 3", "side effects in arguments")


def main():
    verdict.explore(c, verdicts(), "printf", show=SHOW)
    verdict.explore(c, prints(), "print", show=SHOW)
    cases.explore(c, outputs(), "vm", size=60, label="printed text")
    c.assumptions += ["the virtual machine is the model in lib/vm.c"]
    sys.exit(c.finish())


if __name__ == "__main__": main()
