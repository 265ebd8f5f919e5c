#!/usr/bin/env python3
"""Every text, however malformed, gets a verdict: the sanitizer build of the compiler ends with success or failure in time."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, corpus

c = vlib.Check("C01")
T = c.thorough
TARGETS = ("-VM", "-LLVM", "-MIPS")
WAIT = 3000
LONG = int(os.environ.get("C01_LONG", "60000"))

# ---- what may stand in a program
TOKENS = ["int", "float", "char", "void", "bool", "struct", "enum", "typedef", "const", "x", "f", "T", "main", "0", "1.5", '"s"', "'c'", "null", "true", "(", ")", "{", "}", "[", "]", ";", ",",
          "=", "+=", "+", "-", "*", "&", "!", "<", "&&", "?", ":", ".", "->", "++", "if", "else", "while", "do", "for", "switch", "case", "default", "break", "continue", "return", "printf",
          "@", "цел", '"', "'", "sizeof", "~", "upb", "abs", "t_create", "FILE"]
FEW = ["int", "struct", "enum", "typedef", "const", "x", "f", "0", "1.5", '"s"', "(", ")", "{", "}", "[", "]", ";", ",", "=", "*", "&", "!", "?", ":", ".", "++", "if", "while", "case", "return", "printf", "void"]
AROUND = {"file": ("", ""), "function": ("struct T { int y; } t; int f(int a) { return a; } void main() { int x = 1, a[2]; ", " }"), "unclosed function": ("int f(int a) { return a; } void main() { int x = 1; ", "")}
LINES = ["#if 1", "#if", "#ifdef M", "#ifndef M", "#elif 0", "#else", "#endif", "#define M 1", "#define M(x) x", "#define M", "#define", "#set M 2", "#undef M", "#undef", "#macro M(x)", "#endm", "#while 0", "#endw",
         "#include \"t.h\"", "#include", "#include \"", "#line 3", "#eval M", "#eval (M", "M", "M(1", ")", "M(2)", "/*", "*/", "//", "\"", "'", "#", "##", "\\", "#error", "int x;", "void main() {}"]
SUBST = ["0", "1.5", '"s"', "'c'", "x", "int", "float", "struct", "(", ")", "{", "}", "[", "]", ";", ",", "=", "+", "*", "&", "?", ":", ".", "->", "return", "if", "case", "typedef", "enum", "printf", "const", "void", "main", "!", "&&", "null", "++"]


def verdict(r):
    return not r.timeout and r.code in (0, 64)


def why(r):
    if r.timeout: return "does not end"
    log = r.log if isinstance(r.log, str) else r.log.decode(errors="replace")
    for pat in (r"SUMMARY: (.*)", r"(runtime error: .*)"):
        m = re.search(pat, log)
        if m: return m.group(1)[:150]
    return r.describe()


def batch(item):
    """item = (label, flag, list of texts or of (files, arguments))"""
    label, flag, texts = item
    ruc = vlib.worker_ruc("san")
    bad = []
    reqs = []
    for t in texts:
        files, args = t if isinstance(t, tuple) else ([("t.c", t)], ["t.c"])
        reqs.append((files, [flag] + args + ["-o", "o"], ["o"]))
    for q, r in zip(reqs, ruc.run_batch(reqs, WAIT)):
        if r is not None and verdict(r): continue
        for limit in (WAIT, LONG):
            r = ruc.run(*q, limit)
            if verdict(r): break
        else:
            bad.append((why(r), "".join("==> %s\n%s\n" % (n, d if isinstance(d, str) else repr(d)) for n, d in q[0]) + "\nruc " + " ".join(q[1])))
    return label, len(texts), bad


def chunks(label, flag, texts, size=150):
    it = iter(texts)
    while True:
        part = list(itertools.islice(it, size))
        if not part: return
        yield label, flag, part


def sequences():
    """every sequence of tokens"""
    for where, (a, b) in AROUND.items():
        for n, alphabet, flags in ((1, TOKENS, TARGETS), (2, TOKENS, TARGETS), (3, TOKENS if T else FEW, TARGETS if T else ("-VM",)), (4, FEW, ("-VM",))):
            if n == 4 and (not T or where != "file"): continue
            for flag in flags: yield from chunks("token sequences of length %d (%s, %s)" % (n, where, flag), flag, (a + " ".join(t) + b for t in itertools.product(alphabet, repeat=n)))


def directives():
    for n in (1, 2, 3):
        if n == 3 and not T: alphabet = LINES[::2] + ["#endif"]
        else: alphabet = LINES
        for end in ("\n", ""):
            if n == 3 and end == "": continue
            yield from chunks("sequences of %d lines with directives" % n, "-VM", (([("t.c", "\n".join(t) + end), ("t.h", "#define H\nint h;")], ["t.c"]) for t in itertools.product(alphabet, repeat=n)))


def edits(ts, few):
    for k in range(len(ts)):
        yield ts[:k]
        yield ts[:k] + ts[k + 1:]
        yield ts[:k] + [ts[k]] + ts[k:]
        if k + 1 < len(ts): yield ts[:k] + [ts[k + 1], ts[k]] + ts[k + 2:]
        if not few:
            for t in SUBST:
                yield ts[:k] + [t] + ts[k + 1:]
                yield ts[:k] + [t] + ts[k:]


def mutations():
    for name, s in corpus.programs():
        ts = corpus.tokens(s)
        if ts is None: continue
        full = len(s) < (400 if T else 50)
        if not full and not T and len(s) > 250 and not name.startswith("own"): continue
        for flag in TARGETS if full or name.startswith("own") or T else ("-VM",): yield from chunks("edits of programs (%s)" % flag, flag, (" ".join(t) for t in edits(ts, not full)))


def bytes_():
    nice = bytes([0, 1, 9, 10, 13, 32, 34, 35, 39, 42, 47, 48, 65, 92, 95, 127, 128, 191, 192, 193, 194, 207, 208, 209, 223, 224, 237, 239, 240, 244, 245, 248, 255])
    bs = range(256) if T else nice
    one = [bytes([a]) for a in range(256)]
    two = [bytes([a, b]) for a in range(256) for b in bs]
    three = [bytes(x) for x in itertools.product(nice[::2] if not T else nice, repeat=3)]
    yield from chunks("bytes alone", "-VM", [b""] + one + two + three)
    prog = 'int x = 10;\nvoid main() { printf("a%i\\n", x); // c\n}\n'.encode()
    at = range(len(prog) + 1)
    yield from chunks("bytes in a program", "-VM", [prog[:k] + bytes([b]) + prog[k:] for k in at for b in range(256)] + [prog[:k] + bytes([b]) + prog[k + 1:] for k in at for b in nice] + [prog[:k] for k in at])


def numbers():
    parts = ["0", "1", "9", "x", "b", "e", "E", "+", "-", ".", "f", "u", "l", "99999999999999999999", "0x", "1e9999", "1e-9999"]
    for n in (1, 2, 3, 4):
        if n == 4 and not T: parts = parts[:11]
        yield from chunks("numbers of %d parts" % n, "-VM", ("int main() { float r = %s; return 0; }" % "".join(p) for p in itertools.product(parts, repeat=n)))
    parts = ["'", '"', "\\", "n", "x", "0", "я", "\n", "%", "/", "*"]
    for n in range(1, 6 if T else 5):
        yield from chunks("literals of %d parts" % n, "-VM", ('void main() { printf("%s' % "".join(p) for p in itertools.product(parts, repeat=n)))
        yield from chunks("literals of %d parts" % n, "-VM", ("void main() { printf(\"%%c\", %s); }" % "".join(p) for p in itertools.product(parts, repeat=n)))


def sizes():
    """one long thing at a time"""
    LEN = sorted({1, 2, 3, 15, 16, 17, 31, 32, 33, 49, 50, 51, 52, 63, 64, 65, 97, 98, 99, 100, 101, 127, 128, 129, 130, 255, 256, 257, 258, 300, 500, 510, 511, 512, 513, 514, 600, 1000, 1023, 1024, 1025, 1026, 2000, 4000, 4094, 4095, 4096, 4097, 4098, 5000} | ({8191, 8192, 8193, 20000} if T else set()))
    NEST = [k for k in LEN if k <= 600]
    big = {
        "identifier": lambda n: "int %s; void main() { %s = 1; }" % ("a" * n, "a" * n),
        "undeclared identifier": lambda n: "void main() { %s = 1; }" % ("a" * n),
        "undeclared Russian identifier": lambda n: "void main() { %s = 1; }" % ("я" * n),
        "repeated identifier": lambda n: "int %s; int %s; void main() { }" % ("я" * n, "я" * n),
        "undeclared function": lambda n: "void main() { %s(); }" % ("a" * n),
        "unknown member": lambda n: "struct P { int x; } p; void main() { p.%s = 1; }" % ("я" * n),
        "unknown structure": lambda n: "struct %s p; void main() { }" % ("я" * n),
        "unknown enumeration": lambda n: "enum %s p; void main() { }" % ("я" * n),
        "unused function": lambda n: "int %s(int); void main() { %s(1); }" % ("я" * n, "я" * n),
        "bad character": lambda n: "void main() { " + "`" * n + " }",
        "integer": lambda n: "void main() { int x = %s; }" % ("7" * n),
        "zeros": lambda n: "void main() { int x = %s; }" % ("0" * n),
        "hexadecimal": lambda n: "void main() { int x = 0x%s; }" % ("f" * n),
        "binary": lambda n: "void main() { int x = 0b%s; }" % ("1" * n),
        "fraction": lambda n: "void main() { float x = 0.%s; }" % ("7" * n),
        "exponent": lambda n: "void main() { float x = 1e%s; }" % ("7" * n),
        "negative exponent": lambda n: "void main() { float x = 1.5e-%s; }" % ("7" * n),
        "string": lambda n: 'void main() { printf("%s"); }' % ("s" * n),
        "Russian string": lambda n: 'void main() { printf("%s"); }' % ("я" * n),
        "escapes": lambda n: 'void main() { printf("%s"); }' % ("\\n" * n),
        "joined strings": lambda n: 'void main() { printf(%s); }' % ('"a" ' * n),
        "many strings": lambda n: 'void main() { %s }' % "".join('printf("a%d");' % k for k in range(n)),
        "directives of printf": lambda n: 'void main() { printf("%s"%s); }' % ("%i" * n, ", 1" * n),
        "unknown directive of printf": lambda n: 'void main() { printf("%' + "q" * n + '"); }',
        "unclosed string": lambda n: 'void main() { printf("%s' % ("s" * n),
        "unclosed character": lambda n: "void main() { char c = '%s" % ("s" * n),
        "long character": lambda n: "void main() { char c = '%s'; }" % ("я" * n),
        "comment": lambda n: "/*%s*/ void main() { } //%s" % ("я" * n, "я" * n),
        "unclosed comment": lambda n: "void main() { } /*" + "*" * n,
        "empty lines": lambda n: "\n" * n + "void main() { x; }",
        "spaces": lambda n: " " * n + "void main() { x; }",
        "line with an error": lambda n: "void main() { x; " + ";" * n + "}",
        "members": lambda n: "struct P { %s } p; void main() { p.m0 = 1; }" % "".join("int m%d; " % k for k in range(n)),
        "enumerators": lambda n: "enum P { %s }; void main() { int x = e0; }" % ", ".join("e%d" % k for k in range(n)),
        "parameters": lambda n: "int f(%s) { return p0; } void main() { f(%s); }" % (", ".join("int p%d" % k for k in range(n)), ", ".join("1" for k in range(n))),
        "parameter types": lambda n: "int f(%s); void main() { }" % ", ".join("int" for k in range(n)),
        "too many arguments": lambda n: "int f(int a) { return a; } void main() { f(%s); }" % ", ".join("1" for k in range(n)),
        "variables": lambda n: "void main() { %s }" % "".join("int v%d = %d; " % (k, k) for k in range(n)),
        "global variables": lambda n: "%s void main() { }" % "".join("int v%d = %d; " % (k, k) for k in range(n)),
        "functions": lambda n: "%s void main() { f0(); }" % "".join("int f%d() { return %d; } " % (k, k) for k in range(n)),
        "predeclared functions": lambda n: "%s void main() { }" % "".join("int f%d(int); " % k for k in range(n)),
        "statements": lambda n: "void main() { int x; %s }" % ("x = 1; " * n),
        "errors": lambda n: "void main() { %s }" % ("x = 1; " * n),
        "cases": lambda n: "void main() { switch (1) { %s } }" % "".join("case %d: break; " % k for k in range(n)),
        "terms": lambda n: "void main() { int x = 1%s; }" % (" + 1" * n),
        "terms with a variable": lambda n: "void main() { int x = 1; x = x%s; }" % (" + x" * n),
        "commas": lambda n: "void main() { int x = 1; x%s; }" % (", x" * n),
        "assignments": lambda n: "void main() { int x; %sx = 1; }" % ("x = " * n),
        "elements": lambda n: "void main() { int x[] = { %s }; }" % ", ".join("1" * 1 for k in range(n)),
        "initialisers of a structure": lambda n: "struct { int a; } x = { %s }; void main() { }" % ", ".join("1" for k in range(n)),
        "macros": lambda n: "\n".join("#define M%d %d" % (k, k) for k in range(n)) + "\nvoid main() { int x = M0; }",
        "macro name": lambda n: "#define %s 1\nvoid main() { int x = %s; }" % ("M" * n, "M" * n),
        "macro value": lambda n: "#define M %s\nvoid main() { M }" % (";" * n),
        "macro parameters": lambda n: "#define M(%s) p0\nvoid main() { int x = M(%s); }" % (", ".join("p%d" % k for k in range(n)), ", ".join("1" for k in range(n))),
        "macro parameter name": lambda n: "#define M(%s) %s\nvoid main() { int x = M(1); }" % ("p" * n, "p" * n),
        "macro argument": lambda n: "#define M(p) p\nvoid main() { M(%s) }" % (";" * n),
        "unknown directive": lambda n: "#%s\nvoid main() { }" % ("d" * n),
        "text of #error": lambda n: "#error %s\nvoid main() { }" % ("d" * n),
        "name in #include": lambda n: "#include \"%s\"\nvoid main() { }" % ("d" * n),
        "directory in #include": lambda n: "#include \"%st\"\nvoid main() { }" % ("d/" * n),
        "name in #ifdef": lambda n: "#ifdef %s\n#endif\nvoid main() { }" % ("d" * n),
        "digits in #if": lambda n: "#if %s\n#endif\nvoid main() { }" % ("7" * n),
        "terms in #if": lambda n: "#if 1%s\n#endif\nvoid main() { }" % ("+1" * n),
        "file name": lambda n: ([("t.c", "void main() { }")], ["t.c", "-D" + "a" * n]),
    }
    deep = {
        "brackets": lambda n: "void main() { int x = %s1%s; }" % ("(" * n, ")" * n),
        "brackets around a variable": lambda n: "void main() { int x = 1; x = %sx%s; }" % ("(" * n, ")" * n),
        "unclosed brackets": lambda n: "void main() { int x = %s1; }" % ("(" * n),
        "closing brackets": lambda n: "void main() { int x = 1%s; }" % (")" * n),
        "blocks": lambda n: "void main() { %s%s }" % ("{" * n, "}" * n),
        "unclosed blocks": lambda n: "void main() { %s" % ("{" * n),
        "closing blocks": lambda n: "void main() { } %s" % ("}" * n),
        "ifs": lambda n: "void main() { %s; }" % ("if (1) " * n),
        "if-elses": lambda n: "void main() { %s; }" % ("if (1) ; else " * n),
        "whiles": lambda n: "void main() { %s; }" % ("while (0) " * n),
        "fors": lambda n: "void main() { %s; }" % ("for (;0;) " * n),
        "dos": lambda n: "void main() { %s; %s }" % ("do " * n, "while (0); " * n),
        "switches": lambda n: "void main() { %s %s }" % ("switch (1) { case 1: " * n, "}" * n),
        "signs": lambda n: "void main() { int x = %s1; }" % ("- " * n),
        "nots": lambda n: "void main() { int x = 1; x = %sx; }" % ("!" * n),
        "conditions": lambda n: "void main() { int x = 1; x = %s1; }" % ("x ? 1 : " * n),
        "ands": lambda n: "void main() { int x = 1; x = 1%s; }" % (" && x" * n),
        "calls": lambda n: "int f(int a) { return a; } void main() { %s1%s; }" % ("f(" * n, ")" * n),
        "indices": lambda n: "void main() { int a[2]; a[0] = 0; int x = %s0%s; }" % ("a[" * n, "]" * n),
        "dimensions": lambda n: "void main() { int a%s; }" % ("[1]" * n),
        "empty dimensions": lambda n: "void f(int a%s) { } void main() { }" % ("[]" * n),
        "initialisers": lambda n: "void main() { int a%s = %s1%s; }" % ("[1]" * n, "{" * n, "}" * n),
        "stars": lambda n: "void main() { int %sx; }" % ("*" * n),
        "indirections": lambda n: "void main() { int x; x = %sx; }" % ("*" * n),
        "addresses": lambda n: "void main() { int x; x = %sx; }" % ("&" * n),
        "structures": lambda n: "void main() { %sint x;%s }" % ("struct { " * n, " } m;" * n),
        "conditional directives": lambda n: "#if 1\n" * n + "void main() { }\n" + "#endif\n" * n,
        "macro calls": lambda n: "#define M(x) x\nvoid main() { int x = %s1%s; }" % ("M(" * n, ")" * n),
        "macro chain": lambda n: "\n".join("#define M%d M%d" % (k, k + 1) for k in range(n)) + "\n#define M%d 1\nvoid main() { int x = M0; }" % n,
        "brackets in #if": lambda n: "#if %s1%s\n#endif\nvoid main() { }" % ("(" * n, ")" * n),
        "function types": lambda n: "int f(%sint%s); void main() { }" % ("int (*)(" * n, ")" * n),
    }
    for table, lens in ((big, LEN), (deep, NEST)):
        for name, f in table.items():
            # the work on these grows with the square of the size or faster
            top = 300 if name in ("many strings", "errors", "joined strings", "macro parameters", "terms in #if", "bad character") else 10 ** 6
            for flag in TARGETS: yield from chunks("sizes: %s" % name, flag, [f(n) for n in lens if n <= top and (T or flag == "-VM" or n <= 130 or n in (257, 513))], 10)


def arguments():
    """the answer to every short command line"""
    ARGS = ["t.c", "u.c", "missing.c", "-VM", "-LLVM", "-MIPS", "-E", "-Wno", "-I", "-I.", "-Imissing", "-D", "-DM", "-DM=1", "-D=", "-D1", "-o", "x", "-", "--", "", "-c", "-h", "--help", "."]
    files = [("t.c", "void main() { int x = M; }"), ("u.c", "int u;")]
    for n in (0, 1, 2, 3) if T else (0, 1, 2): yield from chunks("command lines of %d words" % n, "-VM", ((files, list(a)) for a in itertools.product(ARGS, repeat=n)))


def main():
    vlib.rucd("san")
    only = sys.argv[1:]
    seen, fails = {}, {}
    items = itertools.chain(*(f() for f in (sequences, directives, mutations, bytes_, numbers, sizes, arguments) if not only or f.__name__ in only))
    for label, n, bad in vlib.pmap(batch, items):
        c.count(n, n, n)
        label = re.sub(r" \(.*", "", label)
        seen[label] = seen.get(label, 0) + n
        for what, replay in bad:
            k = (label, what)
            fails[k] = fails.get(k, 0) + 1
            if only: print(label, what, replay[:150].replace("\n", " "), flush=True)
            if fails[k] <= 1: c.violation("[%s] %s" % (label, what), replay)
    for l, n in seen.items(): c.note(l, "%d texts" % n)
    if only:
        for k, n in sorted(fails.items(), key=lambda x: -x[1]): print(n, k)
    sys.exit(c.finish())


if __name__ == "__main__": main()
