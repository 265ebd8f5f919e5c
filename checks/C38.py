#!/usr/bin/env python3
"""C38: the file, line and text reported for one erroneous line after every sequence of preceding constructs."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib

c = vlib.Check("C38")
T = c.thorough

HEADERS = {"h.h": "int hh@;\n", "k.h": "\n/* a\n b */ int kk@;\n#define KH 1\n\n", "n.h": "#include \"m.h\"\nint nn;\n", "m.h": "int mm;\n\n// no line end"}

# constructs that may come before; @ is a unique number
BEFORE = [
    "\n",
    "// comment\n",
    "/* a\n   b\n*/\n",
    "/* c */ int a@; // d\n",
    "int b@; /* e\n f */ int c@;\n",
    "#define M@ 1\n",
    "#define M@ 1 + \\\n  2\nint m@ = M@;\n",
    "#define F@(x) (x)\nint f@ = F@(1);\n",
    "#define F@(x, y) (x + y)\nint f@ = F@(\n1,\n2);\n",
    "#define L@(x) x +\\\n  x + \\\n x\nint l@ = L@(1) + L@(2);\n",
    "#ifdef NO\nint no no;\n\n#endif\n",
    "#ifndef NO\nint d@;\n#else\nno\n#endif\n",
    "#if 0\n no\n#elif 1\nint g@;\n#endif\n",
    "#include \"h.h\"\n",
    "#include \"k.h\"\n",
    "#include \"n.h\"\n",
    "char s@[] = \"/* \" \"//\"\n \"#\";\n",
    "int q@,\n r@;\n",
    "void w@()\n{\n\tint i;\n\tfor (i = 0;\n\t\ti < 3; i++) ;\n}\n",
    "#macro B@(x)\nint y@ = x;\n\nint z@;\n#endm\nB@(1)\n",
    "int ev@ =\n#eval 1 + 1\n;\n",
    "#define S@ 1\nint t@ = 0\n#while S@ < 3\n + S@\n#set S@ #eval S@ + 1\n\n#endw\n;\n",
    "#define S@ 1\n#while S@ < 3\n#set S@ #eval S@ + 1\n#endw\n",
    "#define N@ 0\n#while N@\nno no `\n#endw\n",
    "#undef NOT_DEFINED\n",
    "#if 1 \\\n + 1\nint u@ = 1;\n#endif\n",
    "#macro V@(x)\nint vv@ = x;\n#endm\n",
    "int яя@ = 'я'; /* ё */\n",
    "#define D@ \"x \\\n y\"\n",
    "#define D@(x) \"x \\\n\\\n y\" x\nint sd@;\n",
    "#if 0\nchar no[] = \"a \\\n b\";\n#endif\n",
    "#define C@ 1 /* a\n b */\nint ca@ = C@;\n",
    "#define C@ 1 // a\nint cb@ = C@;\n",
    "#define C@(a, b) a + b\nint cc@ = C@(1, /* a\n b */ 2);\n",
    "#define C@(a, b) a + b\nint cd@ = C@(1, // a\n 2);\n",
    "#if 1 /* a\n b */\nint ce@;\n#endif /* c\n d */\n",
    "#if 0\n/* a\n#endif\n b */\n#endif\n",
    "#macro B@(x, y)\nint ba@ = x +\n y;\n#endm\nB@(1,\n 2)\n",
    "#macro B@(x)\nint bb@ = x; /* c\n d */\n#endm\nB@(1)\n",
    "#define O@(x) x\nint oo@ = O@(O@(\n1)\n+ 2);\n",
    "#define Q@ 2\nint qq@ =\n#eval Q@ + \\\n 1\n;\n",
    "#line 900\n",
]
del BEFORE[-1]

# the erroneous line (marked with !) in its surroundings
ERRORS = [
    "!int e = undeclared;\n",
    "void main() { int x; x = 1; } int e = 1;\n!int e = 2;\n",
    "void main()\n{\n\tint x = 1;\n!\tx = undeclared;\n}\n",
    "void main()\n{\n!\tundeclared = 1;\n\n\t/* tail */\n}\n",
    "#define MM 1\nvoid main()\n{\n\tint x = MM;\n!\tx = MM + undeclared;\n}\n",
    "#define MM 1\nvoid main()\n{\n!\tint x = undeclared + MM;\n}\n",
    "#define FF(a, b) (a) + (b)\nvoid main()\n{\n\tint x = FF(1, 2);\n!\tint y = FF(1, 2) + undeclared;\n}\n",
    "#define FF(a) (a)\nvoid main()\n{\n!\tint y = FF(undeclared);\n}\n",
    "#define BAD undeclared\nvoid main()\n{\n!\tint y = BAD;\n}\n",
    "void main()\n{\n\tint x; /* a\n b */\n!\tx = /* c */ undeclared; // d\n}\n",
    "void main()\n{\n!\tint x = 1 ` 2;\n}\n",
    "void main()\n{\n!\tint x = 0b2;\n}\n",
    "!int a = 1, a = 2;\nvoid main() { }\n",
    "int f(int a)\n{\n!\tbreak;\n\treturn a;\n}\nvoid main() { }\n",
    "void main()\n{\n!\tint x = \"s\";\n}\n",
    "!#if (\n#endif\nvoid main() { }\n",
    "!#include \"no.h\"\nvoid main() { }\n",
    "#define FF(a, b) a\n!int x = FF(1);\nvoid main() { }\n",
    "!#unknown\nvoid main() { }\n",
    "!#error text\nvoid main() { }\n",
    "#if 1\n#endif\n!#endif\nvoid main() { }\n",
]
IN_HEADER = "\n#define HM 1\n!int e = HM + undeclared;\n\n"
AFTER = ["", "int after;\n#define AFTER 1\nint after2 = AFTER;\n"]


def program(seq, err, after):
    """(files, file with the error, its line, its text)"""
    out = "".join(b.replace("@", str(k)) for k, b in enumerate(seq))
    text = out + err + after
    lines = text.split("\n")
    k = next(i for i, l in enumerate(lines) if l.startswith("!"))
    lines[k] = lines[k][1:]
    used = set(re.findall(r'#include "([hkn]\.h)"', out))
    files = [(h, HEADERS[h].replace("@", "0")) for h in used] + ([("m.h", HEADERS["m.h"])] if "n.h" in used else [])
    return files, "\n".join(lines), k + 1, lines[k]


def cases():
    n = 3
    for k in range(0, n + 1):
        for seq in itertools.product(BEFORE, repeat=k):
            if k == 3 and not T and any(BEFORE.index(b) > 27 for b in seq[1:]): continue
            for err in ERRORS if k < 3 or T else ERRORS[:1] + ERRORS[4:6] + ERRORS[9:10] + ERRORS[15:17]:
                files, text, line, quoted = program(seq, err, AFTER[(len(seq) + len(err)) % 2])
                yield files + [("t.c", text)], ["t.c"], "t.c", line, quoted
    for k in range(0, n if T else 2):
        for seq in itertools.product(BEFORE, repeat=k):
            # the error in an included file, and in the second input after it
            files, text, line, quoted = program(seq, IN_HEADER, "")
            yield files + [("e.h", text), ("t.c", "int first;\n#include \"e.h\"\nvoid main() { }\n")], ["t.c"], "e.h", line, quoted
            for err in ERRORS[:4] + ERRORS[10:12]:
                files, text, line, quoted = program(seq, err, AFTER[1])
                yield files + [("one.c", "int one;\n/* two\n */ int three;\n\n"), ("t.c", text)], ["one.c", "t.c"], "t.c", line, quoted
            # the error after an inclusion of a file with the constructs
            files, text, line, quoted = program(seq, "!int e = undeclared;\n", "")
            pre = "\n".join(text.split("\n")[:line - 1]) + "\n"
            yield files + [("p.h", pre), ("t.c", "int first;\n#include \"p.h\"\nint e = undeclared;\nvoid main() { }\n")], ["t.c"], "t.c", 3, "int e = undeclared;"


def plain(s): return " ".join(re.sub(r"//.*|/\*.*?\*/", " ", s).split())


def judge(want, r):
    files, inputs, name, line, quoted = want
    log = re.sub("\x1b\\[[0-9;]*m", "", r.log.decode(errors="replace"))
    ls = log.splitlines()
    for i, l in enumerate(ls):
        m = re.match(r"(?:\S*/)?([\w.]+):(\d+)(?::(\d+))?: ошибка: (.*)", l)
        if m: break
        if "ошибка" in l: return "no place is reported: " + l
    else: return "no error is reported"
    if r.code != 64: return "no failure"
    if (m.group(1), int(m.group(2))) != (name, line): return "reported at %s:%s instead of %s:%d: %s" % (m.group(1), m.group(2), name, line, m.group(4))
    shown = ls[i + 1].strip() if i + 1 < len(ls) else ""
    if plain(shown) != plain(quoted): return "the quoted line is %r" % shown
    return None


def batch(part):
    ruc = vlib.worker_ruc("rel")
    reqs = [(w[0], ["-VM"] + w[1] + ["-o", "o"], ["o"]) for w in part]
    rs = ruc.run_batch(reqs, 3000)
    bad = []
    for w, q, r in zip(part, reqs, rs):
        why = judge(w, r) if r is not None and not r.timeout else "?"
        if why is None: continue
        why = judge(w, ruc.run(*q, 30000))
        if why: bad.append((why, "".join("==> %s\n%s\n" % f for f in w[0]) + "ruc " + " ".join(q[1])))
    return len(part), bad


def chunks(size=100):
    it = iter(cases())
    while True:
        part = list(itertools.islice(it, size))
        if not part: return
        yield part


def main():
    vlib.rucd("rel")
    kinds = {}
    for n, bad in vlib.pmap(batch, chunks()):
        c.count(n, n, n)
        for why, replay in bad:
            k = re.sub(r"\d+", "N", why)
            kinds[k] = kinds.get(k, 0) + 1
            if kinds[k] <= 2: c.violation(why, replay)
    c.note("constructs before", len(BEFORE))
    c.note("erroneous lines", len(ERRORS))
    if sys.argv[1:]:
        for k, n in sorted(kinds.items(), key=lambda x: -x[1])[:30]: print(n, k)
    sys.exit(c.finish())


if __name__ == "__main__": main()
