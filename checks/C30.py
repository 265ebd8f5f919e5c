#!/usr/bin/env python3
"""C30: every literal of bounded length and every sequence of punctuators, against the grammar of the manual."""
import itertools, os, re, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, vmlib, image

c = vlib.Check("C30")
T = c.thorough
PER = 400
INT_MAX = (1 << 31) - 1
E_LETTERS = "eEеЕ"


# ------------------------------------------------------------------ the grammar of numbers
BASES = {"x": 16, "X": 16, "o": 8, "O": 8, "b": 2, "B": 2, "d": 10, "D": 10}
HEX = "0123456789abcdefABCDEF"


def integer_literals(n):
    """(text, value): every digit string up to a length for every base, and values around every power of two with leading zeros"""
    for prefix, base in [("", 10)] + [("0" + l, b) for l, b in BASES.items()]:
        digits = HEX[:base] + (HEX[16:] if base == 16 else "")
        for k in range(1, n + 1 if base < 16 else n):
            for t in itertools.product(digits, repeat=k): yield prefix + "".join(t), int("".join(t), base)
        for e in range(0, 32):
            for d in (-2, -1, 0, 1, 2):
                v = (1 << e) + d
                if not 0 <= v <= INT_MAX: continue
                s = {10: str(v), 16: "%x" % v, 8: "%o" % v, 2: "{:b}".format(v)}[base]
                for z in ("", "0", "000000000000000000000000"): yield prefix + z + s, v
                if base == 16: yield prefix + s.upper(), v
    for e in range(0, 10):
        for m in (1, 2, 10, 21):
            if m * 10 ** e <= INT_MAX:
                for l in E_LETTERS:
                    for s in ("", "+"):
                        for z in ("", "00"): yield "%d%s%s%s%d" % (m, l, s, z, e), m * 10 ** e  # a positive exponent keeps an integer


def float_literals(n):
    wholes = ["", "0", "1", "7", "00", "10", "09", "123", "4503599627370497", "9007199254740993", "1" + "0" * 25, "123456789012345678901234567890"]
    parts = [""] + ["".join(t) for k in range(1, n) for t in itertools.product("0159", repeat=k)] + ["3", "33333333333333333333", "000000000000000000000001", "14159265358979323846"]
    exps = [""] + [l + s + e for l in E_LETTERS for s in ("", "+", "-") for e in ("0", "1", "05", "22", "30", "300", "308", "323", "400", "99999999999")]
    for w in wholes:
        for f in parts:
            for e in exps:
                if w or f: yield w + "." + f + e
        for e in exps:
            if w and e and (e[1] == "-" or len(w) > 18): yield w + e
    for e in range(31, 63):
        for d in (0, 1): yield str((1 << e) + d)
    for v in (1 << 60, (1 << 60) + 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 64, 10 ** 18 * 3, 10 ** 19, 10 ** 20 + 1, 12345678901234567890123):
        yield str(v)
    for i in range(-30, 31):
        for m in ("0.1", "0.2", "0.3", "1.1", "2.5", "9.99", "123.456", "0.7"): yield "%se%d" % (m, i)


def float_value(s):
    for l in "EеЕ": s = s.replace(l, "e")
    return float(s)


MALFORMED = [p + d for p, ds in (("0b", "23456789aF"), ("0B", "29"), ("0o", "89aF"), ("0O", "8"), ("", "aAbBcCdDfF")) for d in ([p2 + x + q for x in ds for p2 in ("", "0", "1", "01") for q in ("", "0", "1")] if p else ["1" + x for x in ds] + ["19" + x + "0" for x in ds])]
MALFORMED += ["0" + l for l in BASES] + ["1" + l + s for l in E_LETTERS for s in ("", "+", "-", "--1", "++1", "x")] + ["1.5" + l + s for l in E_LETTERS for s in ("", "+", "-", "x", ".5")]
MALFORMED += [p + s for p in ("1.2.3", "0x1.8", "0b1.1", "0d1.5", "1..2", ".e5", "0xg", "0o8", "0b2", "0d", "0x", "1_0") for s in ("",)]
MALFORMED = [m for m in MALFORMED if not re.fullmatch(r"0[dD]\d+", m)]

ESCAPES = {"'": "'", '"': '"', "\\": "\\", "n": "\n", "н": "\n", "t": "\t", "т": "\t", "0": "\0"}


# ------------------------------------------------------------------ batches
def compile_(src, target="-VM"):
    r = vlib.worker_ruc("rel").compile(src, (target, "-Wno"))
    return r


def printed(items, line, prelude=""):
    """compile `line(text)` for all items in one program, return what the program prints for each, or None"""
    src = prelude + "void main()\n{\n" + "\n".join("\t" + line % s for s in items) + "\n}\n"
    r = compile_(src)
    if not r.ok: return None
    v = vmlib.run(r.outs[0])
    if v.code != vmlib.OK: return None
    return v.out


def ints(items):
    bad = []
    def go(part):
        out = printed([t for t, _ in part], "printf(\"%%i \", %s);")
        if out == "".join("%d " % v for _, v in part): return
        if len(part) == 1: bad.append((part[0][0], "%s should be %d, is %s" % (*part[0], out))); return
        h = len(part) // 2
        go(part[:h])
        if len(bad) < 3: go(part[h:])
    go(items)
    return "integers", len(items), bad


def constants(data):
    """the floating constants of an image, in order"""
    _, tabs = image.parse(data)
    m, i, res = tabs[0], 0, []
    while i + 2 < len(m):
        if m[i] == 9456: res.append(struct.unpack("<d", struct.pack("<ii", m[i + 1], m[i + 2]))[0]); i += 3
        else: i += 1
    return res


def floats(items):
    bad = []
    def go(part):
        r = compile_("void f(float x) { }\nvoid main()\n{\n" + "\n".join("\tf(%s);" % t for t in part) + "\n}\n")
        want = [float_value(t) for t in part]
        got = constants(r.outs[0]) if r.ok else None
        if got == want: return
        if len(part) == 1: bad.append((part[0], "%s should be %r, is %s" % (part[0], want[0], got))); return
        h = len(part) // 2
        go(part[:h])
        if len(bad) < 3: go(part[h:])
    go(items)
    return "floating numbers", len(items), bad


def refused(items):
    bad = []
    for t in items:
        for ctx in ("void main() { printf(\"%%i\", %s); }\n", "int g = %s;\nvoid main() { }\n", "void f(float x) { } void main() { f(%s); }\n"):
            r = compile_(ctx % t)
            if r.code != 64: bad.append((ctx % t, "%s is not refused (%s)" % (t, r.describe()))); break
    return "malformed literals", 3 * len(items), bad


def chars(items):
    """items: (text between the quotes, code point)"""
    bad = []
    def go(part):
        out = printed([t for t, _ in part], "printf(\"%%i \", '%s');")
        if out == "".join("%d " % v for _, v in part): return
        if len(part) == 1: bad.append((part[0][0], "'%s' should be %d, is %s" % (*part[0], out))); return
        h = len(part) // 2
        go(part[:h])
        if len(bad) < 3: go(part[h:])
    go(items)
    return "characters", len(items), bad


def strs(items):
    """items: (source text of the expression, the string)"""
    bad = []
    def go(part):
        # the characters one by one, with the number of elements
        src = "void show(char s[]) { int i; for (i = 0; i < upb(0, s); i++) printf(\"%i \", s[i]); printf(\"\\n\"); }\nvoid main()\n{\n" \
            + "\n".join("\tshow(%s);" % t for t, _ in part) + "\n}\n"
        r = compile_(src)
        out = None
        if r.ok:
            v = vmlib.run(r.outs[0])
            out = v.out if v.code == vmlib.OK else v.describe()
        if out == "".join("".join("%d " % ord(x) for x in s) + "\n" for _, s in part): return
        if len(part) == 1: bad.append((part[0][0], "%s should be %r, gives %r" % (*part[0], out if out else r.text[:300]))); return
        h = len(part) // 2
        go(part[:h])
        if len(bad) < 3: go(part[h:])
    go(items)
    return "strings", len(items), bad


# ------------------------------------------------------------------ longest match
PUNCT = sorted("? [ ] ( ) { } ~ : ; , . * *= ! != % %= ^ ^= = == + += ++ | |= || & &= && - -= -- -> < <= << <<= > >= >> >>= / /=".split(), key=len, reverse=True)


def munch(s):
    res = []
    i = 0
    while i < len(s):
        for p in PUNCT:
            if s.startswith(p, i): break
        else: return None
        res.append(p)
        i += len(p)
    return res


def splits(items):
    """the glued and the spaced program get the same verdict and the same code"""
    ruc = vlib.worker_ruc("rel")
    reqs = []
    for pre, s, post in items:
        for body in (s, " ".join(munch(s))): reqs.append(([("t.c", pre + body + post)], ["-VM", "-Wno", "t.c", "-o", "o"], ["o"]))
    rs = ruc.run_batch(reqs, 5000)
    bad = []
    for k, (pre, s, post) in enumerate(items):
        a, b = rs[2 * k], rs[2 * k + 1]
        if a is None or b is None or (a.code, a.outs) != (b.code, b.outs):
            a, b = ruc.run(*reqs[2 * k]), ruc.run(*reqs[2 * k + 1])
            if (a.code, a.outs) != (b.code, b.outs): bad.append((pre + s + post, "%r is not split as %r: %s / %s" % (s, munch(s), a.describe(), b.describe())))
    ok = sum(1 for r in rs[::2] if r is not None and r.code == 0)
    return "operators (%s)" % "glued", 2 * len(items), bad, ok


def words(items):
    """identifiers that begin or end like a keyword or a number"""
    bad = []
    def go(part):
        src = "void main()\n{\n" + "\n".join("\tint %s = %d;" % (w, k) for k, w in enumerate(part)) + "\n" + "\n".join("\tprintf(\"%%i \", %s);" % w for w in part) + "\n}\n"
        r = compile_(src)
        out = vmlib.run(r.outs[0]).out if r.ok else None
        if out == "".join("%d " % k for k in range(len(part))): return
        if len(part) == 1: bad.append((part[0], "%s is not taken for one name: %s" % (part[0], r.text[:300] if not r.ok else out))); return
        h = len(part) // 2
        go(part[:h])
        if len(bad) < 3: go(part[h:])
    go(items)
    return "names", len(items), bad


def numbers_glued(items):
    """numbers next to operators and names: items (glued, spaced)"""
    ruc = vlib.worker_ruc("rel")
    pre, post = "struct S { int x; int e; int b; int d; } s; int a[9]; int x; int e; int b; int d; float f; void main() { f = ", "; }\n"
    bad = []
    reqs = [([("t.c", pre + s + post)], ["-VM", "-Wno", "t.c", "-o", "o"], ["o"]) for p in items for s in p]
    rs = ruc.run_batch(reqs, 5000)
    for k, (g, s) in enumerate(items):
        x, y = rs[2 * k], rs[2 * k + 1]
        if x is None or y is None or (x.code, x.outs) != (y.code, y.outs):
            x, y = ruc.run(*reqs[2 * k]), ruc.run(*reqs[2 * k + 1])
            if (x.code, x.outs) != (y.code, y.outs): bad.append((pre + g + post, "%r is not split as %r: %s / %s" % (g, s, x.describe(), y.describe())))
    return "numbers next to operators", 2 * len(items), bad


# ------------------------------------------------------------------ families
def chunked(fn, gen, size=PER):
    it = iter(gen)
    while True:
        part = list(itertools.islice(it, size))
        if not part: return
        yield fn, part


KEYWORDS = "auto bool break case char const continue default do double else enum extern false float for if int long NULL return sizeof static struct switch true typedef union void while abs main логический символ вещ цел пусто если иначе для пока выбор случай структура истина ложь возврат продолжить прервать константа перечисление умолчание главная ничто".split()


def names():
    seen = set()
    tails = ["x", "_", "1", "я", "X", "0", "__1"]
    for k in KEYWORDS:
        for t in tails:
            for w in (k + t, "x" + k, "_" + k, "я" + k, k[:-1] + "_" + k[-1]):
                if w not in seen: yield w
                seen.add(w)
    for k in range(1, 5 if T else 4):
        for t in itertools.product("aB_я1", repeat=k):
            w = "".join(t)
            if not w[0].isdigit() and w not in seen: yield w
            seen.add(w)


def glued():
    ops = [p for p in PUNCT if p not in ("(", ")", "[", "]", "{", "}", ";", "~", "!", "->", ".", "?", ":")]
    nums = ["1", "0", "0x1F", "0b101", "0o17", "0d19", "1.5", "1.", ".5", "1e2", "1e-2", "1.5e+2", "00", "1Е2"]
    for n in nums:
        for m in nums + ["a[1]", "s.x", "x", "b", "d"]:
            for p in ops:
                for q in ("", "-", "+", "~", "!"):
                    t = p + q
                    if munch(t) != [p] + [q] * bool(q): continue
                    if n[-1] in E_LETTERS: continue
                    if p in ("+", "-") and re.search("[eEеЕ]$", n): continue
                    if (m.startswith(".") and False): continue
                    if p == "/" and m.startswith("*"): continue
                    yield n + t + m, "%s %s %s %s" % (n, p, q, m)
        yield "a[%s]" % n, "a [ %s ]" % n
        yield "(%s)" % n, "( %s )" % n
        yield "x?%s:%s" % (n, n), "x ? %s : %s" % (n, n)


def code_points():
    top = 0x110000 if T else 0x20000
    for v in itertools.chain(range(0x20, top), range(0x10000 - 0x100, 0x10000 + 0x100), range(0x1F600, 0x1F650), range(0x10FFFF - 64, 0x110000)):
        if 0xD800 <= v < 0xE000 or v in (0x27, 0x5C, 0x7F): continue
        yield v


PLAIN = [("a", "a"), ("Я", "Я"), ("'", "'"), ("//", "//"), ("/*", "/*"), (" ", " "), ("%%", "%%"), ("😀", "😀"), ("#", "#"), ("1", "1")]


def strings_():
    units = PLAIN + [("\\" + k, v) for k, v in ESCAPES.items() if v != "\0"]
    for k in range(1, 4 if T else 3):
        for t in itertools.product(units, repeat=k): yield '"%s"' % "".join(x for x, _ in t), "".join(y for _, y in t)
    for a, b in itertools.product(units, repeat=2):
        for sep in ("", " ", "\t", " /* \" */ ", "\n\t", " // \"\n\t"): yield '"%s"%s"%s"' % (a[0], sep, b[0]), a[1] + b[1]
    for a, b, d in itertools.product(units[:6] + units[-4:], repeat=3): yield '"%s" "%s"\n"%s"' % (a[0], b[0], d[0]), a[1] + b[1] + d[1]
    for v in code_points():
        if v != 0x22: yield '"%c%c"' % (v, v), chr(v) * 2


MALFORMED_CHARS = ["''", "'ab'", "'a", "'\\'", "'\\q'", "'\\x41'", "'\\'a", "'\n'", "'aa", '"a', '"\\"', '"a\\q"', '"\\', '"a\n"', "'\\a'", '"\\a"', '"\\1"']


def jobs():
    yield from chunked(ints, integer_literals(5 if T else 4))
    yield from chunked(floats, float_literals(5 if T else 4))
    yield from chunked(refused, MALFORMED + MALFORMED_CHARS, 50)
    yield from chunked(chars, ((chr(v), v) for v in code_points()))
    yield from chunked(chars, [("\\" + k, ord(v)) for k, v in ESCAPES.items()])
    yield from chunked(strs, strings_())
    yield from chunked(words, names())
    yield from chunked(numbers_glued, glued(), 100)
    vars_ = "int a, b, d; int *p; struct S { int x; } s; struct S *q; void main() { a "
    for k in range(1, 5 if T else 4):
        yield from chunked(splits, ((vars_, "".join(t), " b; }\n") for t in itertools.product("+-*&|<>=!/%^~?:,.", repeat=k) if "//" not in "".join(t) and "/*" not in "".join(t)), 200)
    if not T: yield from chunked(splits, ((vars_, "".join(t), " b; }\n") for t in itertools.product("+-*&<>=!|", repeat=4)), 200)
    yield from chunked(splits, ((vars_ + "= d;", "".join(t) + "a" + "".join(u), " ; }\n") for t in itertools.product("+-*&!~(", repeat=2) for u in itertools.product("+-*=<>).", repeat=2) if munch("".join(t) + "a") is None and False), 200)


def work(job):
    fn, part = job
    return fn(part)


def main():
    vmlib.build()
    vlib.rucd("rel")
    seen, accepted = {}, 0
    only = sys.argv[1:]
    for res in vlib.pmap(work, (j for j in jobs() if not only or j[0].__name__ in only)):
        label, n, bad = res[:3]
        accepted += res[3] if len(res) > 3 else 0
        c.count(n, n, n)
        seen[label] = seen.get(label, 0) + n
        for text, what in bad: c.violation("[%s] %s" % (label, what), what + "\n" + text)
        if len(c.viol) > 40: break
    for l, n in seen.items(): c.note(l, n)
    c.note("glued operator sequences that are accepted", accepted)
    c.assumptions += ["integer literals beyond 2147483647 are looked at where a floating value is expected", "the virtual machine is the model in lib/vm.c"]
    sys.exit(c.finish())


if __name__ == "__main__": main()
