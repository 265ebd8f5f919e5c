#!/usr/bin/env python3
import glob, itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, pp

c = vlib.Check("C46")
T = c.thorough


# ---- reference lexer: comments are white space, literals are kept as written, a backslash before a line end joins lines
def lex(text):
    out, i, n = [], 0, len(text)
    while i < n:
        ch = text[i]
        if text.startswith("/*", i):
            j = text.find("*/", i + 2)
            if j < 0: raise pp.Err("unterminated comment")
            i = j + 2
        elif text.startswith("//", i):
            while i < n and not (text[i] == "\n" and text[i - 1] != "\\"): i += 1
        elif ch in "\"'":
            j = i + 1
            while True:
                if j >= n or text[j] == "\n": raise pp.Err("unterminated literal")
                if text[j] == ch: break
                j += 2 if text[j] == "\\" else 1
            out.append(text[i:j + 1].replace("\\\n", ""))
            i = j + 1
        elif text.startswith("\\\n", i): i += 2
        elif ch in " \t\n": i += 1
        else:
            m = pp.TOK.match(text, i)
            if m is None or m.group()[0] in "\"'" or m.group() == "##": out.append(ch); i += 1
            else: out.append(m.group()); i = m.end()
    return out


class Text(pp.Case):
    """a source text compared with the reference lexer"""
    __slots__ = ("text", "defs", "pre")

    def __init__(self, text, defs=None, tag="", eol="\n"):
        self.pre = "".join("#define %s %s\n" % d for d in (defs or {}).items())
        self.text, self.defs = text, defs or {}
        pp.Case.__init__(self, tag=tag)
        self.files = {"t.c": ((self.pre + text).replace("\n", eol)).split("\n")}
        self.ending = ""

    def want(self):
        try:
            ts = lex(self.text)
            if "\\" in ts: return ("any", None, [])     # never a token; it may become the last character of its line
            return ("ok", [self.defs.get(t, t) for t in ts], [])
        except pp.Err as e: return ("error", str(e), [])

    def got(self, out):
        return lex("\n".join(l for l in out.split("\n") if not l.startswith("#line")))


def texts(alpha, n):
    for k in range(n + 1): yield from itertools.product(alpha, repeat=k)


CHARS = ["a", "/", "*", "\"", "'", "\\", "\n", " ", "я"]
ATOMS = ["a", "/*", "*/", "//", "\"", "\\\"", "'", "\\'", "\\\n", "\n", " ", "5", "."]
END = "\ny \"a\" a\n"


def cases(t):
    s = "".join(t)
    if s.lstrip(" ").startswith("#"): return None
    return [Text("x\n" + s + END, tag="text"), Text(s, tag="whole file"), Text("x\n" + s + END, {"a": "7"}, tag="with a macro"), Text("x\n" + s + END, tag="carriage returns", eol="\r\n")]


def unicode(start):
    """256 characters of every plane in text, literals and comments"""
    cs = [chr(k) for k in range(start, start + 256) if not 0xD800 <= k < 0xE000 and k >= 0x80]
    if not cs: return None
    t = lambda p, q: "\n".join(p + ch + q for ch in cs)
    return [Text("x\n" + t("", "") + END, tag="characters"), Text(t("a", "a") + END, tag="characters between letters"), Text(t("\"", "\" 'x" ) .replace("'x", "x") + END, tag="characters in strings"),
            Text(t("'", "'") + END, tag="characters as constants"), Text(t("/* ", " */ b") + END, tag="characters in comments"), Text(t("// ", "\nb") + END, tag="characters in comments")]


pp.explore(c, texts(CHARS, 6 if T else 4), cases, label="all texts of characters", size=200)
pp.explore(c, texts(ATOMS, 5 if T else 4), cases, label="all texts of atoms", size=200)
pp.explore(c, range(0, 0x110000 if T else 0x30000, 256), unicode, label="every character", size=16)
c.assumptions += ["a character set of %d characters and %d atoms for the texts" % (len(CHARS), len(ATOMS))]
sys.exit(c.finish())
