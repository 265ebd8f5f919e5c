"""Reference preprocessor (written from docs/Language.md, section 12) and the comparison of `ruc -E` with it.

A program is {file name: list of lines}.  Reference(files, dirs).run(main) gives the token list the text becomes, or
raises Err when it must be refused.  Only tokens are compared: white space and line marks are not."""
import os, re, sys, time
import vlib

sys.setrecursionlimit(20000)

LET = "A-Za-z_а-яА-ЯёЁ"
TOK = re.compile(r"[%s][%s0-9]*|\.?[0-9][%s0-9.]*|\"(?:\\.|[^\"\\\n])*\"|'(?:\\.|[^'\\\n])*'|##|\S" % (LET, LET, LET), re.S)
ID = re.compile(r"[%s][%s0-9]*\Z" % (LET, LET))
COMMENT = re.compile(r"\"(?:\\.|[^\"\\\n])*\"|'(?:\\.|[^'\\\n])*'|/\*.*?\*/|//(?:\\\n|[^\n])*", re.S)


class Err(Exception):
    pass


class Unspecified(Exception):
    pass


def strip_comments(text):
    return COMMENT.sub(lambda m: m.group() if m.group()[0] in "\"'" else " " + "\n" * m.group().count("\n"), text)


def toks(text):
    """(token, preceded by white space)"""
    out, at = [], 0
    for m in TOK.finditer(text):
        out.append((m.group(), m.start() > at))
        at = m.end()
    return out


def words(text):
    return [t for t, _ in toks(text)]


def text_of(ts):
    return "".join((" " if sp else "") + t for t, sp in ts)


def is_id(t):
    return ID.match(t) is not None


# ---------------------------------------------------------------- directive names

NAMES = {"include": ("include", "подключить"), "line": ("line", "строка"), "define": ("define", "определить"), "set": ("set", "переопределить"),
         "undef": ("undef", "разопределить"), "macro": ("macro", "макро"), "endm": ("endm", "конецм"), "ifdef": ("ifdef", "еслибыл"),
         "ifndef": ("ifndef", "еслинебыл"), "if": ("if", "если"), "elif": ("elif", "инесли"), "else": ("else", "иначе"),
         "endif": ("endif", "конецесли"), "eval": ("eval", "вычислить"), "while": ("while", "пока"), "endw": ("endw", "конецп")}
SPELL = {s: k for k, v in NAMES.items() for w in v for s in (w, w.upper())}
DIR = re.compile(r"\s*#\s*([%s]+)(.*)\Z" % LET, re.S)


def directive(line):
    m = DIR.match(line)
    if m is None: return ("?", "") if line.strip().startswith("#") else None
    return SPELL.get(m.group(1), "?"), m.group(2)


# ---------------------------------------------------------------- directive tree

class Text:
    def __init__(self, line): self.line = line


class Dir:
    def __init__(self, name, rest): self.name, self.rest = name, rest


class If:
    def __init__(self): self.arms = []      # (kind, condition, body)


class While:
    def __init__(self, cond): self.cond, self.body = cond, []


class Macro:
    def __init__(self, head): self.head, self.body = head, []


def tree(lines):
    root = []
    stack = [(None, root)]
    for ln in lines:
        d = directive(ln)
        body = stack[-1][1]
        if d is None:
            body.append(Text(ln))
            continue
        name, rest = d
        if name in ("if", "ifdef", "ifndef"):
            n = If(); n.arms.append((name, rest, [])); body.append(n); stack.append((n, n.arms[0][2]))
        elif name in ("elif", "else", "endif"):
            n = stack[-1][0]
            if not isinstance(n, If): raise Err("#%s without #if" % name)
            if n.arms[-1][0] == "else" and name != "endif": raise Err("#%s after #else" % name)
            stack.pop()
            if name != "endif":
                n.arms.append((name, rest, [])); stack.append((n, n.arms[-1][2]))
        elif name == "while":
            n = While(rest); body.append(n); stack.append((n, n.body))
        elif name == "endw":
            if not isinstance(stack[-1][0], While): raise Err("#endw without #while")
            stack.pop()
        elif name == "macro":
            n = Macro(rest); body.append(n); stack.append((n, n.body))
        elif name == "endm":
            if not isinstance(stack[-1][0], Macro): raise Err("#endm without #macro")
            stack.pop()
        else: body.append(Dir(name, rest))
    if len(stack) > 1: raise Err("unterminated block")
    return root


# ---------------------------------------------------------------- expressions: 64-bit two's complement

PREC = {"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "<": 7, ">": 7, "<=": 7, ">=": 7, "==": 6, "!=": 6, "&": 5, "^": 4, "|": 3, "&&": 2, "||": 1}
ETOK = re.compile(r"\s*(?:(\+\+|--|<<=|>>=|[-+*/%%&|^]=|=(?!=))|(0[xX][0-9a-fA-F]+|0[bB][01]+|0[oO][0-7]+|0[dD][0-9]+|[0-9]+)((?:[uU](?:ll|LL|[lL])?|(?:ll|LL|[lL])[uU]?)?)(?![%s0-9.])|([%s][%s0-9]*)|'(\\?.)[^']*'|(<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%%~!<>&^|()]))" % (LET, LET, LET))
BAD = None      # the value of a division by zero


def wrap(v):
    """values that do not fit in 64 bits are not specified"""
    if not -(1 << 63) <= v < 1 << 63: raise Unspecified()
    return v


def literal(s):
    base = {"x": 16, "b": 2, "o": 8, "d": 10}.get(s[1:2].lower(), 10)
    v = int(s[2:] if len(s) > 1 and s[1] in "xXbBoOdD" else s, base)
    if v >= 1 << 64 or base == 10 and v >= 1 << 63: raise Unspecified()
    return v - (1 << 64) if v >> 63 else v


def evaluate(text):
    items, at = [], 0
    text = text.rstrip()
    while at < len(text):
        m = ETOK.match(text, at)
        if m is None or m.group(1): raise Err("token in expression")
        if m.group(2): items.append(literal(m.group(2)))
        elif m.group(4): items.append(0)
        elif m.group(5):
            if len(m.group(5)) > 1: raise Unspecified()     # escapes
            items.append(ord(m.group(5)))
        else: items.append(m.group(6))
        at = m.end()
    if not items: raise Err("no expression")
    pos = 0

    def primary():
        nonlocal pos
        if pos >= len(items): raise Err("operand expected")
        t = items[pos]; pos += 1
        if isinstance(t, int): return t
        if t in ("-", "+", "~", "!"):
            v = primary()
            if v is BAD: return v
            return wrap(-v) if t == "-" else v if t == "+" else ~v if t == "~" else int(v == 0)
        if t == "(":
            v = binary(1)
            if pos >= len(items) or items[pos] != ")": raise Err("bracket")
            pos += 1
            return v
        raise Err("operand expected")

    def binary(level):
        nonlocal pos
        a = primary()
        while pos < len(items) and items[pos] in PREC and PREC[items[pos]] >= level:
            op = items[pos]; pos += 1
            b = binary(PREC[op] + 1)
            a = apply(op, a, b)
        return a
    unspecified = False
    try: v = binary(1)
    except Unspecified:
        # the value is not specified, but a malformed expression still has to be refused
        v, unspecified = None, True
    if unspecified:
        if wellformed(items): raise Unspecified()
        raise Err("malformed")
    if pos != len(items): raise Err("operator expected")
    if v is BAD: raise Err("division by zero")
    return v


def wellformed(items):
    """whether the tokens are an expression"""
    want, level = True, 0
    for t in items:
        if want:
            if isinstance(t, int): want = False
            elif t == "(": level += 1
            elif t not in ("-", "+", "~", "!"): return False
        elif t == ")":
            level -= 1
            if level < 0: return False
        elif t in PREC: want = True
        else: return False
    return not want and level == 0


def apply(op, a, b):
    if op in ("&&", "||") and b is BAD and a is not BAD and bool(a) == (op == "||"): raise Unspecified()   # whether the right operand counts
    if a is BAD or b is BAD or op in "/%" and b == 0: return BAD
    if op == "*": return wrap(a * b)
    if op == "/": return wrap(abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1))
    if op == "%": return a - b * (abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1))
    if op == "+": return wrap(a + b)
    if op == "-": return wrap(a - b)
    if op in ("<<", ">>") and not 0 <= b < 64 or op == "<<" and a < 0: raise Unspecified()
    if op == "<<": return wrap(a << b)
    if op == ">>": return a >> b
    if op == "&": return a & b
    if op == "|": return a | b
    if op == "^": return a ^ b
    return int({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b, "&&": bool(a and b), "||": bool(a or b)}[op])


# ---------------------------------------------------------------- the preprocessor

class Def:
    def __init__(self, params, body, lines=None): self.params, self.body, self.lines = params, body, lines


class Reference:
    LOOP = 32768

    def __init__(self, files, dirs=()):
        self.files = {os.path.normpath(k): v for k, v in files.items()}
        self.dirs, self.defs, self.out, self.warnings = dirs, {}, [], []
        self.included, self.depth, self.inc = set(), 0, 0

    def run(self, *mains):
        for m in mains: self.file(os.path.normpath(m))
        return self.out

    def file(self, name):
        self.included.add(name)
        text = strip_comments("\n".join(self.files[name]))
        if any(m[0] in "\"'" and "\\\n" in m for m in COMMENT.findall(text)): raise Unspecified()   # literals continued on the next line
        text = text.replace("\\\n", " ")
        here, self.here = getattr(self, "here", None), name
        self.exec(tree(text.split("\n")))
        self.here = here

    # -- directives
    def exec(self, nodes):
        i = 0
        while i < len(nodes):
            n = nodes[i]
            if isinstance(n, Text):
                run = []
                while i < len(nodes) and isinstance(nodes[i], Text):
                    run.append(nodes[i].line); i += 1
                ts = toks("\n".join(run))
                if any(t in ("'", "\"", "#", "##") for t, _ in ts): raise Err("stray character")
                self.out += [t for t, _ in self.expand(ts)]
                continue
            i += 1
            if isinstance(n, If):
                for kind, cond, body in n.arms:
                    if kind == "else": c = True
                    elif kind in ("ifdef", "ifndef"):
                        w = words(cond)
                        if not w or not is_id(w[0]): raise Err("name expected")
                        c = (w[0] in self.defs) == (kind == "ifdef")
                    else: c = self.value(cond) != 0
                    if c:
                        self.exec(body)
                        break
            elif isinstance(n, While):
                k = 0
                while self.value(n.cond) != 0:
                    k += 1
                    if k > self.LOOP: raise Err("too many passes")
                    self.exec(n.body)
            elif isinstance(n, Macro):
                name, params, rest = self.head(n.head)
                if name in self.defs: self.warnings.append("redefine")
                if rest: self.warnings.append("extra")
                if includes(n.body): raise Err("#include in #macro")
                self.defs[name] = Def(params, None, n.body)
            else: getattr(self, "d_" + n.name, self.d_unknown)(n.rest)

    def d_unknown(self, rest): raise Err("unknown directive")

    def d_line(self, rest): self.warnings.append("line")

    def d_eval(self, rest): self.out += words(str(self.value(rest)))

    def d_undef(self, rest):
        w = words(rest)
        if not w or not is_id(w[0]): raise Err("name expected")
        if len(w) > 1: self.warnings.append("extra")
        self.defs.pop(w[0], None)

    def head(self, rest):
        ts = toks(rest)
        if not ts or not is_id(ts[0][0]): raise Err("name expected")
        name = ts[0][0]
        params, k = [], 1
        if len(ts) > 1 and ts[1] == ("(", False):
            k = 2
            while True:
                if k >= len(ts): raise Err("bracket expected")
                if ts[k][0] == ")": break
                if not is_id(ts[k][0]) or ts[k][0] in params: raise Err("parameter")
                params.append(ts[k][0]); k += 1
                if k >= len(ts): raise Err("bracket expected")
                if ts[k][0] == ",":
                    k += 1
                    if k < len(ts) and ts[k][0] == ")": raise Unspecified()
                elif ts[k][0] != ")": raise Err("comma expected")
            k += 1
        return name, params, ts[k:]

    def define(self, rest, is_set):
        name, params, body = self.head(rest)
        if (name in self.defs) != is_set: self.warnings.append("undefined" if is_set else "redefine")
        if any(t in ("'", "\"") for t, _ in body): raise Err("quote")
        if body and body[0][0] == "##": raise Err("## first")
        if body and body[-1][0] == "##": raise Err("## last")
        res, k = [], 0
        while k < len(body):
            t = body[k][0]
            if t == "##":
                if body[k + 1][0] not in params: raise Err("## before no parameter")
                res.append(("##", False)); k += 1
                continue
            if t == "#":
                nx = body[k + 1][0] if k + 1 < len(body) else ""
                if nx in params:
                    res.append(("#" + nx, body[k][1])); k += 2
                    continue
                if SPELL.get(nx) == "eval":
                    res.append((str(self.value(text_of(body[k + 2:]))), body[k][1]))
                    break
                raise Err("# before no parameter")
            res.append(body[k]); k += 1
        self.defs[name] = Def(params, res)

    def d_define(self, rest): self.define(rest, False)

    def d_set(self, rest): self.define(rest, True)

    def d_include(self, rest):
        m = re.match(r"\s*(?:\"([^\"]*)\"|<([^>]*)>)", rest)
        if not m: raise Err("file name expected")
        name = m.group(1) or m.group(2) or ""
        here = os.path.join(os.path.dirname(self.here), name)
        dirs = [os.path.join(d, name) for d in self.dirs]
        for cand in ([here] + dirs if m.group(1) else dirs + [here]):
            cand = os.path.normpath(cand)
            if cand in self.files: break
        else: raise Err("no such file")
        if self.inc >= 32: raise Err("include depth")
        if cand in self.included: return
        self.inc += 1
        self.file(cand)
        self.inc -= 1

    def value(self, text):
        ts = self.expand(toks(text))
        return evaluate(text_of([(t, True) if is_id(t) or t[0].isdigit() else (t, sp) for t, sp in ts]))

    # -- substitution
    def expand(self, ts):
        out, i, apart = [], 0, False
        while i < len(ts):
            t, sp = ts[i]; i += 1
            d = self.defs.get(t)
            if d is None:
                out.append((t, sp or apart))
                apart = False
                continue
            apart = True
            if self.depth > 256: raise Err("call depth")
            self.depth += 1
            if not d.params:
                if [x for x, _ in ts[i:i + 2]] == ["(", ")"]: i += 2
                if d.lines is None: got = self.expand(d.body)
                else: got = self.block(d.lines)
            else:
                if i >= len(ts) or ts[i][0] != "(": raise Err("arguments expected")
                i += 1
                args, level = [[]], 0
                while True:
                    if i >= len(ts): raise Err("unterminated arguments")
                    x = ts[i]; i += 1
                    if x[0] == ")" and level == 0: break
                    if x[0] == "," and level == 0: args.append([])
                    else:
                        level += (x[0] == "(") - (x[0] == ")")
                        args[-1].append(x)
                if len(args) != len(d.params): raise Err("number of arguments")
                got = self.call(d, args)
            self.depth -= 1
            out += [(got[0][0], True)] + got[1:] if got else []
        return out

    def call(self, d, args):
        raw = {p: text_of([(a[0][0], False)] + a[1:] if a else []) for p, a in zip(d.params, args)}
        exp = {p: text_of(self.expand(a)) for p, a in zip(d.params, args)}
        if d.lines is not None:
            return self.block(subst_nodes(d.lines, raw, exp))
        s, n = "", len(d.body)
        glue = False
        for k, (t, sp) in enumerate(d.body):
            if t == "##":
                glue = True
                continue
            if t[0] == "#" and len(t) > 1: piece = '"' + stringise(raw[t[1:]]) + '"'
            elif t in raw: piece = raw[t] if glue or (k + 1 < n and d.body[k + 1][0] == "##") else exp[t]
            else: piece = t
            s += ("" if glue else " ") + piece
            glue = False
        return self.expand(toks(s))

    def block(self, nodes):
        out, self.out = self.out, []
        self.exec(nodes)
        res, self.out = self.out, out
        return [(t, True) for t in res]


def stringise(raw):
    def lit(m):
        s = m.group()
        return s.replace("\\", "\\\\").replace('"', '\\"') if s[0] in "\"'" else s
    return re.sub(r"\"(?:\\.|[^\"\\])*\"|'(?:\\.|[^'\\])*'|.", lit, raw, flags=re.S)


def includes(nodes):
    for n in nodes:
        if isinstance(n, Dir) and n.name == "include": return True
        if isinstance(n, If) and any(includes(b) for _, _, b in n.arms): return True
        if isinstance(n, (While, Macro)) and includes(n.body): return True
    return False


def subst_nodes(nodes, raw, exp):
    def sub(text, which=exp):
        return "".join((" " if sp else "") + (which[t] if t in which else t) for t, sp in toks(text))
    out = []
    for n in nodes:
        if isinstance(n, Text): out.append(Text(sub(n.line)))
        elif isinstance(n, Dir): out.append(Dir(n.name, " " + sub(n.rest)))
        elif isinstance(n, While):
            w = While(" " + sub(n.cond)); w.body = subst_nodes(n.body, raw, exp); out.append(w)
        elif isinstance(n, If):
            f = If(); f.arms = [(k, " " + sub(c, raw if "def" in k else exp), subst_nodes(b, raw, exp)) for k, c, b in n.arms]; out.append(f)
        else:
            m = Macro(" " + sub(n.head)); m.body = subst_nodes(n.body, raw, exp); out.append(m)
    return out


# ---------------------------------------------------------------- the implementation

def observed(text):
    return words(strip_comments("\n".join(l for l in text.split("\n") if not l.startswith("#line")).replace("\\\n", " ")))


class Case:
    """files: {name: [lines]}; mains: inputs in order; dirs: -I directories; want: 'tokens' or 'verdict'"""
    __slots__ = ("files", "mains", "dirs", "tag", "warn", "flags", "ending")

    def __init__(self, lines=None, files=None, mains=("t.c",), dirs=(), tag="", warn=False, flags=(), ending="\n"):
        self.flags, self.ending = tuple(flags), ending
        self.files = dict(files or {})
        if lines is not None: self.files["t.c"] = lines
        self.mains, self.dirs, self.tag, self.warn = mains, dirs, tag, warn

    def show(self):
        s = "".join("==> %s\n%s\n" % (n, "\n".join(l)) for n, l in self.files.items())
        return s + "ruc -E %s %s -o o\n" % (" ".join(["-I" + d for d in self.dirs] + list(self.flags)), " ".join(self.mains))


def expected(case):
    if hasattr(case, "want"): return case.want()
    r = Reference(case.files, case.dirs)
    for f in case.flags:
        name, _, val = f[2:].partition("=")
        r.defs[name] = Def([], toks(val))
    try: return ("ok", r.run(*case.mains), r.warnings)
    except Err as e: return ("error", str(e), [])
    except Unspecified: return ("any", None, [])


WARN = {"redefine": "переопределение", "undefined": "неопредел"}


def request(case):
    files = [(n, "\n".join(l) + (case.ending if l else "")) for n, l in case.files.items()]
    return files, ["-E"] + ["-I" + d for d in case.dirs] + list(case.flags) + list(case.mains) + ["-o", "o"], ["o"]


def actual(case):
    ruc = vlib.worker_ruc("rel")
    r = ruc.run(*request(case), 5000)
    if r.timeout: r = ruc.run(*request(case), 60000)
    return r


def judge(case, exp, r):
    """None or what is wrong"""
    if r.code not in (0, 64): return "%s instead of a verdict" % r.describe()
    if exp[0] == "any": return None
    if exp[0] == "error":
        if r.code != 64: return "accepted, but %s" % exp[1]
        return None if "ошибка" in r.text else "refused without a message"
    if r.code != 0: return "refused: " + " / ".join(x for x in re.sub(r"\x1b\[[0-9;]*m", "", r.text).split("\n") if "ошибка" in x)[:200]
    if r.outs[0] is None: return "no output"
    out = r.outs[0].decode("utf-8", "replace")
    got, want = (case.got(out), exp[1]) if hasattr(case, "got") else (observed(out), words(" ".join(exp[1])))
    if got != want: return "text becomes %s instead of %s" % (" ".join(got)[:200], " ".join(want)[:200])
    if case.warn:
        n = r.text.count("предупреждение")
        if n != len(exp[2]): return "%d warnings instead of %d (%s)" % (n, len(exp[2]), ", ".join(exp[2]))
    return None


_make = None


def _run(batch):
    """(cases, refused cases, distinct results, failures)"""
    cases = []
    for x in batch:
        got = _make(x) if _make else x
        cases += got if isinstance(got, list) else [got] if got is not None else []
    out, refused, seen = [], 0, set()
    for c, r in zip(cases, vlib.worker_ruc("rel").run_batch([request(c) for c in cases], 5000)):
        exp = expected(c)
        refused += exp[0] == "error"
        seen.add(hash((exp[0], tuple(exp[1]) if exp[0] == "ok" else None)))
        if r is None or judge(c, exp, r):
            r = actual(c)
            bad = judge(c, exp, r) and judge(c, exp, actual(c))
            if bad: out.append((c.tag + ": " + bad, c.show()))
        if len(out) > 20: break
    return len(cases), refused, seen, out


def explore(chk, seeds, make=None, size=100, label="", max_fails=30):
    global _make
    _make = make
    vlib.rucd("rel")     # built before the workers start
    total, refused, fails, results, t0 = 0, 0, 0, set(), time.time()
    for n, rf, seen, bad in vlib.pmap(_run, vlib.chunks(seeds, size)):
        total += n
        refused += rf
        results |= seen
        chk.count(n, n, n)
        for what, replay in bad:
            fails += 1
            if fails <= max_fails: chk.violation("[%s] %s" % (label, what), replay, key=replay)
        if fails > max_fails: break
    chk.note("cases: " + label, {"programs": total, "to be refused": refused, "distinct results": len(results), "seconds": round(time.time() - t0, 1)})
    return total
