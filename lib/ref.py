"""Reference semantics of RuC expressions, with generators of well-typed source text.

An expression is an object with its type, precedence, source text and a function that
evaluates it in an environment. Types: i (int), c (char), b (bool), f (float).
Undefined outcomes (division by zero, shifts out of range, conversions out of range)
raise Undef, and the generators drop that input."""
import math, struct

INT_MIN, INT_MAX = -(1 << 31), (1 << 31) - 1


class Undef(Exception):
    pass


def w32(v):
    v &= 0xFFFFFFFF
    return v - (1 << 32) if v & 0x80000000 else v


def no_overflow(v):
    """Signed overflow is wrapped by the virtual machine but left open by the language: drop it."""
    if v < INT_MIN or v > INT_MAX:
        raise Undef()
    return v


class Env(dict):
    """Variable values plus the trace of actions."""
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.trace = []


class E:
    __slots__ = ("t", "prec", "s", "ev", "lit")

    def __init__(self, t, prec, s, ev, lit=False):
        self.t, self.prec, self.s, self.ev, self.lit = t, prec, s, ev, lit

    def __repr__(self):
        return self.s


PREC = {",": 1, "=": 2, "?": 3, "||": 4, "&&": 5, "|": 6, "^": 7, "&": 8, "==": 9, "!=": 9, "<": 10, ">": 10, "<=": 10
        , ">=": 10, "<<": 11, ">>": 11, "+": 12, "-": 12, "*": 13, "/": 13, "%": 13}
UN, POST, PRIM = 14, 15, 16


def par(e, p):
    return e.s if e.prec >= p else "(" + e.s + ")"


def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def arith(op, a, b, t):
    if t == "f":
        if op == "+": r = a + b
        elif op == "-": r = a - b
        elif op == "*": r = a * b
        else:
            if b == 0: raise Undef()
            r = a / b
        if math.isinf(r) or math.isnan(r): raise Undef()
        return r
    if op == "+": return no_overflow(a + b)
    if op == "-": return no_overflow(a - b)
    if op == "*": return no_overflow(a * b)
    if op == "/":
        if b == 0: raise Undef()
        return no_overflow(cdiv(a, b))
    if op == "%":
        if b == 0: raise Undef()
        if a == INT_MIN and b == -1: raise Undef()
        return a - b * cdiv(a, b)
    if op == "<<":
        if b < 0 or b > 31 or a < 0: raise Undef()
        return no_overflow(a << b)
    if op == ">>":
        if b < 0 or b > 31: raise Undef()
        return a >> b
    if op == "&": return w32(a & b)
    if op == "|": return w32(a | b)
    if op == "^": return w32(a ^ b)
    raise AssertionError(op)


def isint(t):
    return t in "ic"


def isarith(t):
    return t in "icf"


def result_type(op, l, r):
    """The type of l op r, or None when the language refuses it."""
    if op in ("%", "<<", ">>", "&", "|", "^"):
        return "i" if isint(l) and isint(r) else None
    if op in ("+", "-", "*", "/"):
        if not (isarith(l) and isarith(r)): return None
        return "f" if "f" in (l, r) else "i"
    if op in ("<", ">", "<=", ">="):
        return "b" if isarith(l) and isarith(r) else None
    if op in ("==", "!="):
        return "b" if (isarith(l) and isarith(r)) or l == r else None
    if op in ("&&", "||"):
        return "b" if l != "f" and r != "f" else None
    if op == ",":
        return r
    raise AssertionError(op)


def bi(op, l, r, spaces=" "):
    t = result_type(op, l.t, r.t)
    if t is None:
        return None
    p = PREC[op]
    s = par(l, p) + spaces + op + spaces + par(r, p + 1)
    if op == ",":
        s = par(l, p) + ", " + par(r, p + 1)
    le, re = l.ev, r.ev
    if op == "&&":
        ev = lambda v: 1 if le(v) and re(v) else 0
    elif op == "||":
        ev = lambda v: 1 if le(v) or re(v) else 0
    elif op == ",":
        def ev(v):
            le(v)
            return re(v)
    elif op in ("==", "!=", "<", ">", "<=", ">="):
        f = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, ">": lambda a, b: a > b
             , "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b}[op]
        ev = lambda v: 1 if f(le(v), re(v)) else 0
    elif t == "f":
        ev = lambda v: arith(op, float(le(v)), float(re(v)), "f")
    else:
        ev = lambda v: arith(op, le(v), re(v), "i")
    return E(t, p, s, ev)


def un(op, e):
    x = e.ev
    if op == "-":
        if not isarith(e.t): return None
        s = "-" + par(e, UN)
        if s.startswith("--"): s = "- " + s[1:]
        return E("f" if e.t == "f" else e.t, UN, s, (lambda v: -x(v)) if e.t == "f" else (lambda v: no_overflow(-x(v))))
    if op == "~":
        return E("i", UN, "~" + par(e, UN), lambda v: ~x(v)) if isint(e.t) else None
    if op == "!":
        return E("b", UN, "!" + par(e, UN), lambda v: 0 if x(v) else 1) if e.t != "f" else None
    if op == "abs":
        if not isarith(e.t): return None
        return E(e.t, UN, "abs " + par(e, UN) if e.prec < PRIM else "abs(" + e.s + ")"
                 , (lambda v: abs(x(v))) if e.t == "f" else (lambda v: no_overflow(abs(x(v)))))
    raise AssertionError(op)


def cond(c, a, b):
    if c.t == "f": return None
    if isarith(a.t) and isarith(b.t):
        t = "f" if "f" in (a.t, b.t) else "i"
    elif a.t == b.t:
        t = a.t
    else:
        return None
    cv, av, bv = c.ev, a.ev, b.ev
    f = (lambda x: float(x)) if t == "f" else (lambda x: x)
    return E(t, 3, par(c, 4) + " ? " + par(a, 2) + " : " + par(b, 3), lambda v: f(av(v)) if cv(v) else f(bv(v)))


def var(name, t, text=None):
    return E(t, PRIM if text is None or text.replace("_", "a").isalnum() else POST, text or name, lambda v: v[name])


def lit(v, t):
    if t == "f":
        s = repr(float(v))
        return E("f", PRIM if v >= 0 else UN, s, lambda _: float(v), True)
    if t == "b":
        return E("b", PRIM, "true" if v else "false", lambda _: v, True)
    if t == "c":
        return E("c", PRIM, "'%s'" % chr(v), lambda _: v, True)
    if v == INT_MIN:
        return E("i", 12, "-2147483647 - 1", lambda _: v, True)
    return E("i", PRIM if v >= 0 else UN, str(v), lambda _: v, True)


def assignable(t, src):
    return (t == "f" and isarith(src)) or (isint(t) and isint(src)) or t == src


def asg(op, lv, e):
    """lv: a variable expression (its .s is the lvalue text, its name is lv.name)."""
    if op == "=":
        if not assignable(lv.t, e.t): return None
    else:
        o = op[:-1]
        if o in ("%", "<<", ">>", "&", "|", "^"):
            if not (isint(lv.t) and isint(e.t)): return None
        elif not (isarith(lv.t) and isarith(e.t)) or not assignable(lv.t, e.t):
            return None
    name = lv.name
    x, t = e.ev, lv.t
    o = op[:-1]

    def ev(v):
        r = x(v)
        if t == "f": r = float(r)
        if o: r = arith(o, v[name], r, t)
        v[name] = r
        return r
    return E(t, 2, lv.s + " " + op + " " + par(e, 2), ev)


class LV(E):
    __slots__ = ("name",)

    def __init__(self, name, t, text=None):
        s = text or name
        simple = s.replace("_", "a").isalnum()
        prec = PRIM if simple else UN if s[0] == "*" else POST
        super().__init__(t, prec, s, lambda v: v[name])
        self.name = name


def inc(op, lv, post):
    if not isarith(lv.t): return None
    d = 1 if op == "++" else -1
    name, t = lv.name, lv.t

    def ev(v):
        old = v[name]
        new = old + d if t == "f" else no_overflow(old + d)
        v[name] = new
        return old if post else new
    s = par(lv, POST) + op if post else op + par(lv, UN)
    return E(t, POST if post else UN, s, ev)


def fmt(t, v):
    """What printing a value of this type gives."""
    if t == "f": return "%f" % v
    if t == "c": return str(v)
    return str(v)


def directive(t):
    return "%f" if t == "f" else "%i"


def shown(e):
    """Text of a printf argument for an expression of any type: Booleans are not integers."""
    return par(e, 4) + " ? 1 : 0" if e.t == "b" else par(e, 2)


TNAME = {"i": "int", "c": "char", "b": "bool", "f": "float"}
