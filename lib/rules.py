"""Typing rules of expressions, written from docs/Language.md (chapters 4, 5, 7).

Types: "bool" "char" "int" "float" "void" "null" "enum E" "struct S" or tuples ("ptr", T), ("arr", T), ("fn", R, (P...)), ("const", T).
An expression is X(text, type, lvalue, lit) or None when it must be refused, UNKNOWN when the documentation leaves it open."""
from collections import namedtuple

X = namedtuple("X", "text type lv lit")      # lit: a literal (or folded) constant
UNKNOWN = "unknown"

STRUCTS = {"S": (("x", "int"), ("f", "float"), ("a", ("arr", "int")), ("q", ("ptr", "int"))), "P": (("x", "int"),), "K": (("x", ("const", "int")), ("q", ("const", ("ptr", "int"))), ("f", "float"))}


def unq(t): return t[1] if isinstance(t, tuple) and t[0] == "const" else t
def const(t): return isinstance(t, tuple) and t[0] == "const"
def mkconst(t): return t if const(t) else ("const", t)
def is_enum(t): return isinstance(unq(t), str) and unq(t).startswith("enum")
def is_struct(t): return isinstance(unq(t), str) and unq(t).startswith("struct")
def is_int(t): return unq(t) in ("int", "char") or is_enum(t)
def is_float(t): return unq(t) == "float"
def is_arith(t): return is_int(t) or is_float(t)
def is_ptr(t): return isinstance(unq(t), tuple) and unq(t)[0] == "ptr"
def is_arr(t): return isinstance(unq(t), tuple) and unq(t)[0] == "arr"
def is_fn(t): return isinstance(t, tuple) and t[0] == "fn"
def is_scalar(t): return unq(t) == "bool" or is_int(t) or is_ptr(t) or t == "null"


def assignable(to, t):
    """may a value of type t be stored in an object of type to (whose own const does not matter)? """
    a, b = unq(to), unq(t)
    if a == b: return b != "void"
    if a == "float" and is_int(b): return True
    if a in ("int", "char") and is_int(b): return True
    if is_enum(a) and is_int(b): return UNKNOWN
    if is_ptr(a) and b == "null": return True
    if is_ptr(a) and is_ptr(b):
        x, y = a[1], b[1]
        return const(x) and not const(y) and unq(x) == y
    return False


def unary(op, e):
    t = e.type
    if op in ("++_", "--_", "_++", "_--"):
        if not e.lv or not is_arith(t) or const(t): return None
        return X(op.replace("_", "(" + e.text + ")"), t, False, False)
    text = op.replace("_", "(" + e.text + ")")
    if op == "&_":
        if is_fn(t): return UNKNOWN
        return X(text, ("ptr", t), False, False) if e.lv else None
    if op == "*_":
        if not is_ptr(t): return None
        return X(text, unq(t)[1], True, False)
    if op in ("-_", "abs _"): return X(text, t, False, e.lit) if is_arith(t) else None
    if op == "~_": return X(text, "int", False, e.lit) if is_int(t) else None
    if op == "!_": return X(text, "bool", False, e.lit) if is_scalar(t) else None
    if op == "upb _": return X(text, "int", False, False) if is_arr(t) else None
    raise KeyError(op)


UNARY = ["++_", "--_", "_++", "_--", "&_", "*_", "-_", "abs _", "~_", "!_", "upb _"]
INTOPS = ["%", "<<", ">>", "&", "^", "|"]
AROPS = ["*", "/", "+", "-"]
RELOPS = ["<", ">", "<=", ">="]
BINARY = INTOPS + AROPS + RELOPS + ["==", "!=", "&&", "||", "=", "%=", "<<=", ">>=", "&=", "^=", "|=", "*=", "/=", "+=", "-=", ",", "[]"]


def binary(op, l, r):
    a, b = l.type, r.type
    text = "(%s) %s (%s)" % (l.text, op, r.text)
    if op in INTOPS: return X(text, "int", False, l.lit and r.lit) if is_int(a) and is_int(b) else None
    if op in AROPS: return X(text, "float" if is_float(a) or is_float(b) else "int", False, l.lit and r.lit) if is_arith(a) and is_arith(b) else None
    if op in RELOPS: return X(text, "bool", False, l.lit and r.lit) if is_arith(a) and is_arith(b) else None
    if op in ("==", "!="):
        if "void" in (a, b): return UNKNOWN if a == b else None
        if is_arith(a) and is_arith(b) or unq(a) == unq(b) or is_ptr(a) and b == "null" or is_ptr(b) and a == "null": return X(text, "bool", False, l.lit and r.lit)
        return None
    if op in ("&&", "||"): return X(text, "bool", False, l.lit and r.lit) if is_scalar(a) and is_scalar(b) else None
    if op == ",": return X(text, b, False, False)
    if op == "[]":
        if not is_arr(a) or not is_int(b): return None
        el = unq(a)[1]
        return X("(%s)[%s]" % (l.text, r.text), mkconst(el) if const(a) else el, True, False)
    # assignments
    if not l.lv or const(a): return None
    if op == "=":
        if unq(a) == unq(b) and "struct K" in str(a): return UNKNOWN      # whole structures with constant members
        v = assignable(a, b)
        return UNKNOWN if v == UNKNOWN else X(text, a, False, False) if v else None
    v = binary(op[:-1], l, r)
    if v is None: return None
    if is_enum(a): return UNKNOWN if is_int(b) else None
    return X(text, a, False, False) if assignable(a, v.type) else None


def member(e, op, name):
    t = e.type
    if op == ".":
        if not is_struct(t): return None
        s, lv = t, e.lv
    else:
        if not is_ptr(t) or not is_struct(unq(t)[1]): return None
        s, lv = unq(t)[1], True
    for n, mt in STRUCTS[unq(s)[7:]]:
        if n == name: return X("(%s)%s%s" % (e.text, op, name), mkconst(mt) if const(s) else mt, lv, False)
    return None


def ternary(c, l, r):
    if not is_scalar(c.type): return None
    a, b = l.type, r.type
    text = "(%s) ? (%s) : (%s)" % (c.text, l.text, r.text)
    if is_arith(a) and is_arith(b): return X(text, "float" if is_float(a) or is_float(b) else "int", False, False)
    if is_ptr(a) and b == "null": return X(text, a, False, False)
    if is_ptr(b) and a == "null": return X(text, b, False, False)
    if a == "void" and b == "void": return UNKNOWN
    if unq(a) == unq(b): return X(text, a if const(a) else b, False, False)
    return None


def call(f, args):
    if not is_fn(f.type): return None
    if len(args) != len(f.type[2]) or not all(assignable(p, a.type) for p, a in zip(f.type[2], args)): return None
    return X("(%s)(%s)" % (f.text, ", ".join("(%s)" % a.text for a in args)), f.type[1], False, False)
