#!/usr/bin/env python3
"""C31: operators accept exactly the operands the language allows, and yield the types it says."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, verdict, rules
from rules import X, UNKNOWN
from operands import *

c = vlib.Check("C31")
T = c.thorough
SHOW = bool(sys.argv[1:])

def prog(expr, glob=False):
    return (DECL + GLOBAL if glob else DECL) + "void main()\n{\n" + ("" if glob else LOCAL) + "(" + expr + ");\n}\n"


def use(expr): return DECL + "void main()\n{\n" + LOCAL + expr + "\n}\n"


def ok(v, text, glob=False):
    if v == UNKNOWN: return
    yield v is not None, "expression " + text.replace("\n", " "), prog(text, glob)


def text2(op, l, r): return "(%s)[%s]" % (l.text, r.text) if op == "[]" else "(%s) %s (%s)" % (l.text, op, r.text)


def functions(*es): return any(rules.is_fn(e.type) for e in es)


def un():
    for e in ALL:
        for op in rules.UNARY: 
            if functions(e) and op in ("&_", "!_"): continue
            for g in (False, True): yield from ok(rules.unary(op, e), op.replace("_", "(" + e.text + ")"), g)
        for n in ("x", "f", "a", "q", "y", "i", "S"):
            for op in (".", "->"): yield from ok(rules.member(e, op, n), "(%s)%s%s" % (e.text, op, n))


def bi():
    for l, r in itertools.product(ALL, ALL):
        if functions(l, r): continue
        for op in rules.BINARY:
            yield from ok(rules.binary(op, l, r), text2(op, l, r))


def te():
    one = V + K + L + [e for e in R if e.text in ("vv()", "vs()", "*ps", "am[0]", "&i", "&ki")]
    conds = ALL
    for cnd in conds: yield from ok(rules.ternary(cnd, V[2], V[2]), "(%s) ? (i) : (i)" % cnd.text)
    for l, r in itertools.product(one if not T else [e for e in ALL if not functions(e)], repeat=2): yield from ok(rules.ternary(V[0], l, r), "(b) ? (%s) : (%s)" % (l.text, r.text))


def ca():
    for f in FNS + V + L[:2]:
        yield from ok(rules.call(f, []), "(%s)()" % f.text)
        for a in ALL:
            if functions(a): continue
            yield from ok(rules.call(f, [a]), "(%s)((%s))" % (f.text, a.text))
            for a2 in V[2:4]: yield from ok(rules.call(f, [a, a2]), "(%s)((%s), %s)" % (f.text, a.text, a2.text))


def nested():
    """the types of results decide what may be done with them"""
    base = [e for e in V + K + L if e.text in ("b", "h", "i", "f", "e", "s", "p", "ps", "ar", "am", "kb", "ki", "kf", "ks", "kp", "pk", "pks", "pkS", "5", "2.5", "'c'", "true", "null", "A", "ka", "as", "ap")]
    inner = []
    for e in base:
        for op in rules.UNARY: inner.append(rules.unary(op, e))
        for n in ("x", "a", "q", "f"):
            for op in (".", "->"): inner.append(rules.member(e, op, n))
    few = [e for e in base if e.text in ("b", "h", "i", "f", "e", "p", "ar", "s", "ki", "kf", "2.5", "null", "A", "am")]
    for l, r in itertools.product(few if not T else base, repeat=2):
        for op in rules.BINARY: inner.append(rules.binary(op, l, r))
        inner.append(rules.ternary(base[0], l, r))
    inner = [e for e in inner if e is not None and e != UNKNOWN]
    seen = set()
    probes = [e for e in V if e.text in ("b", "i", "f", "p", "s", "ar")]
    for e in inner:
        kind = (e.type, e.lv, e.text.translate(str.maketrans("", "", "biofhe")))
        for op in rules.UNARY: yield from ok(rules.unary(op, e), op.replace("_", "(" + e.text + ")"))
        for op in ("=", "+=", "%", "<", "==", "&&", "[]"):
            for q in probes:
                yield from ok(rules.binary(op, e, q), text2(op, e, q))
                yield from ok(rules.binary(op, q, e), text2(op, q, e))
        yield from ok(rules.member(e, ".", "x"), "(%s).x" % e.text)
        yield from ok(rules.member(e, "->", "a"), "(%s)->a" % e.text)
        yield from ok(rules.call(FNS[3], [e]), "vptr((%s))" % e.text)
        yield from ok(rules.call(FNS[4], [e]), "vcp((%s))" % e.text)


def main():
    for name, gen in (("one operand", un), ("two operands", bi), ("conditional", te), ("calls", ca), ("nested", nested)):
        verdict.explore(c, gen(), name, show=SHOW, per_label=12 if SHOW else 2, group=lambda l: l.split("expression ")[-1][:40] if SHOW else l)
    sys.exit(c.finish())


if __name__ == "__main__": main()
