#!/usr/bin/env python3
"""Exit status, messages and output file say the same, for every target, with and without warnings."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, corpus
import C01

c = vlib.Check("C02")
T = c.thorough
TARGETS = ("-VM", "-LLVM", "-MIPS")
OPTIONS = ((), ("-Wno",))


def text(r):
    s = r.log if isinstance(r.log, str) else r.log.decode(errors="replace")
    return re.sub("\x1b\\[[0-9;]*m", "", s)


def messages(log, kind):
    return [l for l in log.split("\n") if re.search(r"(^|: )%s: " % kind, l)]


def req(files, flags, old):
    return (files + ([("o", "old contents")] if old else []), list(flags) + [n for n, _ in files if n.endswith(".c")] + ["-o", "o"], ["o"] if not old else ["o"])


# what the generators say of what they have no code for
UNSUPPORTED = {"-VM": (), "-MIPS": ("недопустимый узел верхнего уровня",), "-LLVM": ("такие массивы пока не поддерживаются в кодогенераторе",)}
KNOWN = {"-MIPS": "MIPS: construct without code", "-LLVM": "LLVM: array without code"}


def no_code(flag, message): return any(m in message for m in UNSUPPORTED[flag])


def judge(res):
    """what contradicts what, in the results of one program: {(target, options): result}"""
    bad, unsupported = [], []
    for (flag, opts), r in res.items():
        log = text(r)
        errors, warnings = messages(log, "ошибка"), messages(log, "предупреждение")
        here = "%s %s" % (flag, " ".join(opts))
        if r.timeout or r.code not in (0, 64): bad.append("%s: no verdict (%s)" % (here, r.describe())); continue
        if r.code == 0 and errors and all(no_code(flag, e) for e in errors): errors = []; unsupported.append(KNOWN[flag])
        if r.code == 0 and errors: bad.append("%s: success, but an error is reported: %s" % (here, errors[0]))
        if r.code != 0 and not errors: bad.append("%s: failure, but no error is reported" % here)
        out = r.outs[0]
        if r.code == 0 and not out: bad.append("%s: success, but no code in the output file" % here)
        if r.code != 0 and out: bad.append("%s: failure, but the output file holds something" % here)
        if opts and warnings: bad.append("%s: a warning is reported: %s" % (here, warnings[0]))
    for flag in TARGETS:
        a, b = res[flag, ()], res[flag, ("-Wno",)]
        if a.code != b.code: bad.append("%s: -Wno changes the verdict" % flag)
        elif a.code == 0 and a.outs[0] != b.outs[0]: bad.append("%s: -Wno changes the code" % flag)
        elif a.code == 64:
            ea, eb = messages(text(a), "ошибка"), messages(text(b), "ошибка")
            if ea and eb and ea[0] != eb[0]: bad.append("%s: -Wno changes the first error: %s / %s" % (flag, ea[0], eb[0]))
    vm = messages(text(res["-VM", ()]), "ошибка")
    for flag in TARGETS[1:]:
        other = [m for m in messages(text(res[flag, ()]), "ошибка") if not no_code(flag, m)]
        if vm != other: bad.append("%s reports other errors than -VM: %s / %s" % (flag, other[:1], vm[:1]))
    return bad or sorted(set(unsupported))


def batch(item):
    label, texts = item
    ruc = vlib.worker_ruc("rel")
    confs = [(f, o) for f in TARGETS for o in OPTIONS]
    bad = []
    reqs = []
    for k, t in enumerate(texts):
        files = t if isinstance(t, list) else [("t.c", t)]
        reqs.append([req(files, (f,) + o, False) for f, o in confs])
    flat = [q for qs in reqs for q in qs]
    rs = ruc.run_batch(flat, 5000)
    for k, qs in enumerate(reqs):
        got = rs[k * len(confs):(k + 1) * len(confs)]
        for _ in range(2):
            if all(r is not None for r in got):
                found = judge(dict(zip(confs, got)))
                if set(found) <= set(KNOWN.values()):
                    bad += [(k, k) for k in found if not any(b[0] == k for b in bad)]
                    break
            got = [ruc.run(*q, 60000) for q in qs]
        else:
            found = judge(dict(zip(confs, got)))
            if found: bad.append((found[0], "\n".join(found) + "\n" + "".join("==> %s\n%s\n" % f for f in qs[0][0]) + "ruc " + " ".join(qs[0][1])))
    return label, len(texts), len(flat), bad


def chunks(label, texts, size=40):
    it = iter(texts)
    while True:
        part = list(itertools.islice(it, size))
        if not part: return
        yield label, part


# programs with one mistake of each kind, and programs with something to warn about
KINDS = r'''
void main() { `; }
void main() { int x = 0b2; }
void main() { float x = 1.5e; }
void main() { char c = ''; }
void main() { char c = '\q'; }
void main() { char c = 'ab'; }
void main() { printf("a); }
void main() { } /* 
void main() { int x = 1); ; }
void main() { int x = (1; }
void main() { int a[1]; a[0 = 1; }
void main() { int x = 1 }
void main() { 
void main() { int x; x(); }
int f(int a) { return a; } void main() { f(); }
int f(int a) { return a; } void main() { f(1, 2); }
int f(int a) { return a; } void main() { f("a"); }
void main() { int x; x[0] = 1; }
void main() { int a[1]; a["s"] = 1; }
void main() { int x; x.y = 1; }
struct P { int x; } p; void main() { p.y = 1; }
void main() { int x; x->y = 1; }
void main() { 1 = 2; }
void main() { int x; &1; }
void main() { int x; *x = 1; }
void main() { x = 1; }
void main() { int x; int x; }
void main() { break; }
void main() { continue; }
void main() { case 1: ; }
void main() { default: ; }
void main() { switch (1.5) { case 1: ; } }
void main() { int y; switch (1) { case y: ; } }
void main() { return 1; }
int main() { return; }
int f() { return "s"; } void main() { }
void main() { if ("s") ; }
void main() { while ("s") ; }
void main() { printf("%i", 1.5); }
void main() { printf("%i"); }
void main() { printf("%q", 1); }
void main() { printf("a", 1); }
void main() { int x = "s"; }
void main() { int x = 1.5; }
void main() { int a[2] = { 1, 2, 3 }; }
void main() { const int x = 1; x = 2; }
void main() { int a[]; }
void main() { int a[1.5]; }
void f() { } void f() { } void main() { }
int f(int); void main() { f(1); }
void main() { } void main() { }
int x;
struct P { int x; int x; } p; void main() { }
enum E { }; void main() { }
enum E { A, A }; void main() { }
enum E { A = 1.5 }; void main() { }
void x; void main() { }
typedef int; void main() { }
void main() { int x = y; }
void main() { struct Q q; }
int f() { } void main() { }
void main() { upb(1); }
void main() { else ; }
void main() { for (int i = 0; i < 1) ; }
void main() { do ; }
void main() { int x = 1; if (x = 2) ; }
void main() { float x = 99999999999999999999999999; }
void main() { int x = 1; x = x ? 1 : ; }
void main() { int x = 1 + ; }
#if
#else
#endif
#define
#undef M
#error text
#include "missing"
#if 1 / 0
#define M(x
#unknown
#define M 1\n#define M 2\nvoid main() { int x = M; }
#undef M\nvoid main() { }
#define M(x) x\nvoid main() { int x = M(1, 2); }
#define M(x) x\nvoid main() { int x = M; }
#line 1 2 3\nvoid main() { }
#if 'ab'\n#endif\nvoid main() { }
'''.strip("\n").split("\n")


def kinds():
    ks = [k.replace("\\n", "\n") if k[0] == "#" else k for k in KINDS]
    yield from chunks("mistakes", ks)
    # two mistakes one after another, in one file and in two
    merge = lambda a, b: b.replace("void main()", "void other()") + "\n" + a
    yield from chunks("pairs of mistakes", [merge(a, b) for a in ks for b in ks if not a.startswith("#")])
    yield from chunks("mistakes in two files", [[("t.c", a), ("u.c", b.replace("void main()", "void other()"))] for a in ks for b in ks])


def edits():
    for name, s in corpus.programs():
        ts = corpus.tokens(s)
        if ts is None: continue
        yield name, [s]
        if len(s) < (250 if T else 45): yield from chunks("edits", (" ".join(t) for t in C01.edits(ts, False)))
        elif T or len(s) < 200 or name.startswith("own"): yield from chunks("edits", (" ".join(t) for t in C01.edits(ts, True)))


def directives():
    for n in (1, 2) if not T else (1, 2, 3): yield from chunks("lines with directives", ([("t.c", "\n".join(t) + "\nvoid main() { int x = 1; if (x = 2) ; }\n"), ("t.h", "int h;")] for t in itertools.product([l for l in C01.LINES if l != "\\"], repeat=n)))


def main():
    vlib.rucd("rel")
    only = sys.argv[1:]
    seen, fails = {}, {}
    for label, n, m, bad in vlib.pmap(batch, itertools.chain(*(f() for f in (kinds, edits, directives) if not only or f.__name__ in only))):
        c.count(n, m, m)
        label = label if label in ("mistakes", "pairs of mistakes", "mistakes in two files", "edits", "lines with directives") else "programs"
        seen[label] = seen.get(label, 0) + n
        for what, replay in bad:
            k = re.sub(r"[\w./]*:\d+:\d+|'.*", "", what)
            fails[k] = fails.get(k, 0) + 1
            if only and fails[k] < 4: print("##", what, "|", replay[-300:].replace("\n", " "), flush=True)
            if fails[k] <= 1: c.violation("[%s] %s" % (label, what), replay)
    for l, n in seen.items(): c.note(l, "%d programs" % n)
    if only:
        for k, n in sorted(fails.items(), key=lambda x: -x[1]): print(n, k[:200])
    sys.exit(c.finish())


if __name__ == "__main__": main()
