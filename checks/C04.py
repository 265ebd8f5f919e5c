#!/usr/bin/env python3
"""C04: every command line up to a length over an alphabet of options and names, against a model of the command line."""
import itertools, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib

c = vlib.Check("C04")


def text(log): return re.sub("\x1b\\[[0-9;]*m", "", log if isinstance(log, str) else log.decode(errors="replace"))
T = c.thorough

MAIN = '#include "h.h"\nint f(int);\n#ifdef N\nint n = N;\n#endif\nvoid main() { int x; if (x = 3) f(34004); }\n'
TREE = [("a.c", MAIN), ("b.c", "int f(int y) { return 35005; }\n"), ("e/c.c", MAIN), ("d1/h.h", "int h = 31001;\n"), ("d2/h.h", "int h = 31002;\n"), ("e/h.h", "int h = 31003;\n")]
CONTENT = dict(TREE)
DIRS = {"d1", "d2", "e"}
OUTS = ["out.ruc", "out.ll", "out.s", "o1", "d1/o2", "export.txt"]
KINDS = {"VM": "#!/usr/bin/ruc-vm\n", "LLVM": "target datalayout", "MIPS": "\t.section .mdebug"}

FILES = [("a.c",), ("b.c",), ("e/c.c",)]
FLAGS = [("-VM",), ("-LLVM",), ("-MIPS",), ("-E",), ("-Wno",), ("-c",), ("-Id1",), ("-Id2",), ("-DN=37007",), ("-o", "o1"), ("-o", "d1/o2")]
BAD = [("no.c",), ("d1",), ("-Inodir",), ("-I",), ("-DN",), ("-x",), ("-",), ("-o", "nodir/o"), ("-o", "d2"), ("-o", ""), ("",)]


class Model:
    """what a command line asks for"""
    def __init__(self, argv):
        self.files, self.dirs, self.flags, self.out, self.wrong = [], [], [], "", False
        i = 0
        while i < len(argv) and not self.wrong:
            a = argv[i]
            i += 1
            if a == "-o":
                if i == len(argv): self.wrong = True
                else: self.out = argv[i]
                i += 1
            elif a.startswith("-I"): self.put(self.dirs, a[2:], a[2:] in DIRS)
            elif a.startswith("-"): self.put(self.flags, a, True)
            else: self.put(self.files, a, a in CONTENT or a in DIRS)
        if not self.files: self.wrong = True
        self.target = "LLVM" if "-LLVM" in self.flags else "MIPS" if "-MIPS" in self.flags else "VM"
        self.output = self.out or {"VM": "out.ruc", "LLVM": "out.ll", "MIPS": "out.s"}[self.target]

    def put(self, where, a, exists):
        if not exists: self.wrong = True
        elif a not in where: where.append(a)

    def contradictory(self): return sum(f in self.flags for f in ("-VM", "-LLVM", "-MIPS")) > 1

    def expected(self):
        """(success, lines after the preprocessor)"""
        if self.wrong or any(f in DIRS for f in self.files) or self.output.startswith("nodir/") or self.output in DIRS: return False, None
        defs = [f for f in self.flags if f.startswith("-D")]
        if len(defs) > 1: return False, None
        value = None if not defs else defs[0][3:].lstrip("=")
        done, lines = set(), []
        for f in self.files:
            for l in CONTENT[f].splitlines():
                if l.startswith("#include"):
                    for d in [os.path.dirname(f)] + self.dirs:
                        h = os.path.join(d, "h.h")
                        if h in CONTENT: break
                    else: return False, None
                    if h not in done: lines.append(CONTENT[h].strip())
                    done.add(h)
                elif l.startswith("int n"):
                    if value is not None: lines.append(l.replace("N", value))
                elif not l.startswith("#"): lines.append(l)
        if "-E" in self.flags: return True, lines
        mains = [f for f in self.files if f != "b.c"]
        ok = len(mains) < 2 and not (mains and value == "")
        if mains and "b.c" in self.files: ok = ok and self.files.index(mains[0]) < self.files.index("b.c") # a prototype may not follow the definition
        if "-c" not in self.flags: ok = ok and len(mains) == 1 and "b.c" in self.files
        return ok, lines


def judge(argv, code, log, outs):
    m = Model(argv)
    ok, lines = m.expected()
    if code not in (0, 64): return "no verdict"
    if (code == 0) != ok: return "the model says it should %s" % ("succeed" if ok else "fail")
    if not ok and "ошибка" not in log: return "no error is reported"
    if ok and "ошибка" in log: return "an error is reported"
    for name, o in zip(OUTS, outs):
        if name != m.output and o is not None: return "%s is written" % name
    if not ok: return None if m.output not in OUTS or not outs[OUTS.index(m.output)] or "-E" in m.flags else "the output is not empty"
    out = outs[OUTS.index(m.output)]
    if not out: return "no output in %s" % m.output
    out = out.decode("utf-8", "replace")
    if "-E" in m.flags:
        got = "".join(" ".join(l for l in out.splitlines() if not l.startswith("#line")).split())
        if got != "".join(" ".join(lines).split()): return "-E: another text than expected"
        return None
    if not out.startswith(KINDS[m.target]): return "the output is not code for %s" % m.target
    want = set(re.findall(r"\b3\d{4}\b", " ".join(lines)))
    if m.target != "VM": want.discard("35005") # optimised or not, checked below through the order-independence of the code
    got = set(re.findall(r"\b3[1457]00\d\b", out))
    if not want - {"35005"} <= got or got - {"35005"} > want: return "the code has the constants %s, expected %s" % (sorted(got), sorted(want))
    warned = "предупреждение" in log
    if warned != (any(f != "b.c" for f in m.files) and "-Wno" not in m.flags): return "a warning is%s reported" % ("" if warned else " not")
    return None


def state(argv):
    m = Model(argv)
    return (m.target, tuple(m.files), tuple(m.dirs), tuple(sorted(f for f in m.flags if f[:2] in ("-E", "-D", "-c"))))


def batch(vectors):
    ruc = vlib.worker_ruc("rel")
    req = [(TREE + [("d1/x", "")], list(itertools.chain(*v)), OUTS) for v in vectors]
    rs = ruc.run_batch(req, 3000)
    bad, codes = [], []
    for v, q, r in zip(vectors, req, rs):
        argv = q[1]
        for _ in range(2):
            why = judge(argv, r.code, text(r.log), r.outs) if r is not None and not r.timeout else "no answer"
            if why is None: break
            r = ruc.run(*q, 30000)
        else:
            bad.append((argv, why, text(r.log)))
            continue
        m = Model(argv)
        if r.code == 0: codes.append((state(argv), hash_of(r.outs[OUTS.index(m.output)]), argv))
    return len(vectors), bad, codes


def hash_of(data):
    import hashlib
    return hashlib.blake2b(re.sub(rb"/\S*/(?=(?:d1|d2|e)/|[ab]\.c)", b"", data), digest_size=8).digest()


def vectors():
    small, every = FILES + FLAGS, FILES + FLAGS + BAD
    n = 5 if T else 4
    for k in range(0, n + 1):
        for v in itertools.product(small, repeat=k): yield v
    # one or two unusual arguments at any place among the usual ones
    for k in range(1, 4):
        for v in itertools.product(every, repeat=k):
            if any(x in BAD for x in v): yield v
            if any(x in BAD for x in v): yield v + (("-o",),)
    # a program that can succeed, with every permutation of options around it
    base = [("a.c",), ("b.c",), ("-Id1",), ("-Id2",), ("-o", "o1"), ("-o", "d1/o2")]
    for extra in ([("-LLVM",)], [("-MIPS",)], [("-E",)], [("-DN=37007",)], [("-Wno",)], [("-c",)], [("-x",)]):
        for v in itertools.permutations(base + extra): yield v
    for v in itertools.product(FILES + FLAGS, repeat=3): yield v + (("-o",),)


def chunks(size=100):
    it = (v for v in vectors() if not Model(list(itertools.chain(*v))).contradictory())
    while True:
        part = list(itertools.islice(it, size))
        if not part: return
        yield part


def processes():
    """real processes: exit status, mode of the output file, messages on the standard streams"""
    exe = vlib.harness("ruc", [os.path.join(vlib.REPO, "src/main.c")], "rel", ("utils", "macro", "compiler"), ("-DTESTING_EXIT_CODE=64",))
    n = 0
    top = vlib.scratch()
    for target, ext in (("-VM", "ruc"), ("-LLVM", "ll"), ("-MIPS", "s"), (None, "ruc")):
        for extra in ([], ["-Wno"], ["-E"], ["-c"], ["no.c"], ["-o", "o1"], ["-o"], ["-Inodir"]):
            d = os.path.join(top, "p")
            shutil.rmtree(d, True)
            for f, s in TREE:
                os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
                open(os.path.join(d, f), "w").write(s)
            argv = ([target] if target else []) + ["a.c", "b.c", "-Id1"] + extra
            r = subprocess.run([exe] + argv, cwd=d, capture_output=True, timeout=60)
            outs = [open(os.path.join(d, o), "rb").read() if os.path.exists(os.path.join(d, o)) else None for o in OUTS]
            why = judge(argv, r.returncode, text(r.stdout + r.stderr), outs)
            m = Model(argv)
            if why is None and m.expected()[0] and m.target == "VM" and not os.access(os.path.join(d, m.output), os.X_OK): why = "the code for the virtual machine is not executable"
            n += 1
            if why: c.violation("ruc %s: %s" % (" ".join(argv), why), "\n".join("==> %s\n%s" % t for t in TREE) + "ruc " + " ".join(argv) + "\n" + why)
    shutil.rmtree(os.path.join(top, "p"), True)
    return n


def main():
    vlib.rucd("rel")
    seen, fails = {}, {}
    for n, bad, codes in vlib.pmap(batch, chunks()):
        c.count(n, n, n)
        for argv, why, log in bad:
            fails[why] = fails.get(why, 0) + 1
            if fails[why] <= 2: c.violation("ruc %s: %s" % (" ".join(map(repr, argv)), why), "\n".join("==> %s\n%s" % t for t in TREE) + "ruc " + " ".join(map(repr, argv)) + "\n" + why + "\n" + log[:2000])
        for s, h, argv in codes:
            was = seen.setdefault(s, (h, argv))
            if was[0] != h:
                fails["order"] = fails.get("order", 0) + 1
                if fails["order"] <= 2: c.violation("the order of options changes the code: %s / %s" % (was[1], argv), "\n".join("==> %s\n%s" % t for t in TREE) + "ruc %s\nruc %s\n" % (" ".join(was[1]), " ".join(argv)))
    n = processes()
    c.count(n, n, n)
    c.note("command lines with the same meaning compared", "%d meanings that succeed" % len(seen))
    c.note("alphabet", "%d files, %d options, %d unusual arguments" % (len(FILES), len(FLAGS), len(BAD)))
    c.note("real processes", n)
    if len(seen) < 50: c.violation("vacuous: only %d meanings succeed" % len(seen), "vacuous")
    if sys.argv[1:]: print(fails)
    sys.exit(c.finish())


if __name__ == "__main__": main()
