"""Shared machinery of the checks: builds /repo's current tree into a scratch
directory, runs the real compiler in worker pools, keeps counts, writes evidence
and reports violations."""
import atexit, glob, json, multiprocessing, os, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(VERIF, "lib")
NCPU = min(8, os.cpu_count() or 8)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")

_scratch = None


def scratch():
    """A private directory, removed when the check's main process exits."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="rucverif.")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


# ------------------------------------------------------------------ building

COMMON = ["-std=gnu11", "-D_POSIX_C_SOURCE=200112L", "-w", "-fno-strict-aliasing"]
MODES = {
    # as shipped (NDEBUG)
    "rel": ["-O1", "-DNDEBUG"],
    # sanitizers; asserts off so that behaviour is that of the shipped build
    "san": ["-O1", "-g1", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize=alignment,leak"
            , "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    # debug build (asserts on, dumps tables to the working directory)
    "dbg": ["-O0", "-g1"],
}
PARTS = {"utils": "libs/utils", "macro": "libs/macro", "compiler": "libs/compiler"}


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout)
    return p.stdout


def _sources(part):
    res = []
    for root, dirs, files in os.walk(os.path.join(REPO, PARTS[part])):
        res += [os.path.join(root, f) for f in files if f.endswith(".c")]
    return sorted(res)


def includes():
    return ["-I" + os.path.join(REPO, p) for p in PARTS.values()]


_objs = {}


def objects(mode, parts=("utils", "macro", "compiler")):
    """Object files of the requested parts of /repo's working tree."""
    jobs = []
    out = []
    for part in parts:
        key = (mode, part)
        if key not in _objs:
            d = os.path.join(scratch(), "obj", mode, part)
            os.makedirs(d, exist_ok=True)
            lst = []
            for i, s in enumerate(_sources(part)):
                o = os.path.join(d, "%03d.o" % i)
                lst.append(o)
                jobs.append(["gcc", *COMMON, *MODES[mode], *includes(), "-c", s, "-o", o])
            _objs[key] = lst
        out += _objs[key]
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(_run, jobs))
    return out


def harness(name, sources, mode="san", parts=("utils",), extra=()):
    exe = os.path.join(scratch(), name + "." + mode)
    if not os.path.exists(exe):
        objs = objects(mode, parts)
        _run(["gcc", *COMMON, "-D_GNU_SOURCE", *MODES[mode], *includes(), "-I" + LIB, *extra
              , *[s if s.startswith("/") else os.path.join(LIB, s) for s in sources], *objs, "-o", exe, "-lm"])
    return exe


def rucd(mode="rel"):
    exe = os.path.join(scratch(), "rucd." + mode)
    if not os.path.exists(exe):
        objs = objects(mode)
        main_o = os.path.join(scratch(), "main.%s.o" % mode)
        _run(["gcc", *COMMON, *MODES[mode], *includes(), "-Dmain=ruc_main", "-DTESTING_EXIT_CODE=64", "-c"
              , os.path.join(REPO, "src/main.c"), "-o", main_o])
        _run(["gcc", *COMMON, "-D_GNU_SOURCE", *MODES[mode], os.path.join(LIB, "rucd.c"), main_o, *objs
              , "-o", exe, "-lm"])
    return exe


# ------------------------------------------------------------ running the compiler

class Result:
    __slots__ = ("status", "log", "outs")

    def __init__(self, status, log, outs):
        self.status, self.log, self.outs = status, log, outs

    @property
    def code(self):
        return os.WEXITSTATUS(self.status) if os.WIFEXITED(self.status) else None

    @property
    def signal(self):
        return os.WTERMSIG(self.status) if os.WIFSIGNALED(self.status) else None

    @property
    def ok(self):
        return self.code == 0

    @property
    def rejected(self):
        return self.code == 64

    @property
    def timeout(self):
        return self.signal == signal.SIGALRM

    @property
    def text(self):
        return self.log.decode("utf-8", "replace")

    def describe(self):
        if self.signal is not None:
            return "killed by signal %d" % self.signal
        return "exit code %s" % self.code


class Ruc:
    """One fork server (in one scratch directory)."""

    def __init__(self, mode="rel", env=None):
        self.mode = mode
        self.exe = rucd(mode)
        self.dir = tempfile.mkdtemp(prefix="w.", dir=scratch())
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0"
        e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:print_stacktrace=0"
        e.update(env or {})
        self.env = e
        self.p = None

    def start(self):
        self.p = subprocess.Popen([self.exe, self.dir], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=self.env)

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()
            self.p = None

    def _u32(self):
        d = self.p.stdout.read(4)
        if len(d) != 4:
            raise RuntimeError("rucd died")
        return struct.unpack("<I", d)[0]

    @staticmethod
    def _request(files, args, outs, limit_ms):
        b = [struct.pack("<I", len(files))]
        for n, c in files:
            n = n.encode() if isinstance(n, str) else n
            c = c.encode() if isinstance(c, str) else c
            b += [struct.pack("<I", len(n)), n, struct.pack("<I", len(c)), c]
        for l in (args, outs):
            b.append(struct.pack("<I", len(l)))
            for a in l:
                a = a.encode() if isinstance(a, str) else a
                b += [struct.pack("<I", len(a)), a]
        b.append(struct.pack("<I", limit_ms))
        return b"".join(b)

    def _reply(self):
        f = self.p.stdout
        st = self._u32()
        log = f.read(self._u32())
        res = []
        for _ in range(self._u32()):
            present = self._u32()
            c = f.read(self._u32())
            res.append(c if present else None)
        return Result(st, log, res)

    def run(self, files, args, outs=(), limit_ms=10000):
        if self.p is None:
            self.start()
        self.p.stdin.write(self._request(files, args, outs, limit_ms))
        self.p.stdin.flush()
        return self._reply()

    def run_batch(self, requests, limit_ms=10000):
        """[(files, args, outs)] in one forked process, one after another; None for those it did not get to finish."""
        if self.p is None:
            self.start()
        self.p.stdin.write(struct.pack("<II", 0xFFFFFFFF, len(requests)) + b"".join(self._request(*q, limit_ms) for q in requests))
        self.p.stdin.flush()
        res = []
        while self._u32() == 1:
            res.append(self._reply())
        self._u32()
        return res + [None] * (len(requests) - len(res))

    def compile(self, src, flags=("-VM",), out="o.out", limit_ms=10000, name="t.c"):
        """Compile one source, retrying alone with a long limit before believing a timeout."""
        r = self.run([(name, src)], [*flags, name, "-o", out], [out], limit_ms)
        if r.timeout:
            r = self.run([(name, src)], [*flags, name, "-o", out], [out], max(60000, limit_ms))
        return r


# ------------------------------------------------------------------ worker pools

_worker = {}


def _init_worker(initfn, initargs):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    if initfn:
        initfn(*initargs)


def pmap(fn, items, init=None, initargs=(), chunksize=1, procs=None):
    """Ordered parallel map over forked workers (yields results)."""
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(procs or NCPU, _init_worker, (init, initargs)) as pool:
        yield from pool.imap(fn, items, chunksize)


def worker_ruc(mode="rel", env=None):
    """The calling worker process's own fork server."""
    key = (os.getpid(), mode, str(env))
    if key not in _worker:
        _worker[key] = Ruc(mode, env)
    return _worker[key]


# ------------------------------------------------------------------ reporting

class Check:
    def __init__(self, prop, tier=None, level="model_checking"):
        self.prop = prop
        self.tier = tier or TIER
        self.level = level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "exhaustive": True}
        self.assumptions = []
        self.viol = []
        self.known = []
        self.findings = [f for f in load_findings() if f.get("property") == prop and f.get("status") == "known"]
        self.max_replays = 20

    @property
    def thorough(self):
        return self.tier == "thorough"

    def count(self, states=0, transitions=0, traces=0):
        self.cov["states"] += states
        self.cov["transitions"] += transitions
        self.cov["traces_validated_against_impl"] += traces

    def sample(self, s, cap=6):
        if len(self.cov["samples"]) < cap:
            self.cov["samples"].append(s)

    def note(self, key, val):
        self.cov[key] = val

    def violation(self, what, replay, key=None):
        """what: one line; replay: text (all that is needed to see the failure again);
        key: what identifies a known finding (default: the replay text)."""
        key = key or replay
        for f in self.findings:
            if f["input"] == key:
                if f not in self.known:
                    self.known.append(f)
                return
        self.viol.append((what, replay))

    def finish(self):
        wall = time.time() - self.t0
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": self.cov
              , "wall_s": round(wall, 2), "violations": len(self.viol), "assumptions": self.assumptions}
        ev["coverage"]["known_findings_seen"] = len(self.known)
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        rd = os.path.join(d, "replay", self.prop)
        shutil.rmtree(rd, ignore_errors=True)
        if not self.viol and (self.cov["traces_validated_against_impl"] == 0 or self.cov["states"] == 0):
            self.viol.append(("the exploration was empty", "nothing was explored"))
        for f in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        for i, (what, replay) in enumerate(self.viol[:self.max_replays]):
            os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, "%03d.txt" % i)
            with open(p, "w", errors="surrogateescape") as fh:
                fh.write("# " + what.replace("\n", "\n# ") + "\n" + replay + "\n")
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  " + what.replace("\n", "\n  "))
        with open(os.path.join(d, self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, ensure_ascii=False)
        print("%s %s: %d states, %d transitions, %d traces on the implementation, %d violations, %.1f s"
              % (self.prop, self.tier, self.cov["states"], self.cov["transitions"]
                 , self.cov["traces_validated_against_impl"], len(self.viol), wall))
        sys.stdout.flush()
        return 1 if self.viol else 0


def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return json.load(fh)["findings"]


def chunks(seq, n):
    buf = []
    for x in seq:
        buf.append(x)
        if len(buf) == n:
            yield buf
            buf = []
    if buf:
        yield buf
