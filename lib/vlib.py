"""Shared machinery: building harnesses from the current tree, running TLC, evidence and verdicts."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
QUICK = TIER != "thorough"


class CheckError(Exception):
    """The check itself failed: no verdict."""


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", **kw)


# ------------------------------------------------------------------ builds
def _tree_hash(extra):
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "include"),):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, base).encode() + b"\0")
                h.update(open(p, "rb").read())
    for e in extra:
        h.update(str(e).encode() + b"\0")
    return h.hexdigest()[:24]


VARIANTS = {   # name -> (compiler, flags, mode, flags for the library only)   mode: header | shared | static
    "std":    ("g++", ["-O2"], "header"),
    "nosse":  ("g++", ["-O2", "-U__SSE__"], "header"),
    "o0":     ("g++", ["-O0"], "header"),
    "o3lib":  ("g++", ["-O3", "-DNDEBUG"], "shared"),
    "clang":  ("clang++", ["-O3", "-std=c++20"], "header"),
    "clanglib": ("clang++", ["-O2"], "shared"),
    "v3":     ("g++", ["-O3", "-march=x86-64-v3", "-ffp-contract=off"], "header"),
    "neon":   ("g++", ["-O2", "-U__SSE__", "-D__ARM_NEON", "-I", os.path.join(VERIF, "harness", "neon")], "header"),
    "fast":   ("g++", ["-Os"], "shared", ["-ffast-math", "-funsigned-char", "-D_GLIBCXX_ASSERTIONS"]),
    "asan":   ("g++", ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DNO_HEAP_HOOKS", "-DSAN_EXIT"], "header"),
    "tsan":   ("g++", ["-O1", "-g", "-fsanitize=thread", "-DNO_HEAP_HOOKS", "-DSAN_EXIT"], "header"),
}
try:
    _cpu = set(re.search(r"flags\s*:(.*)", open("/proc/cpuinfo").read()).group(1).split())
except Exception:
    _cpu = set()
if not {"avx2", "fma", "bmi2", "f16c", "movbe"} <= _cpu:
    VARIANTS["v3"] = VARIANTS["std"]
_locks = {}


def build(variant="std", src="rsh.cc", extra=()):
    cxx, flags, mode, lflags = (VARIANTS[variant] + ([],))[:4]
    srcp = os.path.join(VERIF, "harness", src)
    deps = [open(os.path.join(VERIF, "harness", f)).read() for f in sorted(os.listdir(os.path.join(VERIF, "harness"))) if f.endswith((".cc", ".hh"))]
    key = _tree_hash([variant, cxx, flags, mode, lflags, src, extra] + deps)
    exe = os.path.join(BUILD, "%s-%s-%s" % (src.replace(".cc", ""), variant, key))
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="b-", dir=BUILD)
    try:
        out = os.path.join(tmp, "exe")
        base = [cxx, "-std=c++11", "-w", "-I", os.path.join(REPO, "include")] + flags + list(extra)
        if mode == "header":
            cmds = [base + ["-DPANDA_RESAMPLER_HEADER_ONLY", srcp, "-o", out, "-lpthread"]]
        else:
            so = os.path.join(tmp, "libpanda.so")
            lib = exe + ".so"
            cmds = [base + lflags + ["-fPIC", "-shared", "-Wl,-soname," + lib, os.path.join(REPO, "include/pandaresampler/pandaresampler.cc"), "-o", so],
                    ["cp", so, lib + ".tmp"], ["mv", lib + ".tmp", lib],
                    base + [srcp, lib, "-o", out, "-lpthread", "-Wl,-rpath," + BUILD]]
        for c in cmds:
            r = sh(c, timeout=600)
            if r.returncode != 0 and "-std=c++20" in c:     # the project is C++11
                r = sh([x for x in c if x != "-std=c++20"], timeout=600)
            if r.returncode != 0:
                raise CheckError("build of %s failed: %s\n%s" % (variant, " ".join(c), r.stdout[-3000:]))
        os.rename(out, exe)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def build_many(names, src="rsh.cc"):
    with ThreadPoolExecutor(max_workers=6) as ex:
        return dict(zip(names, ex.map(lambda n: build(n, src), names)))


# ------------------------------------------------------------------ TLC
class Tlc:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        self.deadlock = "Deadlock reached" in out
        self.invariant = re.findall(r"Invariant (\w+) is violated", out)
        self.temporal = "Temporal properties were violated" in out or "is violated" in out
        self.ok = rc == 0 and ("No error has been found" in out)
        self.rejected = (not self.ok) and (self.deadlock or bool(self.invariant) or self.temporal or "Assumption" in out and "is false" in out)

    def error_state(self):
        """The last state of the error trace, as text."""
        m = re.split(r"\nState \d+: ", self.out)
        return m[-1].split("\n\n")[0] if len(m) > 1 else ""


def tlc(module, cfg=None, env=None, workers=4, timeout=600, cfgtext=None, extra=(), heap="3g", sim=None):
    """Runs TLC on a private copy of the specification directory."""
    work = tempfile.mkdtemp(prefix="vtlc-")
    try:
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), work)
        cfgname = cfg or module + ".cfg"
        if cfgtext is not None:
            cfgname = module + "_gen.cfg"
            open(os.path.join(work, cfgname), "w").write(cfgtext)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-Djava.io.tmpdir=" + work, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xmx" + heap, "-Xss16m", "-cp", JAVA_CP, "tlc2.TLC", "-config", cfgname,
               "-metadir", os.path.join(work, "meta"), "-workers", str(workers), "-nowarning", "-noGenerateSpecTE"] + list(extra)
        if sim:
            cmd += ["-simulate", "num=%d" % sim[0], "-depth", str(sim[1]), "-seed", str(sim[2])]
        cmd.append(module + ".tla")
        t0 = time.time()
        try:
            r = sh(cmd, timeout=timeout, cwd=work, env=e)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timeout on " + module)
        return Tlc(r.returncode, r.stdout, time.time() - t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


# ------------------------------------------------------------------ scripts
class Script:
    def __init__(self, limit=30):
        self.lines = ["limit %d" % limit]
        self.streams = []          # for PARAMS
        self.cases = {}            # id -> ops
        self.lens = {}

    def stream(self, sid, kind, mod=1, win=1, fmt="q", fin=1, tol=400, slack=0):
        self.lines.append("stream %d %s %d %d %s" % (sid, fmt, mod, win, kind))
        self.streams.append({"sid": sid, "mod": mod, "win": win, "fin": fin, "tol": tol, "slack": slack})

    def case(self, cid, ops, **info):
        js = json.dumps(dict({"id": cid}, **info))[1:-1]
        self.lines.append("case " + js)
        self.lines += ops
        self.lines.append("end")
        self.cases[cid] = ops

    def text(self):
        return "\n".join(self.lines) + "\n"


def run_script(exe, script, outpath, timeout=600, env=None, procs=8):
    """Runs the cases of a script, in contiguous chunks by several processes; the log is in the order of the script."""
    e = dict(os.environ)
    e.update({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=0", "TSAN_OPTIONS": "halt_on_error=0:exitcode=66"})
    e.update(env or {})
    lines = script.split("\n") if isinstance(script, str) else script.lines
    common, cases, cur = [], [], None
    for x in lines:
        if cur is None and not x.startswith("case "):
            common.append(x)
        else:
            cur = (cur or []) + [x]
            if x == "end":
                cases.append(cur)
                cur = None
    chunks, size = [], max(4, -(-len(cases) // (4 * procs)))
    for cs in cases:               # cases that take long are chunks of their own
        long = any(x.startswith(("copyall ", "big ")) or x.startswith("giant ") and int(x.split()[3]) >> 29 for x in cs)
        if long or not chunks or len(chunks[-1]) >= size:
            chunks.append([])
        chunks[-1] += [cs] + ([None] * size if long else [])
    chunks = [[cs for cs in ch if cs] for ch in chunks] or [[]]
    k = len(chunks)

    def one(q):
        sp, lp = "%s.script%d" % (outpath, q), "%s.log%d" % (outpath, q)
        open(sp, "w").write("\n".join(common + [x for cs in chunks[q] for x in cs]) + "\n")
        try:
            r = sh([exe, sp, lp], timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            raise CheckError("harness timeout")
        if r.returncode != 0:
            raise CheckError("harness failed (%d): %s" % (r.returncode, r.stdout[-2000:]))
        return lp
    with ThreadPoolExecutor(procs) as ex:
        logs = list(ex.map(one, range(k)))
    with open(outpath, "wb") as f:
        for q, p in enumerate(logs):
            f.write(open(p, "rb").read())
            os.unlink(p)
            os.unlink("%s.script%d" % (outpath, q))
    return outpath


def read_cases(path):
    """yields (case header, [events]) without judging anything"""
    head, evs = None, []
    for line in open(path):
        d = json.loads(line)
        if d["e"] == "case":
            head, evs = d, []
        elif d["e"] == "end":
            yield head, evs
        else:
            evs.append(d)


# ------------------------------------------------------------------ verdict
class Check:
    """Collects what one check covered and turns it into the evidence file and the exit code."""

    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "models": [], "trace_events": 0}
        self.violations = []
        self.assumptions = []
        self.work = tempfile.mkdtemp(prefix="v%s-" % pid)
        self.rng = random.Random("%s-%d" % (pid, SEED))

    def path(self, name):
        return os.path.join(self.work, name)

    # --- models
    def model(self, name, module, **kw):
        """A model of the design: must be free of errors (independent of the code under test)."""
        t = tlc(module, **kw)
        if not t.ok:
            raise CheckError("model %s does not hold:\n%s" % (name, t.out[-3000:]))
        self.add_model(name, t)
        return t

    def add_model(self, name, t):
        self.cov["states"] += t.distinct
        self.cov["transitions"] += t.generated
        self.cov["models"].append({"model": name, "states": t.distinct, "transitions": t.generated, "wall_s": round(t.wall, 1)})

    def contract(self, mutants, objs=(1,)):
        """MCResampler: the contract accepts a reference implementation with real state in all its executions, and
        rejects an execution of each of its mutants."""
        text = open(os.path.join(SPEC, "MCResampler.cfg")).read()
        ob = "{%s}" % ", ".join(map(str, objs))
        self.model("MCResampler %d objects" % len(objs), "MCResampler", cfgtext=text.replace("{1, 2}", ob), workers=2)
        for m in mutants:
            t = tlc("MCResampler", cfgtext=re.sub(r"(?m)^(INVARIANTS|PROPERTY).*$", "", text.replace("{1, 2}", "{1, 2}" if m in ("shared", "move", "leak") else "{1}").replace('"none"', '"%s"' % m)), workers=2)
            if not t.deadlock:
                raise CheckError("the contract does not reject the mutant %s:\n%s" % (m, t.out[-2000:]))
            self.cov["models"].append({"model": "MCResampler mutant %s" % m, "rejected_after_states": t.distinct})

    def inductive(self, module, mutants=()):
        """Apalache proves for unbounded parameters: Init => Inv, Inv is inductive, Inv => Safe.  Each mutant (a pair of
        texts) of the module has to break one of the two last steps."""
        def run(text, args):
            d = tempfile.mkdtemp(prefix="apa-", dir=self.work)
            open(os.path.join(d, module + ".tla"), "w").write(text)
            t0 = time.time()
            e = dict(os.environ, JVM_ARGS="-Xmx2g -Djava.io.tmpdir=" + d)
            try:
                r = sh(["apalache-mc", "check", "--out-dir=" + d + "/out"] + args + [module + ".tla"], timeout=600, cwd=d, env=e)
            except subprocess.TimeoutExpired:
                raise CheckError("Apalache timeout on " + module)
            m = re.search(r"The outcome is: (\w+)", r.stdout)
            if not m:
                raise CheckError("Apalache failed on %s:\n%s" % (module, r.stdout[-2000:]))
            return m.group(1), time.time() - t0
        steps = {"initial": ["--init=Init", "--inv=Inv", "--length=0"], "inductive": ["--init=Inv", "--inv=Inv", "--length=1"], "safe": ["--init=Inv", "--inv=Safe", "--length=0"]}
        text = open(os.path.join(SPEC, module + ".tla")).read()
        with ThreadPoolExecutor(3) as ex:
            res = dict(zip(steps, ex.map(lambda a: run(text, a), steps.values())))
            if {r for r, _ in res.values()} != {"NoError"}:
                raise CheckError("%s is not proven: %s" % (module, res))
            self.cov["models"].append({"model": module + " (Apalache, unbounded sizes)", "proved": sorted(res), "wall_s": round(max(w for _, w in res.values()), 1)})
            for a, b in mutants:
                if text.count(a) != 1:
                    raise CheckError("mutant of %s: %r" % (module, a))
                r = [x for x, _ in ex.map(lambda k: run(text.replace(a, b), steps[k]), ("inductive", "safe"))]
                if "Error" not in r:
                    raise CheckError("%s does not reject the mutant %r: %s" % (module, b, r))
                self.cov["models"].append({"model": module + " mutant " + b, "rejected": r})

    # --- traces
    def validate(self, name, module, env, ncases, nevents, confirm=None, **kw):
        """Checks recorded traces against a trace specification; returns True if all are accepted."""
        t = tlc(module, env=env, **kw)
        if t.ok:
            # every case has to be consumed completely: one state per event plus the initial ones
            self.add_model("trace:" + name, t)
            self.cov["traces_validated_against_impl"] += ncases
            self.cov["trace_events"] += nevents
            if t.distinct < nevents:
                raise CheckError("trace specification %s consumed %d of %d events\n%s" % (module, t.distinct, nevents, t.out[-1500:]))
            return None
        if not t.rejected:
            raise CheckError("TLC failed on %s:\n%s" % (module, t.out[-3000:]))
        return t

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def violation(self, text, files=()):
        d = os.path.join(VERIF, "evidence", "replay-%s-%d" % (self.pid, len(self.violations)))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "README.txt"), "w").write(text + "\n")
        for f in files:
            if os.path.exists(f):
                shutil.copy(f, d)
        self.violations.append(d)
        print("-- %s: %s" % (self.pid, text.strip().split("\n")[0][:400]))
        print("VIOLATION property=%s replay=%s" % (self.pid, d), flush=True)

    def finish(self):
        ev = {"property": self.pid, "tier": "quick" if QUICK else "thorough", "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        open(p + ".tmp", "w").write(json.dumps(ev, indent=1) + "\n")
        os.rename(p + ".tmp", p)
        shutil.rmtree(self.work, ignore_errors=True)
        if not self.violations:
            print("%s: held; %d model states, %d traces, %.1f s" % (self.pid, self.cov["states"], self.cov["traces_validated_against_impl"], time.time() - self.t0))
        return 1 if self.violations else 0
