"""Shared plumbing of the checks: building from /repo, running, evidence, verdicts."""
import atexit, concurrent.futures as cf, hashlib, json, os, random, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NLV_REPO", "/repo")
RT = os.path.join(REPO, "runtime")
PP = os.path.join(REPO, "preprocessor")
HARNESS = os.path.join(VERIF, "harness")
JOBS = int(os.environ.get("NLV_JOBS", "8"))
LIB_SRCS = ["Cycles.cc", "Util.cc", "Log.cc", "NanoLog.cc", "RuntimeLogger.cc", "TimeTrace.cc"]

os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["PYTHONWARNINGS"] = "ignore"
os.environ["LC_ALL"] = "C.UTF-8"
os.environ.setdefault("TZ", "UTC")
os.environ["ASAN_OPTIONS"] = "detect_leaks=0:check_printf=0:abort_on_error=0:exitcode=86"


class CheckError(Exception):
    """The check could not be carried out (not a verdict on the property)."""


class Ctx:
    def __init__(self, prop, level="exploration"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        base = os.path.join(VERIF, ".build")
        os.makedirs(base, exist_ok=True)
        self.build = tempfile.mkdtemp(prefix=prop + "-", dir=base)
        shm = "/dev/shm"
        try:
            self.scratch = tempfile.mkdtemp(prefix="nlv-" + prop + "-", dir=shm)
        except OSError:
            self.scratch = tempfile.mkdtemp(prefix="scratch-", dir=base)
        if not os.environ.get("NLV_KEEP"):
            atexit.register(self._clean, os.getpid())
        self.evaluations = 0
        self.nontrivial = 0
        self.distinct = set()
        self.samples = []
        self.rules = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.findings = []
        self.replay_dir = os.path.join(VERIF, "replays", prop)

    def _clean(self, pid):
        if os.getpid() != pid:
            return
        shutil.rmtree(self.build, ignore_errors=True)
        shutil.rmtree(self.scratch, ignore_errors=True)

    def sub_rng(self, tag):
        return random.Random("%s/%d/%s" % (self.prop, self.seed, tag))

    def elapsed(self):
        return time.time() - self.t0

    # ---- coverage accounting -------------------------------------------------
    def count(self, key=None, nontrivial=True, n=1):
        """Account for n evaluated cases; key identifies a distinct non-trivial case."""
        self.evaluations += n
        if nontrivial and key is not None:
            self.distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s if len(str(s)) < 1500 else str(s)[:1500] + "...")

    # ---- verdicts ------------------------------------------------------------
    def save_replay(self, name, text):
        os.makedirs(self.replay_dir, exist_ok=True)
        p = os.path.join(self.replay_dir, name)
        with open(p, "w" if isinstance(text, str) else "wb") as f:
            f.write(text)
        return p

    def violation(self, what, replay):
        self.violations.append((what, replay))
        print("counterexample: " + what[:3000], flush=True)

    def known(self, what):
        """True, with a KNOWN-FINDING line, when known_findings.txt lists exactly this failure of this property."""
        entry = "finding: property=%s %s" % (self.prop, what)
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            if entry not in f.read().splitlines():
                return False
        print("KNOWN-FINDING: property=%s %s" % (self.prop, what), flush=True)
        self.extra.setdefault("known_findings", []).append(what)
        return True

    def finish(self):
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct) + self.nontrivial,
               "rule": " | ".join(self.rules), "samples": self.samples}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(self.elapsed(), 2),
              "violations": len(self.violations)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for what, replay in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, replay), flush=True)
        print("%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs %s" % (
            self.prop, self.tier, self.seed, self.evaluations, cov["distinct_nontrivial"], self.elapsed(),
            "VIOLATED" if self.violations else "ok"), flush=True)
        sys.stdout.flush()
        self._clean(os.getpid())
        os._exit(1 if self.violations else 0)


# ---- processes ---------------------------------------------------------------
class Res:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


def run(cmd, cwd=None, timeout=120, inp=None, env=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, cwd=cwd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e,
                           stdin=None if inp is not None else subprocess.DEVNULL)
        return Res(p.returncode, p.stdout, p.stderr, False)
    except subprocess.TimeoutExpired as ex:
        return Res(None, ex.stdout or b"", ex.stderr or b"", True)


def must(cmd, cwd=None, timeout=600, what=None):
    r = run(cmd, cwd, timeout)
    if r.timeout or r.rc != 0:
        raise CheckError("%s failed (%s): %s\n%s\n%s" % (what or "command", r.rc, " ".join(cmd),
                         r.out.decode(errors="replace")[-3000:], r.err.decode(errors="replace")[-3000:]))
    return r


# ---- building ----------------------------------------------------------------
def cxx(compiler="g++"):
    cc = ["ccache"] if shutil.which("ccache") else []
    os.environ.setdefault("CCACHE_DIR", os.path.join(VERIF, ".build", "ccache"))
    os.environ.setdefault("CCACHE_MAXSIZE", "1G")
    os.environ["CCACHE_SLOPPINESS"] = "time_macros"
    return cc + [compiler, "-include", "array"]


def pmap(fn, items, jobs=None):
    with cf.ThreadPoolExecutor(max_workers=jobs or JOBS) as ex:
        return list(ex.map(fn, items))


def compile_many(jobs):
    """jobs: list of (src, obj, flags)."""
    def one(j):
        src, obj, flags = j[:3]
        must(cxx() + ["-w", "-I", RT, "-I", HARNESS] + list(flags) + ["-c", src, "-o", obj], what="compile")
        return obj
    return pmap(one, jobs)


def link(objs, out, flags=()):
    must(["g++"] + list(objs) + ["-o", out] + list(flags) + ["-lrt", "-pthread", "-ldl"], what="link")
    return out


def gen_helper_code(ctx, std="c++17"):
    """GeneratedCode.cc needed to link the C++17 flavour, made as the project's makefile makes it."""
    d = os.path.join(ctx.build, "genhelper")
    out = os.path.join(d, "GeneratedCode.cc")
    if os.path.exists(out):
        return out
    os.makedirs(d, exist_ok=True)
    i = os.path.join(d, "client.cc.i")
    must(["g++", "-include", "array", "-std=" + std, "-E", "-I", RT, os.path.join(RT, "testHelper", "client.cc"), "-o", i])
    must(["python", os.path.join(PP, "parser.py"), "--mapOutput=" + os.path.join(d, "client.map"), i])
    must(["python", os.path.join(PP, "parser.py"), "--combinedOutput=" + out, os.path.join(d, "client.map")])
    return out


def lib_jobs(ctx, tag, flags, srcs=LIB_SRCS, per_src=None, generated=True):
    """Compile jobs of the C++17 flavour library; returns (jobs, objs)."""
    d = os.path.join(ctx.build, "lib-" + tag)
    os.makedirs(d, exist_ok=True)
    jobs, objs = [], []
    for s in srcs:
        o = os.path.join(d, s.replace(".cc", ".o"))
        fl = list(flags) + list((per_src or {}).get(s, []))
        jobs.append((os.path.join(RT, s), o, fl))
        objs.append(o)
    if generated:
        o = os.path.join(d, "GeneratedCode.o")
        jobs.append((gen_helper_code(ctx), o, list(flags)))
        objs.append(o)
    return jobs, objs


STD = ["-std=c++17"]


def build_decompressor(ctx, tag="plain", flags=("-std=c++17", "-O1", "-g")):
    out = os.path.join(ctx.build, "decompressor-" + tag)
    if os.path.exists(out):
        return out
    jobs, objs = lib_jobs(ctx, "dec-" + tag, flags, srcs=["Cycles.cc", "Util.cc", "Log.cc"])
    d = os.path.dirname(objs[0])
    main = os.path.join(d, "LogDecompressor.o")
    jobs.append((os.path.join(RT, "LogDecompressor.cc"), main, flags))
    compile_many(jobs)
    san = [f for f in flags if f.startswith("-fsanitize")]
    return link(objs + [main], out, san)


def main_wrapper(fn):
    try:
        fn()
    except CheckError as e:
        print("CHECK-ERROR: %s" % e, flush=True)
        sys.stdout.flush()
        os._exit(2)
    except Exception:
        import traceback
        print("CHECK-ERROR: " + traceback.format_exc(), flush=True)
        sys.stdout.flush()
        os._exit(2)
