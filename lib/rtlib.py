"""Multi-threaded histories against the real runtime: generation, execution, judging, shrinking."""
import os, re, random, shutil, subprocess, itertools, threading
import vlib
from vlib import *

LEVELS = ["(none)", "ERROR", "WARNING", "NOTICE", "DEBUG"]

SMALL = [(1024, 2048), (2048, 4096), (512, 1280), (4096, 4096)]
NSITES = 72


def gen_sites(n=NSITES, files=4, more=()):
    """Source text of the log sites: every one has its own literal format, level and line.
    more: further (format, arguments) pairs, as additional sites."""
    base = n
    n += len(more)
    rng = random.Random("sites")
    outs = [["#include \"NanoLogCpp17.h\"", "#include \"rt.h\"", "#include <stdint.h>"] for _ in range(files)]
    names = []
    for k in range(n):
        f = k % files
        lvl = ["NOTICE", "NOTICE", "WARNING", "ERROR", "NOTICE", "DEBUG"][k % 6]
        kind = (rng.randrange(9) if k >= 9 else k) if k < base else -1
        lit = {-1: more[k - base] if k >= base else None,
               0: ("k%d %%d %%d %%s", "t, s, str"),
               1: ("k%d %%d %%d", "t, s"),
               2: ("k%d %%d %%d v=%%ld %%.*s|", "t, s, v, (int)(v & 15), str"),
               3: ("k%d %%d %%d %%u %%lx %%hd %%lld %%5.2f %%c.", "t, s, (unsigned)v, (unsigned long)v, (short)v, (long long)v*31, v/8.0, (char)('a'+(v&15))"),
               4: ("k%d %%d %%d [%%-8s] %%p", "t, s, str, (void*)(uintptr_t)v"),
               5: ("k%d " + "literal text that makes the dictionary entry long " * 3 + "%%d %%d", "t, s"),
               6: ("k%d %%d %%d %%s and %%s", "t, s, str, str + len / 2"),
               7: ("k%d %%d %%d %%ls%%*d", "t, s, (v & 1) ? L\"wide\" : L\"\", (int)(v & 31), (int)v"),
               8: ("k%d static message without arguments", "")}[kind]
        fmt = lit[0] % k
        args = (", " + lit[1]) if lit[1] else ""
        o = outs[f]
        for _ in range(rng.randrange(3)):
            o.append("")
        o.append("void site_%d(int t, int s, long v, const char *str, int len) {" % k)
        o.append('  const int line = __LINE__ + 2;')
        o.append('  rec_begin(t, s, %d, NanoLog::%s, __FILE__, line, "%s"%s);' % (k, lvl, fmt, args))
        o.append('  NANO_LOG(%s, "%s"%s);' % (lvl, fmt, args))
        o.append("  rec_end(t, s);")
        o.append("}")
        names.append("site_%d" % k)
    last = ["#include \"rt.h\""] + ["void %s(int, int, long, const char *, int);" % x for x in names]
    last += ["SiteFn siteTable[] = {%s};" % ", ".join(names), "const int siteCount = %d;" % n]
    return ["\n".join(o) + "\n" for o in outs] + ["\n".join(last) + "\n"]


SITE_LEVEL = [[3, 3, 2, 1, 3, 4][k % 6] for k in range(NSITES)]


class RT:
    """Builds of the scenario interpreter: controlled small-buffer ones, and native production-size ones."""

    def __init__(self, ctx, small=((1024, 2048), (2048, 4096)), native=("prod",), extra=(), configs=(), sites=()):
        """configs: further builds, with other values in Config.h: (name, staging size, output size, {parameter: value}, native)"""
        self.ctx = ctx
        d = os.path.join(ctx.build, "rt")
        os.makedirs(d, exist_ok=True)
        srcs = []
        for i, text in enumerate(gen_sites(more=sites)):
            p = os.path.join(d, "sites%d.cc" % i)
            with open(p, "w") as f:
                f.write(text)
            srcs.append(p)
        gen = gen_helper_code(ctx)
        self.bins = {}
        jobs, links = [], []
        tsan = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]
        base = ["-std=c++17", "-g"] + list(extra)
        dec_objs = []
        dd = os.path.join(d, "dec")
        os.makedirs(dd, exist_ok=True)
        for s in ["Cycles.cc", "Util.cc", "Log.cc"]:
            o = os.path.join(dd, s + ".o")
            jobs.append((os.path.join(RT_DIR, s), o, base + ["-O1"]))
            dec_objs.append(o)
        for s in [gen, os.path.join(HARNESS, "nldec.cc")]:
            o = os.path.join(dd, os.path.basename(s) + ".o")
            jobs.append((s, o, base + ["-O1"]))
            dec_objs.append(o)
        links.append((dec_objs, os.path.join(d, "nldec")))
        csr = os.path.join(d, "csched.o")
        jobs.append((os.path.join(HARNESS, "csched.cc"), csr, ["-std=c++17", "-O2", "-g"]))
        csn = os.path.join(d, "csched_noaio.o")
        jobs.append((os.path.join(HARNESS, "csched.cc"), csn, ["-std=c++17", "-O2", "-g", "-DCSCHED_NO_AIO"]))

        self.cfg = {}       # variant -> (staging buffer size, output buffer size)
        self.defs = {}      # variant -> its parameters in Config.h
        self.decs = {}      # variant -> its own decompressor

        def variant(name, flags, san, cs, src=RT_DIR):
            vd = os.path.join(d, name)
            os.makedirs(vd, exist_ok=True)
            objs = [cs]
            for s in ["Cycles.cc", "Util.cc"]:
                o = os.path.join(vd, s + ".o")
                jobs.append((os.path.join(src, s), o, base + flags))
                objs.append(o)
            for s in ["Log.cc"]:
                o = os.path.join(vd, s + ".o")
                jobs.append((os.path.join(src, s), o, base + flags))
                objs.append(o)
            for s in ["NanoLog.cc", "RuntimeLogger.cc"]:
                o = os.path.join(vd, s + ".o")
                jobs.append((os.path.join(src, s), o, base + flags + san))
                objs.append(o)
            o = os.path.join(vd, "gen.o")
            jobs.append((gen, o, base + flags))
            objs.append(o)
            o = os.path.join(vd, "rt.o")
            jobs.append((os.path.join(HARNESS, "rt.cc"), o, base + flags))
            objs.append(o)
            for s in srcs:
                o = os.path.join(vd, os.path.basename(s) + ".o")
                jobs.append((s, o, base + flags + san))
                objs.append(o)
            out = os.path.join(d, "rt-" + name)
            links.append((objs, out))
            if src != RT_DIR:
                o = os.path.join(vd, "nldec.o")
                jobs.append((os.path.join(HARNESS, "nldec.cc"), o, base + flags))
                keep = ("Cycles.cc.o", "Util.cc.o", "Log.cc.o", "gen.o")
                links.append(([x for x in objs if os.path.basename(x) in keep] + [o], out + "-nldec"))
                self.decs[name] = out + "-nldec"
            self.bins[name] = out
        for st, ou in small:
            variant("s%d_%d" % (st, ou), ["-O1", "-DNANOLOG_VERIF_STAGING_BUFFER_SIZE=%d" % st,
                                         "-DNANOLOG_VERIF_OUTPUT_BUFFER_SIZE=%d" % ou], tsan, csr)
        for n in native:
            if n == "prod":
                variant("prod", ["-O2", "-DNDEBUG"], [], csn)
            elif n == "prodv":      # production sizes, virtual disk with latency
                variant("prodv", ["-O2", "-DNDEBUG"], [], csr)
        self.small = ["s%d_%d" % v for v in small]
        for v, (st, ou) in zip(self.small, small):
            self.cfg[v] = (st, ou)
        for name, st, ou, defs, nat in configs:
            self.cfg[name] = (st, ou)
            self.defs[name] = defs
            src = configured(defs, os.path.join(d, "src-" + name))
            if nat:
                variant(name, ["-I", src, "-O2", "-DNDEBUG"], [], csr, src)
            else:
                variant(name, ["-I", src, "-O1"], tsan, csr, src)
                self.small.append(name)
        jobs.sort(key=lambda j: -("RuntimeLogger" in j[0] or "sites" in j[0]))
        compile_many(jobs)
        pmap(lambda l: link(l[0], l[1]), links)
        self.dec = os.path.join(d, "nldec")
        self.n = itertools.count()

    def run(self, variant, scen, seed=None, timeout=60, env=None, keep=False, aio_us=None):
        """Run one scenario; returns Outcome."""
        d = os.path.join(self.ctx.scratch, "r%d" % next(self.n))
        os.makedirs(d)
        try:
            sp = os.path.join(d, "scen")
            with open(sp, "w") as f:
                f.write(scen.text())
            os.makedirs(os.path.join(d, "sub"))
            for name, data in scen.prefill.items():
                with open(os.path.join(d, name), "wb") as f:
                    f.write(data)
            e = {}
            if seed is not None:
                e["CSCHED_SEED"] = str(seed)
                if scen.limit:
                    e["CSCHED_LIMIT"] = str(scen.limit)
            if aio_us:
                e["CSCHED_AIO_US"] = str(aio_us)
            defs = self.defs.get(variant, {})
            if "O_DIRECT" in defs.get("FILE_PARAMS", ""):
                e["CSCHED_DIRECT"] = "512"
            if "DEFAULT_LOG_FILE" in defs:
                e["RT_DEFAULT_LOG"] = os.path.normpath(defs["DEFAULT_LOG_FILE"].strip('"'))
            e.update(env or {})
            r = run([self.bins[variant], sp, os.path.join(d, "rec"), d], cwd=d, timeout=timeout, env=e)
            try:
                with open(os.path.join(d, "rec"), "rb") as f:
                    rec = f.read()
            except OSError:
                rec = b""
            out = Outcome(r, rec, d)
            out.variant = variant
            out.first = os.path.normpath(os.path.join(d, e.get("RT_DEFAULT_LOG", "compressedLog")))
            return out, d
        except Exception:
            shutil.rmtree(d, ignore_errors=True)
            raise

    def decode(self, reqs, timeout=60, variant=None):
        """reqs: list of (mode, path) -> list of bytes or None (the decoder failed); error text."""
        cmd = [self.decs.get(variant, self.dec)]
        outs = []
        for i, (m, p) in enumerate(reqs):
            o = p + ".out%d" % i
            outs.append(o)
            cmd += [m, p, o]
        r = run(cmd, timeout=timeout)
        res = []
        for o in outs:
            try:
                with open(o, "rb") as f:
                    res.append(f.read())
                os.unlink(o)
            except OSError:
                res.append(None)
        return res, r


RT_DIR = vlib.RT


def configured(defs, dst):
    """A copy of the runtime's sources with other values for parameters of Config.h."""
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    for f in os.listdir(RT_DIR):
        if f.endswith((".h", ".cc")):
            shutil.copy(os.path.join(RT_DIR, f), dst)
    p = os.path.join(dst, "Config.h")
    with open(p) as f:
        t = f.read()
    for k, v in defs.items():
        t, n = re.subn(r"\b%s(\s*\[\s*\])?\s*=\s*[^;]+;" % k, lambda m: "%s%s = %s;" % (k, m.group(1) or "", v), t)
        if not n:
            raise CheckError("Config.h defines no " + k)
    with open(p, "w") as f:
        f.write(t)
    return dst


class Scen:
    def __init__(self, threads, prefill=None, limit=None):
        self.threads = threads      # {index: [op strings]}
        self.prefill = prefill or {}
        self.limit = limit

    def text(self):
        return "".join("T%d %s\n" % (t, " ".join(o)) for t, o in sorted(self.threads.items()))

    def size(self):
        return sum(len(o) for o in self.threads.values())


class Msg:
    __slots__ = ("t", "s", "site", "lvl", "cur", "file", "line", "text", "b", "e")


class Outcome:
    """The recorded history of a run, as a list of events in real-time order."""

    def __init__(self, res, rec, d):
        self.rc, self.timeout = res.rc, res.timeout
        self.stderr = res.err.decode(errors="replace")
        self.stdout = res.out.decode(errors="replace")
        self.dir = d
        self.events = []
        self.msgs = {}          # (t, s) -> Msg
        pos, n, idx = 0, len(rec), 0
        self.complete_record = True
        while pos < n:
            k = rec[pos:pos + 1]
            if k == b"B":
                hdr = rec[pos:pos + 700].split(b" ", 9)
                if len(hdr) < 10:
                    self.complete_record = False
                    break
                h = b" ".join(hdr[:9])
                ln = int(hdr[8])
                start = pos + len(h) + 1
                text = rec[start:start + ln]
                if len(text) < ln:
                    self.complete_record = False
                    break
                m = Msg()
                m.t, m.s, m.site, m.lvl, m.cur = (int(x) for x in hdr[1:6])
                m.file, m.line, m.text, m.b, m.e = hdr[6].decode(), int(hdr[7]), text, idx, None
                self.msgs[(m.t, m.s)] = m
                self.events.append(("B", m))
                pos = start + ln + 1
            elif k in (b"A", b"H"):
                hdr = rec[pos:pos + 60].split(b" ", 3)
                ln = int(hdr[2])
                start = pos + len(b" ".join(hdr[:3])) + 1
                self.events.append((k.decode(), int(hdr[1]), rec[start:start + ln].decode(errors="replace")))
                pos = start + ln + 1
            else:
                e = rec.find(b"\n", pos)
                if e < 0:
                    break
                w = rec[pos:e].decode(errors="replace").split(" ")
                if w[0] == "E":
                    m = self.msgs[(int(w[1]), int(w[2]))]
                    m.e = idx
                    self.events.append(("E", m))
                else:
                    self.events.append(tuple(w))
                pos = e + 1
            idx += 1

    def by_thread(self):
        r = {}
        for (t, s), m in sorted(self.msgs.items()):
            r.setdefault(t, []).append(m)
        return r


LINE = re.compile(rb"(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{9}) (\S+):(\d+) (\S+)\[(\d+)\]: ")


class BadOutput(Exception):
    pass


def parse_decoded(data, final=True):
    """Decoded text -> (list of (runtime id, file, line, level, text, time)), number of new-execution markers.
    Message texts of the rt harness contain neither CR nor LF, so lines are unambiguous."""
    out, marks = [], []
    tail = None
    for ln in data.split(b"\r\n"):
        if not ln:
            continue
        if ln.startswith(b"# New execution started"):
            marks.append(len(out))
            continue
        if ln.startswith(b"# Decompression Complete"):
            tail = int(ln.split(b"printing ")[1].split(b" ")[0])
            continue
        m = LINE.match(ln)
        if not m:
            raise BadOutput("not a log line: %r" % ln[:200])
        out.append((int(m.group(5)), m.group(2).decode(), int(m.group(3)), m.group(4).decode(), ln[m.end():], m.group(1)))
    return out, marks, tail


def streams(decoded):
    r = {}
    for rid, f, line, lvl, text, tm in decoded:
        r.setdefault(rid, []).append((f, line, lvl, text))
    return r


def key(m):
    return (m.file, m.line, LEVELS[m.lvl], m.text)


def match_threads(exp, dec, partial_ok=None):
    """exp: {logical t: [Msg]} the accepted messages; dec: {runtime id: [keys]}.
    Every runtime stream must be the stream of exactly one logical thread. Returns None or a description.
    partial_ok: {t: minimum length}: the stream may be a prefix of at least that length."""
    left = {t: [key(m) for m in ms] for t, ms in exp.items() if ms}
    used = {}
    for rid, ks in sorted(dec.items()):
        cands = [t for t, es in left.items() if t not in used and ks and es[:1] == ks[:1]]
        full = [t for t in cands if (left[t] == ks if partial_ok is None else left[t][:len(ks)] == ks)]
        if not full:
            if cands:
                t = cands[0]
                es = left[t]
                i = next((i for i, (a, b) in enumerate(zip(es, ks)) if a != b), min(len(es), len(ks)))
                return "thread %d (runtime id %d): message %d: expected %s, decoded %s (%d expected, %d decoded)" % (
                    t, rid, i, repr(es[i])[:200] if i < len(es) else "end", repr(ks[i])[:200] if i < len(ks) else "end",
                    len(es), len(ks))
            return "runtime id %d: stream starts with %r, which no remaining thread logged first" % (rid, ks[:1])
        # prefer the longest required
        full.sort(key=lambda t: -(partial_ok or {}).get(t, 0))
        used[full[0]] = len(ks)
    for t, es in left.items():
        need = len(es) if partial_ok is None else partial_ok.get(t, 0)
        if used.get(t, 0) < need:
            return "thread %d: only %d of %d messages decoded%s" % (t, used.get(t, 0), need,
                   "" if used.get(t) else " (none)")
    return None


def shrink(scen, fails, budget=80):
    """Greedy removal of threads, then chunks of ops, while `fails(scen)` stays true."""
    tries = [0]

    def ok(s):
        if tries[0] >= budget:
            return False
        tries[0] += 1
        return fails(s)
    cur = scen
    for t in sorted(cur.threads, reverse=True):     # whole threads
        if t == 0:
            continue
        gone = {(t, i) for i in range(len(cur.threads[t]))}
        for u, ops in cur.threads.items():
            gone |= {(u, i) for i, o in enumerate(ops) if o in ("c%d" % t, "j%d" % t) or o.startswith("w%d," % t)}
        cand = without(cur, gone)
        del cand.threads[t]
        if ok(cand):
            cur = cand
    for t in sorted(cur.threads):
        n = max(1, len(cur.threads[t]) // 2)
        while n >= 1 and tries[0] < budget:
            i = 0
            while i < len(cur.threads[t]) and tries[0] < budget:
                gone = {(t, j) for j in range(i, min(i + n, len(cur.threads[t]))) if cur.threads[t][j][0] not in "cjwx"}
                cand = without(cur, gone)
                if gone and ok(cand):
                    cur = cand
                    i += n - len(gone)
                else:
                    i += n
            n //= 2
    return cur


def without(scen, gone):
    """The scenario without the (thread, index) operations in gone; waits for operation counts follow."""
    th = {}
    for t, ops in scen.threads.items():
        new = []
        for i, o in enumerate(ops):
            if (t, i) in gone:
                continue
            if o[0] == "w":
                u, k = (int(x) for x in o[1:].split(","))
                if k < 1000000:
                    k -= sum(1 for (v, j) in gone if v == u and j < k)
                o = "w%d,%d" % (u, k)
            new.append(o)
        th[t] = new
    return Scen(th, scen.prefill, scen.limit)


# ---- generation ----------------------------------------------------------------
def max_str(st, ou):
    """Longest string argument such that no message reaches the documented size limit."""
    entry = min(st // 2 - 1, (ou - 64) // 2)
    return max(4, int((entry - 110) / 1.6))


class Gen:
    """Random multi-threaded histories. `feat` selects what the property is about."""

    def __init__(self, rng, st, ou, feat):
        self.r, self.feat = rng, feat
        self.max = max_str(st, ou)
        self.st = st
        self.sites = rng.sample(range(NSITES), rng.choice([1, 2, 4, 8, 20]))
        self.dist = rng.choice(["tiny", "mix", "big", "edge"])

    def log(self):
        r = self.r
        if self.dist == "tiny":
            n = r.randrange(8)
        elif self.dist == "big":
            n = r.randrange(self.max // 2, self.max + 1)
        elif self.dist == "edge":
            n = r.choice([0, 1, self.max, self.max - r.randrange(8), self.max // 2])
        else:
            n = r.choice([0, r.randrange(16), r.randrange(self.max + 1)])
        v = r.choice([r.randrange(256), r.getrandbits(40), -r.randrange(1, 70000), r.getrandbits(16)])
        return "l%d,%d,%d" % (r.choice(self.sites), n, v)

    def logs(self, n):
        return [self.log() for _ in range(n)]

    def pause(self):
        return "d%d" % self.r.choice([1, 5, 40, 300, 2000])

    def worker(self, n):
        r = self.r
        ops = []
        if r.random() < .2:
            ops.append("p")
        for _ in range(n):
            ops.append(self.log())
            if r.random() < .08:
                ops.append(self.pause())
            if "sync" in self.feat and "files" not in self.feat and r.random() < self.psync:
                ops.append("s")
            elif r.random() < .01 and "files" not in self.feat:
                ops.append("s")
        if r.random() < .15:
            ops.append(self.pause())
        return ops

    def scen(self):
        r, feat = self.r, self.feat
        self.psync = r.choice([0, .05, .3])
        nt = r.choice([0, 1, 1, 2, 2, 3, 4, 6]) if "many" not in feat else r.choice([2, 3, 4, 6, 9, 16])
        T = {}
        shape = r.choice(["short", "mid", "mid", "long"])
        ln = lambda: {"short": r.randrange(0, 5), "mid": r.randrange(0, 25), "long": r.randrange(20, 90)}[shape]
        main = []
        if r.random() < .85:
            main.append("v4")
        if r.random() < .3:
            main += self.logs(r.randrange(4))
        unjoined, created = [], []
        nxt = 1
        syncp = .25 if "sync" in feat else .06
        kfile = 1

        def step():
            nonlocal kfile
            x = r.random()
            if "files" in feat and x < .35:
                y = r.random()
                if y < .6:
                    main.append("f%d" % kfile)
                    kfile += 1
                elif y < .8:
                    main.append("f%d" % r.randrange(0, kfile))
                else:
                    main.append("fu%d" % r.randrange(4))
                if r.random() < .3:
                    main.append("s")
            elif "levels" in feat and x < .3 and not unjoined:
                main.append("v%d" % r.randrange(5))
                main.append("g")
            elif x < .55:
                main.extend(self.logs(r.randrange(0, 6)))
            if r.random() < syncp:
                main.append("s")
            if r.random() < .2:
                main.append(self.pause())
            if "stats" in feat and r.random() < .3:
                main.extend(["s", "a", "h"])
        alive_end = "exit" in feat and r.random() < .3
        for t in range(1, nt + 1):
            T[t] = self.worker(ln())
            main.append("c%d" % t)
            created.append(t)
            unjoined.append(t)
            if r.random() < .5:
                step()
            while unjoined and r.random() < .35:
                u = r.choice(unjoined)
                y = r.random()
                if y < .6:
                    main.append("j%d" % u)
                    unjoined.remove(u)
                else:
                    main.append("w%d,%d" % (u, r.randrange(len(T[u]) + 1)))
                    break
                if r.random() < .4:
                    step()
            if "levels" in feat:
                while unjoined:
                    main.append("j%d" % unjoined.pop(r.randrange(len(unjoined))))
        for _ in range(r.randrange(1, 4)):
            step()
        r.shuffle(unjoined)
        for u in list(unjoined):
            if alive_end and r.random() < .6:
                # stays alive (parked for ever) while the process exits
                T[u] = T[u] + ["w0,1000000"]
                main.append("w%d,%d" % (u, len(T[u]) - 1))
            else:
                main.append("j%d" % u)
            if r.random() < .3:
                step()
        if r.random() < .5:
            main += self.logs(r.randrange(0, 8))
        if r.random() < (.2 if "exit" in feat else .5):
            main.append("s")
            if "stats" in feat:
                main += ["a", "h"]
        if r.random() < .3:
            main.append("x")
        T[0] = main
        return Scen(T, limit=40000000)


def exit_burst(rng, st, ou):
    """Directed shapes for thread exit: several finished threads whose buffers precede a live, busy one."""
    g = Gen(rng, st, ou, ())
    T, main = {}, ["v4"]
    n = rng.randrange(2, 8)
    order = list(range(1, n + 1))
    for t in order:
        T[t] = (["p"] if rng.random() < .3 else []) + g.logs(rng.choice([0, 1, 1, 3, 10]))
        main.append("c%d" % t)
        if rng.random() < .6:
            main.append("w%d,%d" % (t, min(1, len(T[t]))))
    if rng.random() < .5:
        main += g.logs(rng.randrange(3))
    if rng.random() < .5:
        main.append("s")
    rng.shuffle(order)
    keep = order[:rng.randrange(0, 3)]
    for t in order:
        if t not in keep:
            main.append("j%d" % t)
    for t in keep:
        k = len(T[t])
        T[t] += ["w0,%d" % len(main)] + g.logs(rng.randrange(1, 12))
        if rng.random() < .5:
            main.append("w%d,%d" % (t, len(T[t])))
        else:
            main.append("j%d" % t)
    main += g.logs(rng.randrange(0, 4))
    if rng.random() < .5:
        main += ["s"]
    for t in keep:
        if "j%d" % t not in main and rng.random() < .8:
            main.append("j%d" % t)
    T[0] = main
    return Scen(T, limit=40000000)


# ---- judging --------------------------------------------------------------------
class Verdict(Exception):
    pass


def accepted(m):
    return m.lvl <= m.cur


def judge_end(out):
    if out.timeout:
        return "the program did not terminate within the time limit"
    if out.rc == 97:
        return "deadlock: no thread can make progress (%s)" % out.stderr.strip()[-300:]
    if out.rc == 98:
        return "no progress: the program never finishes (%s)" % out.stderr.strip()[-300:]
    if out.rc in (95, 96, 99):
        raise CheckError("harness failure rc=%s %s" % (out.rc, out.stderr[-500:]))
    if out.rc != 0:
        return "the program ended with status %s: %s" % (out.rc, out.stderr.strip()[-600:])
    return None


def epochs_of(out):
    """([path, F idx, f idx, endF, endf] of every successful switch, problem)"""
    epochs = [[out.first, 0, 0, None, None]]
    pendF = None
    for i, e in enumerate(out.events):
        if e[0] == "F":
            pendF = i
        elif e[0] == "f":
            usable = e[3] and not (e[3].endswith("/nonexistent-dir/x/f") or e[3].endswith("/sub"))
            if e[3].endswith("/ro"):
                usable = e[2] == "1"
            if (e[2] == "1") != bool(usable):
                return None, "setLogFile(%r) %s" % (e[3], "succeeded" if e[2] == "1" else "failed on a usable path")
            if e[2] == "1":
                epochs[-1][3], epochs[-1][4] = pendF, i
                epochs.append([e[3], pendF, i, None, None])
    return epochs, None


# Histories with failing writes.
def faulty_scen(rng, st, ou):
    sc = Gen(rng, st, ou, ("files",)).scen()
    return with_faults(rng, sc, st, ou)


def with_faults(rng, sc, st, ou):
    main = sc.threads[0] = sc.threads[0] or ["g"]
    g = Gen(rng, st, ou, ())
    for k in range(rng.choice([1, 1, 2, 3])):
        at = rng.randrange(1 if main[0] == "v4" else 0, len(main) + (main[-1] != "x"))
        ins = ["e%d,%d" % (rng.choice([1, 1, 2, 5, 1000]), rng.randrange(3))]
        ins += g.logs(rng.randrange(4))
        if rng.random() < .5:
            ins.append("s")
        main[at:at] = ins
        if rng.random() < .8:      # the disk recovers and another file is opened
            at += len(ins) + rng.randrange(0, 4)
            if at > len(main) - (main[-1] == "x"):
                at = len(main) - (main[-1] == "x")
            main[at:at] = ["e0,0", "f%d" % (100 + k)] + g.logs(rng.randrange(5)) + (["s"] if rng.random() < .4 else [])
    return sc


def judge_faults(rt, out, info):
    """Everything completes; files to which no write failed are exact; a file is readable up to its first failed write."""
    bad = judge_end(out)
    if bad:
        return bad
    ev = out.events
    epochs, bad = epochs_of(out)
    if bad:
        return bad
    fails = {}          # path -> size at the first failed write
    nf = 0
    firstfail = None
    for i, e in enumerate(ev):
        if e[0] == "I":
            nf += 1
            fails.setdefault(e[2], int(e[1]))
            firstfail = i if firstfail is None else firstfail
    info["failed_writes"] = nf
    info["epochs"] = len(epochs)
    reqs = []
    paths = []
    for ep in epochs:
        p = ep[0]
        if p in paths or fails.get(p, 1) <= 0:
            continue
        paths.append(p)
        if p in fails:
            q = p + ".prefix"
            with open(p, "rb") as f:
                data = f.read(fails[p])
            with open(q, "wb") as f:
                f.write(data)
            reqs.append(("u", q))
        else:
            reqs.append(("u", p))
    if not reqs:
        return None
    res, r = rt.decode(reqs, variant=out.variant)
    if r.timeout:
        return "decompression does not terminate"
    if r.rc != 0:
        k = next((i for i, x in enumerate(res) if x is None), len(res) - 1)
        return "decompression of %s failed (status %s): %s" % (os.path.basename(reqs[k][1]), r.rc, r.err.decode(errors="replace")[-300:])
    exp = {t: [m for m in ms if accepted(m)] for t, ms in out.by_thread().items()}
    keys = {t: [key(m) for m in ms] for t, ms in exp.items()}
    after = 0
    for p, data in zip(paths, res):
        try:
            dec, marks, tail = parse_decoded(data)
        except BadOutput as e:
            return "undecodable output in %s: %s" % (os.path.basename(p), e)
        segs = [dec[a:b] for a, b in zip([0] + marks, marks + [len(dec)])]
        mine = [ep for ep in epochs if ep[0] == p]
        if p not in fails and len(segs) != len(mine):
            return "file %s holds %d executions, expected %d" % (os.path.basename(p), len(segs), len(mine))
        for ep, sg in zip(mine, segs):
            _, F, f, eF, ef = ep
            st = streams(sg)
            cand = {}
            need = {}
            for t, ms in exp.items():
                req = [i for i, m in enumerate(ms) if (f == 0 or m.b > f) and m.e is not None and (eF is None or m.e < eF)] if p not in fails else []
                need[t] = (req[0], req[-1] + 1) if req else None
                lo = 0
                while F and lo < len(ms) and ms[lo].e is not None and ms[lo].e < F:
                    lo += 1
                hi = len(ms)
                while ef is not None and hi > lo and ms[hi - 1].b > ef:
                    hi -= 1
                for rid, ks in st.items():
                    n = len(ks)
                    for a in range(lo, hi - n + 1):
                        if keys[t][a] == ks[0] and keys[t][a:a + n] == ks and (need[t] is None or (a <= need[t][0] and a + n >= need[t][1])):
                            cand.setdefault(rid, set()).add(t)
                            break
            match = {}          # thread -> rid

            def place(rid, seen):
                for t in sorted(cand.get(rid, ()), key=lambda t: need[t] is None):
                    if t not in seen:
                        seen.add(t)
                        if t not in match or place(match[t], seen):
                            match[t] = rid
                            return True
                return False
            for rid in sorted(st):
                if not place(rid, set()):
                    return "file %s: the %d messages of runtime id %d are not a consecutive part of what one thread logged while the file was in use (first: %r)" % (
                        os.path.basename(p), len(st[rid]), rid, st[rid][0][3][:80])
            for t in exp:
                if need[t] and t not in match:
                    # threads with the same messages are interchangeable
                    if any(u != t and keys[u][need[t][0]:need[t][1]] == keys[t][need[t][0]:need[t][1]] for u in match):
                        continue
                    return "file %s: %d messages of thread %d logged while it was in use are missing although no write to it failed" % (os.path.basename(p), need[t][1] - need[t][0], t)
            if firstfail is not None and f > firstfail and p not in fails:
                after += len(sg)
    info["after_failures"] = after
    info["msgs"] = after if nf else 0
    return None


judge_faults.whole = True


def judge(rt, out, rng, max_prefix=4, modes="u", info=None):
    """None, or what is wrong with this run. `info` (dict) collects facts about the case."""
    info = info if info is not None else {}
    bad = judge_end(out)
    if bad:
        return bad
    d = out.dir
    ev = out.events
    epochs, bad = epochs_of(out)
    if bad:
        return bad
    info["epochs"] = len(epochs)
    paths = []
    for ep in epochs:
        if ep[0] not in paths:
            paths.append(ep[0])
            if not os.path.exists(ep[0]):
                return "the log file %s does not exist" % os.path.relpath(ep[0], d)
    reqs = []
    for p in paths:
        for m in modes:
            reqs.append((m, p))
    # sync prefixes
    syncs = []
    pend = {}
    for i, e in enumerate(ev):
        if e[0] == "S":
            pend[e[1]] = i
        elif e[0] == "R":
            syncs.append((pend[e[1]], i, int(e[3]), e[4], int(e[1])))
    info["syncs"] = len(syncs)
    pick = syncs if len(syncs) <= max_prefix else rng.sample(syncs, max_prefix)
    pre = []
    for n, (s, r, size, path, t) in enumerate(pick):
        pp = os.path.join(d, "prefix%d" % n)
        with open(path, "rb") as f:
            data = f.read(size)
        with open(pp, "wb") as f:
            f.write(data)
        pre.append(pp)
        reqs.append(("u", pp))
    res, r = rt.decode(reqs, variant=out.variant)
    if r.timeout:
        return "decompression does not terminate"
    if r.rc != 0:
        k = next((i for i, x in enumerate(res) if x is None), len(res) - 1)
        return "decompression of %s failed (status %s): %s" % (os.path.basename(reqs[k][1]), r.rc, r.err.decode(errors="replace")[-300:])
    exp = {}
    for t, ms in out.by_thread().items():
        exp[t] = [m for m in ms if accepted(m)]
    try:
        segs = {}       # path -> list of segments (decoded lists)
        for k, (m, p) in enumerate(reqs[:len(paths) * len(modes)]):
            dec, marks, tail = parse_decoded(res[k])
            if tail is not None and tail != len(dec):
                return "the decompressor reports %d messages but printed %d" % (tail, len(dec))
            sg = [dec[a:b] for a, b in zip([0] + marks, marks + [len(dec)])]
            if p in segs:       # another mode of the same file
                if len(sg) != len(segs[p]):
                    return "mode %s sees %d executions, unordered %d" % (m, len(sg), len(segs[p]))
                for a, b in zip(sg, segs[p]):
                    if streams(a) != streams(b):
                        return "mode %s and unordered decompression disagree on %s" % (m, os.path.basename(p))
            else:
                segs[p] = sg
        npre = {p: (rt_prefill_segments(p)) for p in paths}
        used = dict(npre)
        eseg = []
        for ep in epochs:
            k = used[ep[0]]
            used[ep[0]] += 1
            if k >= len(segs[ep[0]]):
                return "file %s holds %d executions, expected more (epoch %d missing)" % (os.path.basename(ep[0]), len(segs[ep[0]]), k)
            eseg.append(segs[ep[0]][k])
        for p in paths:
            if used[p] != len(segs[p]):
                return "file %s holds %d executions, expected %d" % (os.path.basename(p), len(segs[p]), used[p])
        total = {}
        counts = []     # per epoch: {rid: cumulative count}
        for sg in eseg:
            for rid, ks in streams(sg).items():
                total.setdefault(rid, []).extend(ks)
            counts.append({rid: len(ks) for rid, ks in total.items()})
        bad = match_threads(exp, total)
        if bad:
            return bad
        info["msgs"] = sum(len(x) for x in exp.values())
        bad = None
        for rid2t in assignments(exp, total):
            info["threads"] = len(rid2t)
            info["rid2t"] = rid2t
            bad = (check_bounds(rid2t, exp, epochs, counts) or
                   check_syncs(rid2t, exp, epochs, counts, npre, list(zip(pick, pre, res[len(paths) * len(modes):]))) or
                   judge_stats(rt, out, exp, epochs, info))
            if not bad:
                return None
        return bad
    except BadOutput as e:
        return "undecodable output: %s" % e


def check_bounds(rid2t, exp, epochs, counts):
    for k, ep in enumerate(epochs[:-1]):
        for rid, t in rid2t.items():
            c = counts[k].get(rid, 0)
            lo = sum(1 for m in exp[t] if m.e is not None and m.e < ep[3])
            hi = sum(1 for m in exp[t] if m.b < ep[4])
            if not lo <= c <= hi:
                return ("thread %d: %d messages are in the files before switch %d; %d were logged before it began and "
                        "%d before it returned" % (t, c, k + 1, lo, hi))
    return None


def check_syncs(rid2t, exp, epochs, counts, npre, items):
    for (s, rr, size, path, t0), pp, data in items:
        k = max(i for i, ep in enumerate(epochs) if ep[2] <= s)
        dec, marks, tail = parse_decoded(data)
        sg = [dec[a:b] for a, b in zip([0] + marks, marks + [len(dec)])]
        st = streams(sg[-1])
        idx = npre[path] + sum(1 for ep in epochs[:k] if ep[0] == path)
        if len(sg) - 1 != idx:
            return "at the return of sync the file holds %d executions, expected %d" % (len(sg), idx + 1)
        for rid, t in rid2t.items():
            base = counts[k - 1].get(rid, 0) if k else 0
            need = sum(1 for m in exp[t] if m.e is not None and m.e < s) - base
            got = len(st.get(rid, []))
            if got < need:
                m = exp[t][base + got]
                return ("sync() by thread %d returned with %d of %d earlier messages of thread %d in the file (missing: %r)"
                        % (t0, got, need, t, m.text[:80]))
            if st.get(rid, []) != [key(m) for m in exp[t][base:base + got]]:
                return "the file at the return of sync() decodes differently from the final file (thread %d)" % t
    return None


def rt_prefill_segments(p):
    return 0


def assignments(exp, total):
    """Possible maps runtime id -> logical thread (match_threads has succeeded). Threads that logged identical streams
    cannot be told apart, so every pairing of theirs is a candidate explanation."""
    ks = {}
    for t, ms in exp.items():
        if ms:
            ks.setdefault(tuple(key(m) for m in ms), []).append(t)
    groups = {}
    for rid, st in total.items():
        groups.setdefault(tuple(st), []).append(rid)
    fixed, amb = {}, []
    for st, rids in groups.items():
        ts = ks[st]
        if len(rids) == 1:
            fixed[rids[0]] = ts[0]
        else:
            amb.append([dict(zip(rids, p)) for p in itertools.permutations(ts)] if len(rids) <= 5 else [None] * 501)
    n = 1
    for x in amb:
        n *= len(x)
    if n > 500:
        return              # too many indistinguishable threads to attribute anything
    for combo in itertools.product(*amb):
        r = dict(fixed)
        for c in combo:
            r.update(c)
        yield r


WROTE = re.compile(r"Wrote (\d+) events")
BYTES = re.compile(r"\((\d+) bytes in, (\d+) bytes out, (\d+) pad bytes\)")


def judge_stats(rt, out, exp, epochs, info):
    ev = out.events
    last_sync = None        # (S index) of the latest sync that returned, by thread
    for i, e in enumerate(ev):
        if e[0] == "R":
            s = max(j for j in range(i) if ev[j][0] == "S" and ev[j][1] == e[1] and ev[j][2] == e[2])
            last_sync = (s, i)
        elif e[0] in "AH" and last_sync:
            s = last_sync[0]
            allm = [m for ms in exp.values() for m in ms]
            if any((m.e is None or m.e > s) and m.b < i for m in allm):
                continue            # something was logged after the sync: not quiescent
            if any(x[0] in "Ff" for x in ev[s:i]):
                continue
            done = sum(1 for m in allm if m.e is not None and m.e < s)
            if e[0] == "A":
                info["stats"] = info.get("stats", 0) + 1
                w, b = WROTE.search(e[2]), BYTES.search(e[2])
                if not w or not b:
                    return "getStats() reports no event or byte count: %r" % e[2][:300]
                if int(w.group(1)) != done:
                    return "getStats() reports %s events, %d messages were recorded" % (w.group(1), done)
                # bytes written up to here: compare at the last quiescent point only (nothing logged afterwards)
                if not any(m.b > i for m in allm) and not any(x[0] == "f" and x[2] == "1" for x in ev[i:]):
                    size = sum(os.path.getsize(p) for p in set(ep[0] for ep in epochs))
                    info["bytestats"] = 1
                    if int(b.group(2)) != size:
                        return "getStats() reports %s bytes out, the log files have %d" % (b.group(2), size)
            else:
                info["hist"] = info.get("hist", 0) + 1
                per = dict((int(a), int(c)) for a, c in re.findall(r"Thread (\d+):\s+Allocations\s+: (\d+)", e[2]))
                for rid, t in info["rid2t"].items():
                    if rid in per:
                        n = sum(1 for m in exp[t] if m.b < i)
                        if per[rid] != n:
                            return "getHistograms() reports %d allocations for thread %d, which logged %d messages" % (per[rid], rid, n)
    return None


# ---- campaign -------------------------------------------------------------------
def campaign(ctx, rt, feat, n_small, n_native, modes=("u",), directed=None, native_gen=None, budget_s=None, ext=None, tag="", gen=None):
    """Run scenarios in parallel; report the first failure, shrunk and replayed."""
    stop = threading.Event()
    lock = threading.Lock()
    fail = []
    variants = rt.small
    natives = [v for v in rt.bins if v not in variants]

    def one(i):
        if stop.is_set() or (budget_s and ctx.elapsed() > budget_s):
            return
        rng = ctx.sub_rng("%scase%d" % (tag, i))
        native = i >= n_small
        if native:
            variant = rng.choice(natives)
            st, ou = rt.cfg.get(variant, (1 << 20, 1 << 26))
            seed = None
        else:
            variant = rng.choice(variants)
            st, ou = rt.cfg[variant]
            seed = rng.randrange(1 << 40)
        if native:
            sc = native_gen(rng, st, ou) if native_gen else native_scen(rng, feat)
            reps = 1
        else:
            sc = gen(rng, st, ou) if gen else directed(rng, st, ou) if directed and rng.random() < .35 else Gen(rng, st, ou, feat).scen()
            reps = 3            # several schedules of the same history
        for k in range(reps):
            sd = None if native else seed + k
            aio = rng.choice([0, 0, 300, 5000]) if native else None
            info = {}
            mode = modes[(i + k) % len(modes)]
            bad = attempt(rt, variant, sc, sd, rng, mode, info, aio, ext)
            with lock:
                sw = info.get("switches", 0)
                ctx.count((variant, sc.text(), sd), nontrivial=info.get("nontrivial", False))
                for f in ("syncs", "epochs", "stats", "hist", "bytestats", "msgs", "ordered_runs", "blocked_runs", "failed_writes", "after_failures"):
                    if f in info:
                        ctx.extra[f] = ctx.extra.get(f, 0) + info[f]
                ctx.extra["native_runs" if native else "controlled_runs"] = ctx.extra.get("native_runs" if native else "controlled_runs", 0) + 1
                ctx.extra["context_switches"] = ctx.extra.get("context_switches", 0) + sw
                if info.get("nontrivial") and not native and sc.size() < 40:
                    ctx.sample({"variant": variant, "schedule_seed": sd, "scenario": sc.text().split("\n")}, 3)
            if bad:
                with lock:
                    if stop.is_set():
                        return
                    stop.set()
                    fail.append((variant, sc, sd, mode, aio, bad))
                return
    pmap(one, list(range(n_small + n_native)))
    if not fail:
        return
    variant, sc, sd, mode, aio, bad = fail[0]
    report(ctx, rt, variant, sc, sd, mode, aio, bad, ext)


def attempt(rt, variant, sc, sd, rng, mode, info, aio=None, ext=None):
    out, d = rt.run(variant, sc, sd, timeout=120, aio_us=aio)
    try:
        if getattr(ext, "whole", False):        # judges on its own
            bad = ext(rt, out, info)
        else:
            bad = judge(rt, out, random.Random(str(sd)), modes=mode, info=info)
            if not bad and ext:
                bad = ext(rt, out, info)
        q = [e for e in out.events if e[0] == "Q"]
        if q:
            info["switches"] = int(q[-1][2])
        info["nontrivial"] = info.get("msgs", 0) >= 2 and (sd is None or info.get("switches", 0) >= 10 or not q)
        return bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def report(ctx, rt, variant, sc, sd, mode, aio, bad, ext=None):
    reps = 3
    rng = random.Random(0)
    tries = [0]
    hits = sum(1 for _ in range(reps) if attempt(rt, variant, sc, sd, rng, mode, {}, aio, ext))
    if sd is not None and hits < reps:
        # a controlled run is a pure function of its seed, save for time stamps: retry on close schedules
        extra = sum(1 for k in range(1, 40) if attempt(rt, variant, sc, sd + k, rng, mode, {}, aio, ext))
        if hits + extra < 2:
            ctx.extra.setdefault("unconfirmed", []).append(bad)
            return
    if sd is None and hits == 0:
        extra = sum(1 for k in range(20) if attempt(rt, variant, sc, None, rng, mode, {}, aio, ext))
        if extra == 0:
            ctx.extra.setdefault("unconfirmed", []).append(bad)
            return

    last = [sc, sd, bad]

    def fails(s):
        for k in range(6 if sd is not None else 4):
            sd2 = None if sd is None else sd + k
            b = attempt(rt, variant, s, sd2, rng, mode, {}, aio, ext)
            if b:
                last[0], last[1], last[2] = s, sd2, b
                return True
        return False
    shrink(sc, fails, 60 if sd is not None else 15)
    s, sd2, b = last
    txt = "variant %s\nschedule seed %s\naio_us %s\nmode %s\nproblem %s\nscenario:\n%s" % (variant, sd2, aio, mode, b.replace("\n", " "), s.text())
    p = ctx.save_replay("case-%s.txt" % ctx.seed, txt)
    ctx.violation(b + "\n" + txt[:1500], p)


def native_scen(rng, feat):
    """Production-size buffers: enough volume to fill and wrap the 1 MB staging buffers."""
    g = Gen(rng, 1 << 20, 1 << 26, feat)
    g.psync = 0
    nt = rng.randrange(1, 5)
    T, main = {}, ["v4"]
    for t in range(1, nt + 1):
        ops = []
        if rng.random() < .6:
            n = rng.randrange(2, 14)
            ops = ["l%d,%d,%d" % (rng.choice(g.sites), rng.choice([300000, rng.randrange(320000), rng.randrange(1000)]), rng.randrange(99)) for _ in range(n)]
        else:
            ops = ["l%d,%d,%d" % (rng.choice(g.sites), rng.randrange(60), rng.getrandbits(20)) for _ in range(rng.randrange(50, 3000))]
        if "sync" in feat and "files" not in feat:
            for _ in range(rng.randrange(0, 5)):
                ops.insert(rng.randrange(len(ops) + 1), "s")
        T[t] = ops
        main.append("c%d" % t)
        main += g.logs(rng.randrange(3)) if g.dist in ("tiny",) else ["l%d,9,5" % rng.choice(g.sites)]
        if rng.random() < .3:
            main.append("s")
        if "files" in feat and rng.random() < .6:
            main.append("f%d" % rng.randrange(4))
    for t in range(1, nt + 1):
        main.append("j%d" % t)
        if rng.random() < .3:
            main.append("s")
        if "files" in feat and rng.random() < .6:
            main.append("f%d" % rng.randrange(4))
            main.append("l%d,9,5" % rng.choice(g.sites))
    if "stats" in feat:
        main += ["s", "a", "h"]
    elif "exit" not in feat and rng.random() < .5:
        main.append("s")
    T[0] = main
    return Scen(T)


# ---- the checks built on this -----------------------------------------------------
def replay(rt, path, ext=None):
    """Re-run a saved reproduction; prints the problem and returns 1 if it still fails."""
    import ast
    with open(path) as f:
        t = f.read()
    hdr, scen = t.split("scenario:\n", 1)
    h = dict(l.split(" ", 1) for l in hdr.replace("schedule seed", "seed").split("\n") if " " in l)
    sd = ast.literal_eval(h["seed"])
    sc = Scen({int(l.split(" ")[0][1:]): l.split(" ")[1:] for l in scen.split("\n") if l}, limit=40000000)
    for _ in range(1 if sd is not None else 20):
        bad = attempt(rt, h["variant"], sc, sd, random.Random(0), h.get("mode", "u"), {}, ast.literal_eval(h["aio_us"]), ext)
        if bad:
            print(bad)
            return 1
    print("no failure")
    return 0


RULE = ("a case is one generated multi-threaded history run under one schedule; non-trivial when at least two messages were "
        "accepted and (controlled runs) at least ten context switches happened; cases differ in history, buffer sizes or schedule seed")


def rt_main(prop, plan, quick_s=None, thorough_s=1500, ext=None, small=((1024, 2048), (2048, 4096), (512, 1280)), more=None,
            gen=None, native=("prod", "prodv"), native_gen=None, configs=None, sites=()):
    """plan: list of (feat, n_small, n_native, modes, directed)."""
    def go():
        ctx = Ctx(prop)
        rt = RT(ctx, small=small, native=native, configs=configs(ctx) if configs else (), sites=sites)
        if len(sys.argv) > 2 and sys.argv[1] == "--replay":
            sys.exit(replay(rt, sys.argv[2], ext))
        ctx.rules.append(RULE)
        ctx.assumptions += ["sequentially consistent interleavings (controlled runs) or the host's own (native runs)",
                            "messages below the documented size limit"]
        build = ctx.elapsed()
        if more:
            more(ctx, rt)
        for k, (feat, n, nat, modes, directed) in enumerate(plan):
            if ctx.violations:
                break
            scale = 12 if ctx.thorough else 1
            campaign(ctx, rt, feat, n * scale, nat * scale, modes=modes, directed=directed, ext=ext, tag="c%d/" % k, gen=gen, native_gen=native_gen,
                     budget_s=build + (thorough_s if ctx.thorough else (quick_s or 240)) * (k + 1) / len(plan))
        ctx.finish()
    main_wrapper(go)
