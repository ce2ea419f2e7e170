#!/usr/bin/env python3
"""P08: executions appended to one log file."""
import os, sys, datetime
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hlib import *
from proglib import *

MARK = re.compile(rb"(\r\n)*# New execution started\r\n")


def compare_chain(exps, dec):
    """exps: list of (expectations, wall time before, after). None or a description."""
    pos = 0
    for k, (exp, t0, t1) in enumerate(exps):
        if k:
            m = MARK.match(dec, pos)
            if not m:
                return "execution %d is not announced: %r" % (k, dec[pos:pos + 200])
            pos = m.end()
        m = re.match(rb"[^\r\n]*?[A-Z]\[(\d+)\]: ", dec[pos:pos + 3000])
        tid = m.group(1) if m else b"?"
        for i, (lvl, line, fn, text) in enumerate(exp):
            want = fn + b":" + str(line).encode() + b" " + LV[lvl].encode() + b"[" + tid + b"]: " + text + b"\r\n"
            m = TS.match(dec, pos)
            if not m or not dec.startswith(want, m.end()):
                return "execution %d, message %d: expected %r, decoded %r" % (k, i, want[:300], dec[pos:pos + 300])
            t = datetime.datetime.strptime(m.group(0)[:26].decode(), "%Y-%m-%d %H:%M:%S.%f").replace(tzinfo=datetime.timezone.utc).timestamp()
            if not t0 - 1.5 <= t <= t1 + 0.5:
                return "execution %d, message %d: printed time %s is not within the execution (%.1f..%.1f, printed %.3f)" % (k, i, m.group(0).decode(), t0, t1, t)
            pos = m.end() + len(want)
    n = sum(len(e) for e, _, _ in exps)
    if not re.fullmatch(rb"(\r\n)*# Decompression Complete after printing %d log messages\r\n" % n, dec[pos:]):
        return "after the last message: decoded %r" % dec[pos:pos + 300]
    return None


def main():
    ctx = Ctx("P08")
    ctx.rules.append("encoded logs: a case is a log of 2-5 executions with generated statements (the same, modified or unrelated ones), starts, rates and messages, decoded in three modes; "
                     "programs: a case is a chain of 2-6 executions of generated programs (two builds of each flavour) appended to one file, each prefix compared byte by byte and the file "
                     "decompressed by the decompressors of all flavours; non-trivial with at least two messages")
    ctx.assumptions += ["executions end normally"]
    SZ = ["-DNANOLOG_VERIF_STAGING_BUFFER_SIZE=16384", "-DNANOLOG_VERIF_OUTPUT_BUFFER_SIZE=16384", "-std=c++17", "-g"]
    builds = [("cpp17-asan", ["-O1", "-fsanitize=address"], 600), ("pp-asan", ["-O1", "-fsanitize=address", "-DPREPROCESSOR_NANOLOG"], 600), ("cpp17", ["-O2"], 3000),
              ("pp", ["-O2", "-DNDEBUG", "-DPREPROCESSOR_NANOLOG"], 3000)]
    exes = pmap(lambda b: build_harness(ctx, "append-" + b[0], "h_append.cc", SZ + b[1], generated=False), builds)
    ok = True
    for k, ((tag, fl, n), exe) in enumerate(zip(builds, exes)):
        ok = ok and run_harness(ctx, exe, n * (12 if ctx.thorough else 1), label=tag, limit=200 if ctx.thorough else 6, seedbase=k,
                                extras=("logs", "executions", "messages"))
    if ok:
        programs(ctx)
    ctx.finish()


def programs(ctx):
    flags = ["-std=c++17", "-O1"]
    l17, lpp = Lib17(ctx, "a", flags), LibPP(ctx, "a", flags, flags)
    gen_helper_code(ctx)
    compile_many(l17.jobs + lpp.jobs)
    progs, decs = [], []

    def build(a):
        name, fl, stmts, seed = a
        d = os.path.join(ctx.build, name)
        srcs = write_program(d, stmts, random.Random(seed), fl, files=3)
        try:
            if fl == "pp":
                exe, dec = lpp.build(d, srcs, os.path.join(d, "prog"))
                return exe, dec
            return l17.build(d, srcs, os.path.join(d, "prog")), None
        except (CompileFailed, PreprocessFailed) as e:
            raise CheckError("a generated program does not build: " + e.text[:1500])
    r = ctx.sub_rng("programs")
    items = []
    for fl in ("pp", "cpp17"):
        s = gen_stmts(r, 24, fl)
        items.append((fl + "A", fl, s, 1))
        s2 = list(s)                    # another build: some statements gone, some new ones in front
        for _ in range(6):
            s2.pop(r.randrange(len(s2)))
        items.append((fl + "B", fl, gen_stmts(r, 5, fl) + s2, 2))
        items.append((fl + "C", fl, gen_stmts(r, 3, fl), 3))
    built = pmap(build, items, 3)
    decs = [d for _, d in built if d]
    decs.append(build_decompressor(ctx, "a", flags))
    progs = [(items[i][0], built[i][0]) for i in range(len(items))]

    def chain(rng, d, plan):
        """Run the executions of a plan; None or the problem."""
        log = os.path.join(d, "compressedLog") if plan["default"] else os.path.join(d, "log")
        exps, old = [], b""
        for k, (pi, seed, rounds) in enumerate(plan["runs"]):
            ex = os.path.join(d, "exp%d" % k)
            t0 = time.time()
            x = run([progs[pi][1], "-" if plan["default"] else log, ex, str(seed), str(rounds)], cwd=d, timeout=120)
            t1 = time.time()
            if x.timeout or x.rc != 0:
                return "execution %d fails (status %s): %s" % (k, x.rc, summary(x.err)), 0
            with open(ex, "rb") as f:
                exps.append((read_expect(f.read()), t0, t1))
            with open(log, "rb") as f:
                data = f.read()
            if data[:len(old)] != old:
                i = next((i for i in range(min(len(old), len(data))) if data[i] != old[i]), min(len(old), len(data)))
                return "execution %d changed byte %d of what earlier executions wrote" % (k, i), 0
            old = data
        n = sum(len(e) for e, _, _ in exps)
        for di in plan["decs"]:
            for mode in ("decompressUnordered", "decompress"):
                o = run([decs[di], mode, log], cwd=d, timeout=120)
                if o.timeout:
                    return "%s does not terminate" % mode, n
                c = compare_chain(exps, o.out)
                if c or o.rc != 0:
                    return "%s by decompressor %d: %s (status %s) %s" % (mode, di, c, o.rc, summary(o.err)), n
        if not plan["default"]:         # the default file was opened by every execution and got no message
            o = run([decs[-1], "decompress", os.path.join(d, "compressedLog")], cwd=d, timeout=60)
            if o.out.count(b"# New execution started") != len(exps) - 1 or b"after printing 0 log" not in o.out:
                return "the default log file of %d executions without messages decompresses to %r" % (len(exps), o.out[:400]), n
        return None, n

    def attempt(plan):
        d = tempfile.mkdtemp(dir=ctx.scratch)
        try:
            return chain(None, d, plan)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def one(i):
        if fails:
            return
        rng = ctx.sub_rng("chain%d" % i)
        runs = [(rng.randrange(len(progs)), rng.randrange(1 << 30), rng.choice([0, 1, 1, 3, 10, 40])) for _ in range(rng.randrange(2, 7))]
        plan = {"default": rng.random() < .4, "runs": runs, "decs": [rng.randrange(len(decs)), len(decs) - 1]}
        bad, n = attempt(plan)
        ctx.count(("chain", i, str(plan)), nontrivial=n >= 2)
        ctx.extra["program_executions"] = ctx.extra.get("program_executions", 0) + len(runs)
        if bad:
            fails.append((plan, bad))
    fails = []
    pmap(one, list(range(1200 if ctx.thorough else 130)))
    if fails:
        plan, bad = fails[0]
        if not all(attempt(plan)[0] for _ in range(2)):
            ctx.extra.setdefault("unconfirmed", []).append(bad)
            return
        for k in range(len(plan["runs"]) - 1, -1, -1):      # shrink: drop executions
            p2 = dict(plan, runs=plan["runs"][:k] + plan["runs"][k + 1:])
            b = attempt(p2)[0] if len(p2["runs"]) > 1 else None
            if b:
                plan, bad = p2, b
        text = "default log file: %s\nexecutions (program, seed, rounds): %s\nproblem %s\n\n" % (
            plan["default"], [(progs[a][0], b, c) for a, b, c in plan["runs"]], bad)
        for a in sorted(set(a for a, b, c in plan["runs"])):
            text += "".join("--- %s\n%s\n" % (progs[a][0], "\n".join(s.source("st_%d" % i, random.Random(0), items[a][1]))) for i, s in enumerate(items[a][2]))
        ctx.violation(bad, ctx.save_replay("chain-%d.txt" % ctx.seed, text))


if __name__ == "__main__":
    main_wrapper(main)
