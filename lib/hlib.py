"""Checks made of C++ property harnesses (harness/pbt.h): build against /repo, run in parallel, merge, report."""
import struct
from vlib import *


def build_harness(ctx, name, src, flags, libs=("Cycles.cc", "Util.cc", "Log.cc"), generated=True, extra_srcs=(), ldflags=(), per_src=None):
    jobs, objs = lib_jobs(ctx, name, flags, srcs=list(libs), generated=generated, per_src=per_src)
    d = os.path.join(ctx.build, "lib-" + name)
    for s in (src,) + tuple(extra_srcs):
        p = s if os.path.isabs(s) else os.path.join(HARNESS, s)
        o = os.path.join(d, os.path.basename(s) + ".o")
        jobs.append((p, o, flags))
        objs.append(o)
    compile_many(jobs)
    san = [f for f in flags if f.startswith("-fsanitize")]
    return link(objs, os.path.join(d, name), san + list(ldflags))


def run_harness(ctx, exe, cases, label="", procs=None, limit=60, args=(), extras=(), seedbase=0):
    """Run the harness as `procs` processes with different seeds; returns False after a recorded violation."""
    procs = procs or JOBS
    out = os.path.join(ctx.scratch, "h-" + os.path.basename(exe) + str(seedbase))
    os.makedirs(out, exist_ok=True)

    def one(k):
        seed = (ctx.seed * 1000 + seedbase) * 64 + k
        d = os.path.join(out, str(k))
        os.makedirs(d, exist_ok=True)
        r = run([exe, "--seed", str(seed), "--cases", str(cases), "--time", str(limit), "--out", d] + list(args), cwd=d, timeout=limit * 3 + 400)
        return seed, d, r
    bad = None
    for seed, d, r in pmap(one, range(procs), procs):
        t = r.out.decode(errors="replace")
        if r.timeout:
            raise CheckError("%s: the harness timed out: %s" % (label, t[-500:]))
        for l in t.splitlines():
            if l.startswith("STATS "):
                ctx.evaluations += int(l.split()[1])
            elif l.startswith("EXTRA "):
                for n, v in zip(extras, l.split()[1:]):
                    ctx.extra[n] = ctx.extra.get(n, 0) + int(v)
            elif l.startswith("UNCONFIRMED"):
                ctx.extra.setdefault("unconfirmed", []).append(l)
            elif l.startswith("FAIL ") and bad is None:
                bad = l[5:]
        if r.rc not in (0, 1, 3) or "STATS " not in t:
            raise CheckError("%s: the harness ended with status %s: %s %s" % (label, r.rc, t[-1000:], r.err.decode(errors="replace")[-1500:]))
        try:
            with open(os.path.join(d, "hashes-%d" % seed), "rb") as f:
                b = f.read()
            for i in range(0, len(b), 8):
                ctx.distinct.add((label, b[i:i + 8]))
            with open(os.path.join(d, "samples-%d" % seed), errors="replace") as f:
                for s in f.read().split("\n----\n"):
                    if s.strip():
                        ctx.sample((label + ": " if label else "") + s.strip())
        except OSError:
            pass
    if bad:
        with open(bad, errors="replace") as f:
            text = f.read()
        p = ctx.save_replay("%s-%d.txt" % (label or "case", ctx.seed), text)
        ctx.violation("%s %s" % (label, text.split("--- problem\n", 1)[-1]), p)
        return False
    shutil.rmtree(out, ignore_errors=True)
    return True
