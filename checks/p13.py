#!/usr/bin/env python3
"""P13: the staging queue under generated interleavings."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hlib import *


def build(ctx, tag, size, flags):
    fl = list(flags) + ["-std=c++17", "-g", "-DNANOLOG_VERIF_STAGING_BUFFER_SIZE=%d" % size, "-DNANOLOG_VERIF_OUTPUT_BUFFER_SIZE=4096"]
    tsan = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]
    jobs, objs = lib_jobs(ctx, tag, fl, srcs=["Cycles.cc", "Util.cc", "Log.cc", "RuntimeLogger.cc"], per_src={"RuntimeLogger.cc": tsan})
    d = os.path.join(ctx.build, "lib-" + tag)
    for s, x in (("h_sb.cc", []), ("h_sb_ops.cc", tsan)):
        o = os.path.join(d, s + ".o")
        jobs.append((os.path.join(HARNESS, s), o, fl + x))
        objs.append(o)
    return jobs, objs, os.path.join(d, tag)


def main():
    ctx = Ctx("P13")
    ctx.rules.append("a case is a generated producer and consumer operation sequence plus the schedule (a decision at every access to the queue's memory); non-trivial when the queue wrapped "
                     "around and the two sides alternated; distinct by operations and schedule")
    ctx.assumptions += ["sequentially consistent interleavings of the compiled accesses (x86-64 store order; compiler reordering only as far as the compiled code shows it)",
                        "blocking reservations of less than half the queue, as the runtime makes them"]
    v = [("s16", 16, ["-O1"]), ("s33", 33, ["-O0"]), ("s64", 64, ["-O2", "-DNDEBUG"]), ("s257", 257, ["-O1"])]
    built = [build(ctx, t, s, f) for t, s, f in v]
    compile_many([j for b in built for j in b[0]])
    exes = [link(o, e) for _, o, e in built]
    ok = True
    for k, ((t, s, f), exe) in enumerate(zip(v, exes)):
        ok = ok and run_harness(ctx, exe, 400000 if ctx.thorough else 25000, label="queue of %d" % s, limit=150 if ctx.thorough else 9,
                                extras=("wraps", "switches", "reservations_preempted", "bytes"), seedbase=k)
    ctx.finish()


if __name__ == "__main__":
    main_wrapper(main)
