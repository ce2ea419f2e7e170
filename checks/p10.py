#!/usr/bin/env python3
"""P10: printed timestamps."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hlib import *


def main():
    ctx = Ctx("P10")
    ctx.rules.append("a case is a log of 1-3 executions with generated start cycle count, start time and clock rate and up to 12 messages each at generated cycle counts "
                     "(around second and nanosecond boundaries, before and after the start) in a generated time zone; non-trivial with at least two messages; distinct by starts and rates")
    ctx.assumptions += ["printed local times are compared with the C library's localtime_r", "elapsed times up to 4e9 seconds"]
    SZ = ["-DNANOLOG_VERIF_STAGING_BUFFER_SIZE=16384", "-DNANOLOG_VERIF_OUTPUT_BUFFER_SIZE=16384", "-std=c++17", "-g"]
    builds = [("cpp17", ["-O1", "-fsanitize=undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=undefined"], 4000), ("pp", ["-O2", "-DNDEBUG", "-DPREPROCESSOR_NANOLOG"], 8000)]
    exes = pmap(lambda b: build_harness(ctx, "time-" + b[0], "h_time.cc", SZ + b[1], generated=False), builds)
    ok = True
    for k, ((tag, fl, n), exe) in enumerate(zip(builds, exes)):
        ok = ok and run_harness(ctx, exe, n * (20 if ctx.thorough else 1), label=tag, limit=300 if ctx.thorough else 12, seedbase=k,
                                extras=("messages", "at_second_boundary", "before_start"))
    ctx.finish()


if __name__ == "__main__":
    main_wrapper(main)
