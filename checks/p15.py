#!/usr/bin/env python3
"""P15: iteration API."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hlib import *


def main():
    ctx = Ctx("P15")
    ctx.rules.append("a case is one to three generated logs (executions, threads, extents, 25 statement shapes) iterated one after the other with one decoder, wholly or in part; "
                     "non-trivial with at least two messages; distinct by log content")
    ctx.assumptions += ["arguments are read with the type of their conversion; long double arguments are only counted"]
    SZ = ["-DNANOLOG_VERIF_STAGING_BUFFER_SIZE=16384", "-DNANOLOG_VERIF_OUTPUT_BUFFER_SIZE=16384", "-std=c++17", "-g"]
    builds = [("cpp17-asan", ["-O1", "-fsanitize=address"], 700), ("pp-asan", ["-O1", "-fsanitize=address", "-DPREPROCESSOR_NANOLOG"], 700),
              ("cpp17", ["-O2"], 4000), ("pp", ["-O2", "-DNDEBUG", "-DPREPROCESSOR_NANOLOG"], 4000)]
    exes = pmap(lambda b: build_harness(ctx, "iter-" + b[0], "h_iter.cc", SZ + b[1], generated=False), builds)
    ok = True
    for k, ((tag, fl, n), exe) in enumerate(zip(builds, exes)):
        ok = ok and run_harness(ctx, exe, n * (30 if ctx.thorough else 1), label=tag, limit=250 if ctx.thorough else 9, seedbase=k,
                                extras=("next_calls", "arguments", "reused_decoders"))
    ctx.finish()


if __name__ == "__main__":
    main_wrapper(main)
