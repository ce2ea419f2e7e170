#!/usr/bin/env python3
"""P11: truncated logs."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hlib import *


def main():
    ctx = Ctx("P11")
    ctx.rules.append("a case is one generated log (1-3 executions, several threads, extents and dictionary fragments) decoded after truncation at every byte, or at boundaries and sampled "
                     "bytes of longer logs, in rotating modes; non-trivial with at least two messages in at least two extents; distinct by log content")
    ctx.assumptions += ["an output block is a buffer extent"]
    SZ = ["-DNANOLOG_VERIF_STAGING_BUFFER_SIZE=16384", "-DNANOLOG_VERIF_OUTPUT_BUFFER_SIZE=16384", "-std=c++17", "-g"]
    builds = [("cpp17-asan", ["-O1", "-fsanitize=address"], 1000), ("pp-asan", ["-O1", "-fsanitize=address", "-DPREPROCESSOR_NANOLOG"], 1000),
              ("cpp17", ["-O2"], 4000), ("pp", ["-O2", "-DNDEBUG", "-DPREPROCESSOR_NANOLOG"], 4000)]
    exes = pmap(lambda b: build_harness(ctx, "trunc-" + b[0], "h_trunc.cc", SZ + b[1], generated=False), builds)
    ok = True
    for k, ((tag, fl, n), exe) in enumerate(zip(builds, exes)):
        ok = ok and run_harness(ctx, exe, n * (30 if ctx.thorough else 1), label=tag, limit=250 if ctx.thorough else 9, seedbase=k,
                                extras=("cuts", "cuts_after_messages"))
    ctx.finish()


if __name__ == "__main__":
    main_wrapper(main)
