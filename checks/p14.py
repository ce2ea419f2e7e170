#!/usr/bin/env python3
"""P14: output-buffer boundaries."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hlib import *


def main():
    ctx = Ctx("P14")
    ctx.rules.append("a case is a generated history of statement registrations, dictionary encodings, messages of 1-4 threads, encode calls (possibly cutting a message) and buffer swaps "
                     "with generated buffer sizes; non-trivial when at least two messages were encoded and at least one call accepted only part of its input; distinct by log size and messages")
    ctx.assumptions += ["one encode call gets at most half a staging buffer of input and entries are smaller than half a staging buffer, as the runtime guarantees",
                        "the preprocessor flavour's encoder is driven with stand-ins for the generated code"]
    SZ = ["-DNANOLOG_VERIF_STAGING_BUFFER_SIZE=16384", "-DNANOLOG_VERIF_OUTPUT_BUFFER_SIZE=16384", "-std=c++17", "-g"]
    k = 0
    builds = [("cpp17-asan", ["-O1", "-fsanitize=address"], 700), ("pp-asan", ["-O1", "-fsanitize=address", "-DPREPROCESSOR_NANOLOG"], 700),
              ("cpp17", ["-O2"], 4000), ("pp", ["-O2", "-DNDEBUG", "-DPREPROCESSOR_NANOLOG"], 4000)]
    exes = pmap(lambda b: build_harness(ctx, "enc-" + b[0], "h_enc.cc", SZ + b[1], generated=False), builds)
    ok = True
    for (tag, fl, n), exe in zip(builds, exes):
        ok = ok and run_harness(ctx, exe, n * (12 if ctx.thorough else 1), label=tag, limit=200 if ctx.thorough else 9, seedbase=k,
                                extras=("output_buffers", "messages", "partial_calls", "rejected_calls"))
        k += 1
    ctx.finish()


if __name__ == "__main__":
    main_wrapper(main)
