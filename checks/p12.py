#!/usr/bin/env python3
"""P12: packed values survive."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hlib import *


def main():
    ctx = Ctx("P12")
    ctx.rules.append("a case is a generated sequence of typed values packed with nibbles (or a 512-value slice of one type, one at a time); "
                     "non-trivial when it holds at least one value; distinct by types and values")
    ctx.assumptions += ["little-endian host, as the code requires"]
    ok = True
    for tag, fl, n in (("asan", ["-std=c++17", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=alignment,float-cast-overflow", "-fno-sanitize-recover=undefined"], 12000),
                       ("o3", ["-std=c++11", "-O3"], 60000)):
        exe = build_harness(ctx, "pack-" + tag, "h_pack.cc", fl, libs=(), generated=False)
        ok = ok and run_harness(ctx, exe, n * (10 if ctx.thorough else 1), label=tag, limit=200 if ctx.thorough else 25, extras=("values",), seedbase=1 if tag == "o3" else 0)
    ctx.finish()


if __name__ == "__main__":
    main_wrapper(main)
