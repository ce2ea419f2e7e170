#!/usr/bin/env python3
"""P22: cycle/time conversions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hlib import *


def main():
    ctx = Ctx("P22")
    ctx.rules.append("a case is a clock rate and two counts put through every conversion, both ways; non-trivial when a count is non-zero; distinct by rate and counts")
    ctx.assumptions += ["results that do not fit 64 bits are outside the property", "rounding allowance: half a unit plus 2^-49 relative"]
    for i, (tag, fl) in enumerate((("o0", ["-std=c++17", "-O0"]), ("o2", ["-std=c++17", "-O2", "-DNDEBUG"]))):
        exe = build_harness(ctx, "cycles-" + tag, "h_cycles.cc", fl, libs=("Cycles.cc", "Util.cc"), generated=False)
        if not run_harness(ctx, exe, 800000 if ctx.thorough else 150000, label=tag, limit=300 if ctx.thorough else 25, seedbase=i,
                           extras=("to_ns_in_range", "from_ns_in_range", "from_s_in_range", "calibrations")):
            break
    ctx.finish()


if __name__ == "__main__":
    main_wrapper(main)
