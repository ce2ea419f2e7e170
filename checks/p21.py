#!/usr/bin/env python3
"""P21: time traces."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from hlib import *


def main():
    ctx = Ctx("P21")
    ctx.rules.append("a case is a history of event bursts by up to five threads (bursts around the ring capacity favoured), resets and printouts; "
                     "non-trivial when a thread has events at the end; distinct by burst totals and clock")
    ctx.assumptions += ["each thread's events carry non-decreasing timestamps", "a thread is not inside record() at the instant a printout starts"]
    for i, (tag, fl, n) in enumerate((("o2", ["-std=c++17", "-O2"], 250), ("asan", ["-std=c++17", "-O1", "-g", "-fsanitize=address"], 60))):
        exe = build_harness(ctx, "tt-" + tag, "h_tt.cc", fl, libs=("Cycles.cc", "Util.cc", "TimeTrace.cc"), generated=False)
        if not run_harness(ctx, exe, n * 20 if ctx.thorough else n, label=tag, limit=400 if ctx.thorough else 30, seedbase=i,
                           extras=("printouts", "wrapped_threads", "printouts_with_concurrent_records")):
            break
    ctx.finish()


if __name__ == "__main__":
    main_wrapper(main)
