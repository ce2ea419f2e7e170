#!/usr/bin/env python3
"""P23: a failed write costs at most what it carried; everything else keeps working."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from rtlib import *

def native(rng):
    return with_faults(rng, native_scen(rng, ("files",)), 1 << 20, 1 << 26)


rt_main("P23", [(("files", "faults"), 900, 20, ("u",), None)], ext=judge_faults, gen=faulty_scen, native_gen=lambda r, st, ou: native(r), native=("prodv",))
