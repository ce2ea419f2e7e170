"""Concurrent logging: every message exactly once, in order, under its own thread."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from rtlib import *

rt_main("P03", [
    ((), 900, 20, ("u", "uo", "ui"), None),
    (("many",), 500, 10, ("u", "uo"), exit_burst),
    (("sync",), 300, 10, ("u",), None),
])
