"""Runtime statistics equal what was actually logged and written."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from rtlib import *

rt_main("P20", [
    (("stats", "files"), 700, 15, ("u",), None),
    (("stats", "levels"), 600, 10, ("u",), None),
    (("stats", "many"), 400, 10, ("u",), exit_burst),
])
