"""Nothing logged is lost when threads or the process exit normally."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from rtlib import *

rt_main("P05", [
    (("exit",), 700, 20, ("u",), exit_burst),
    (("exit", "many"), 600, 10, ("u", "uo"), exit_burst),
    (("exit", "files"), 200, 5, ("u",), None),
])
