"""sync() returns only after every earlier message is in the log file."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from rtlib import *

rt_main("P04", [
    (("sync",), 900, 20, ("u",), exit_burst),
    (("sync", "many"), 500, 10, ("u",), exit_burst),
    (("sync", "files"), 300, 5, ("u",), None),
])
