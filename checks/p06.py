"""Switching log files splits the stream cleanly and each file stands alone."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from rtlib import *

rt_main("P06", [
    (("files",), 1100, 25, ("u", "uo"), None),
    (("files", "many"), 400, 10, ("u",), None),
    (("files", "levels"), 300, 5, ("u", "ui"), None),
])
