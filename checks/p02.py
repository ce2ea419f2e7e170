"""Preprocessed log statements decode to exactly what printf would have printed."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fidelity import *

main_wrapper(lambda: fidelity("P02", "pp"))
