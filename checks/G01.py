"""G01: grammar files mean what is written in them."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa
import vbuild

RULE = "more than one rule was read, the rule has several source symbols, the grammar several source sides, or the tree more than two nodes"

if __name__ == "__main__":
    run_check("G01", RULE, cpp=[Cpp("grammar", libs=vbuild.CDEC_LIBS, flavor="asan", suites="reading,roundtrip,lookup,trees".split(","))], quick=15, thorough=400)
