"""H04: lattices mean what their notation says."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa
import vbuild

RULE = ("lattices with more than three arcs and a node of at least two, sentences of more than two words, forests of more than two paths")

if __name__ == "__main__":
    run_check("H04", RULE, cpp=[Cpp("lattice", libs=vbuild.CDEC_LIBS, suites="reading,paths".split(","))], quick=15, thorough=400)
