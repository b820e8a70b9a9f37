import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa
import vbuild

RULE = ("a case is non-trivial when its forest has at least three derivations (distinct choice sequences are counted)")

if __name__ == "__main__":
    run_check("H03", RULE, cpp=[Cpp("hypergraph", libs=vbuild.CDEC_LIBS, suites="sample,choice".split(","))], quick=20, thorough=600)
