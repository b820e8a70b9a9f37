"""L02: fragment scores."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa
import vbuild

if __name__ == "__main__":
    run_check("L02", "a case is non-trivial when a sentence has more than three words (or all three parts are non-empty)",
              cpp=[Cpp("klm", libs=vbuild.KLM_LIBS, suites=["left", "partial"])], quick=20, thorough=600)
