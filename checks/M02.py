"""M02: sufficient statistics of the metrics."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa

if __name__ == "__main__":
    run_check("M02", "a case is non-trivial when it combines the statistics of several segments or hypotheses",
              cpp=[Cpp("mteval", libs=["mteval", "utils"])], quick=15, thorough=300)
