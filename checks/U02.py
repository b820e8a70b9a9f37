"""U02: log-space numbers and semirings."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa

RULE = "a case is non-trivial when it performed at least one comparison and one operation in log space (every generated case), several factors, or a whole distribution"

if __name__ == "__main__":
    run_check("U02", RULE, cpp=[Cpp("utils", libs=["utils"], flavor="asan", suites="logval,expectation,densities".split(","))],
              quick=12, thorough=300)
