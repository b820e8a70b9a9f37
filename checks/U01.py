"""U01: compact vectors."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa

RULE = "the longest vector of the history held more than 3 (sparse) or more than the inline number of elements"

if __name__ == "__main__":
    run_check("U01", RULE, cpp=[Cpp("utils", libs=["utils"], flavor="asan", suites="sparse,sparse_float,small,small4,small1".split(","))],
              quick=12, thorough=300)
