"""U05: files and text helpers."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa

RULE = "a case is non-trivial when its file has more than ten bytes or its tag an attribute"

if __name__ == "__main__":
    run_check("U05", RULE, cpp=[Cpp("utils", libs=["utils"], flavor="asan", suites="files,text".split(","))],
              quick=12, thorough=300)
