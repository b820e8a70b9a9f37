"""U03: dictionaries and tokens."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa

RULE = "a case is non-trivial when its line has two words or its corpus two lines"

if __name__ == "__main__":
    run_check("U03", RULE, cpp=[Cpp("utils", libs=["utils"], flavor="asan", suites="dictionary,corpus".split(","))],
              quick=12, thorough=300)
