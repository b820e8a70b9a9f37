"""U04: weights and serialized vectors."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa

RULE = "a case is non-trivial when it has at least two features"

if __name__ == "__main__":
    run_check("U04", RULE, cpp=[Cpp("utils", libs=["utils"], flavor="asan", suites="weights,weights_text,codecs".split(","))],
              quick=12, thorough=300)
