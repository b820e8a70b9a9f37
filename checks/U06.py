"""U06: maximum entropy models."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa

RULE = ("a training case is non-trivial when at least two weights of the model are not zero, a model case when the model has at "
        "least two weights")

if __name__ == "__main__":
    run_check("U06", RULE, cpp=[Cpp("maxent", libs=["utils"], flavor="asan", suites="train,sgd,model".split(","))],
              quick=30, thorough=600)
