"""T02: optimizers find the optimum."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa
import vbuild

RULE = ("optimizations of more than three evaluations, online runs of more than three updates")

if __name__ == "__main__":
    run_check("T02", RULE, cpp=[Cpp("optim", libs=["training_utils", "lbfgs"] + vbuild.CDEC_LIBS, suites="lbfgs,batch,online".split(","), inc=vbuild.TRAIN_INC)], quick=12, thorough=300)
