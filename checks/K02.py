"""K02: block streams, external sorting and queues between threads lose nothing."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa
import vbuild  # noqa

RULE = ("sorts of more than one block, chains with more than five records or more than one chain, queues with more than one item per producer")

if __name__ == "__main__":
    run_check("K02", RULE, cpp=[Cpp("kutil", libs=["klm_stream", "klm_util", "klm_double"], flavor="opt", suites="sort,chain,queue".split(","))],
              quick=15, thorough=400)
