"""K01: text reaches its readers whole, through buffers, pipes and compression; output arrives as written."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa
import vbuild  # noqa

RULE = ("cases whose text spans more than one buffer or ten bytes; for tokens, lines of more than two tokens; for file operations and output, cases that leave bytes in the file")

if __name__ == "__main__":
    run_check("K01", RULE, cpp=[Cpp("kutil", libs=["klm_stream", "klm_util", "klm_double"], flavor="asan", suites="pieces,compressed,tokens,fileops,output".split(","))],
              quick=15, thorough=400)
