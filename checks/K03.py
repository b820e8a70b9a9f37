"""K03: hash tables, searches, bit fields and sorts of the language model library against plain models."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vp import *  # noqa
import vbuild  # noqa

RULE = ("tables and arrays with more than three entries, sets with elements in common, more than two sorted entries or bit fields, hashes of more than eight bytes")

if __name__ == "__main__":
    run_check("K03", RULE, cpp=[Cpp("kutil", libs=["klm_stream", "klm_util", "klm_double"], flavor="asan", suites="probing,uniform,intersections,sorting,bits,hashing".split(","))],
              quick=15, thorough=400)
