#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def check(chk):
    chk.coverage["rule"] = "one case = sequence of interned values on a fresh arena; all but the empty sequences are non-trivial"
    harness(chk, "common", "c33")


main(check, "C33", "exploration")
