#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def check(chk):
    chk.coverage["rule"] = "one case = a token sequence, a comment/literal text or an arrangement of captures; distinct ones that print something are counted"
    harness(chk, "common", "c32")


main(check, "C32", "exploration")
