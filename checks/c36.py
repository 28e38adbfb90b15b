#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def check(chk):
    chk.coverage["rule"] = "one case = a format string, a symbol text or a word; distinct ones with something to expand or escape are counted"
    harness(chk, "common", "c36")


main(check, "C36", "exploration")
