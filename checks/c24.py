#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def check(chk):
    chk.coverage["rule"] = "one case = a history of slot operations, a reconstruction or a history of assignments; each runs with every set of panicking destructors (evaluations)"
    harness(chk, "support", "c24")


main(check, "C24", "exploration")
