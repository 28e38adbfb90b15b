#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def check(chk):
    chk.coverage["rule"] = "one case = a tree of initializer combinators, or a struct with an outcome per field; each runs into ten destinations (evaluations)"
    harness(chk, "support", "c23")


main(check, "C23", "exploration")
