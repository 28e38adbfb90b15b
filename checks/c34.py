#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def check(chk):
    chk.coverage["rule"] = "one case = a history of scope, report and category events, a history of a pending-error collection, or a wrapping chain; distinct histories that report something are counted"
    harness(chk, "common", "c34")


main(check, "C34", "exploration")
