#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def check(chk):
    chk.coverage["rule"] = "one case = graph x weak preference order, called twice; distinct graphs are counted"
    harness(chk, "common", "c31")


main(check, "C31", "exploration")
