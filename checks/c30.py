#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def check(chk):
    chk.coverage["rule"] = "one history = graph x kind of each query x asking order x top-level order on a fresh database"
    harness(chk, "common", "c30")


main(check, "C30", "model_checking")
