#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def check(chk):
    chk.coverage["rule"] = "one case = a history of writes and flushes (and a failing writer call); distinct histories are counted, failing calls are further evaluations"
    harness(chk, "support", "c22")
    mixed(chk, "c22", [("lossy_formatter", "support/rs_std/lossy_formatter.rs", []),
                       ("ffi_11", "support/ffi_11/src/lib.rs", []),
                       ("lossy_formatter_for_bindings", "support/rs_std/lossy_formatter_for_bindings.rs", ["lossy_formatter", "ffi_11"])])


main(check, "C22", "exploration")
