"""setup_cmd: builds what the checks share (the checks rebuild it themselves whenever it is missing
or older than /repo's tree)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *

class Quiet:
    def log(self, *a): print(*a, flush=True)

try:
    E2E(Quiet())
except (EngineError, StdFailure) as e:
    print("setup: not prepared:", str(e)[:2000])
for d in sorted(os.listdir(os.path.join(VERIF, "harness"))) if os.path.isdir(os.path.join(VERIF, "harness")) else []:
    if os.path.exists(os.path.join(VERIF, "harness", d, "Cargo.lock")):
        r = cargo_harness(d)
        print("harness", d, "exit", r.rc, r.tail(600) if r.rc else "")
