#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and the property list."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIRECT = ("Executions of the real code only; every case within the stated bounds is executed and judged. "
          "Trusts the reference model in the harness, rustc/clang, and that the bounds are representative (small-scope).")
C = {}   # id -> (technique, level, note)
def c(id, technique, level, note=""):
    C[id] = (technique, level, (note + " " + DIRECT).strip())
exec(open(os.path.join(V, "tools", "claims.py")).read())
NA = {
    "C50": "rs_bindings_from_cc needs LLVM/clang 22 libraries and protoc 35, neither of which is installed, so neither the code nor a conformance check of a model can run here.",
    "C51": "nullability and lifetime_analysis are written against LLVM/clang 22 (and abseil newer than the one installed); they cannot be built here, so no model could be kept bound to the code.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 lib/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the checks drive public interfaces", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    f = f"checks/{i.lower()}.py"
    if i in C and os.path.exists(os.path.join(V, f)):
        t, l, n = C[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 {f}", "thorough_cmd": f"VERIF_TIER=thorough python3 {f}",
                            "evidence_file": f"evidence/{i}.json", "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]])
