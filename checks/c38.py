#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import glob, itertools


def requests():
    out = [["A", "<", "int", ">"], ["std", "::", "vector", "<", "bool", ">"], ["::", "std", "::", "vector", "<", "unsigned", "int", ">"], ["unsigned", "int"], ["unsignedint"],
           ["A", "<", "\"a b\"", ">"], ["A", "<", "\"ab\"", ">"], ["A", "<", "'c'", ",", "3.5", ",", "int", "*", ">"], ["A", "<", "B", "<", "C", "<", "int", ">", ">", ">"],
           ["A", "<", "(", "int", ")", ">"], ["zip", "<", "short", ",", "int", ">", "::", "with", "<", "unsigned", "short", ">"]]
    n = 40 if THOROUGH else 14
    for k in range(1, n):                     # ever longer requests: printing them must not wrap them
        out.append(["T"] + ["<", "std", "::", "pair", "<", "unsigned", "long", ","] * k + ["int"] + [">", ">"] * k)
        out.append(["L" * (7 * k), "<", "m" * (5 * k), ",", "n" * (11 * k), ">"])
    for a, b in itertools.product(("int", "unsigned char", "Foo", "7"), repeat=2):
        out.append(["std", "::", "map", "<"] + a.split() + [","] + b.split() + [">"])
    return out


def spell(ts, sep):
    s = ""
    for i, t in enumerate(ts):
        if i:
            w = lambda x: x[0].isalnum() or x[0] in "_\"'"
            s += (" " if sep == "" and w(ts[i - 1]) and w(t) else sep)
        s += t
    return s


def check(chk):
    chk.coverage["rule"] = "one case = a token sequence in six spellings, a placement of requests in contexts and files, a resolution, or an expansion inside rustc"
    os.makedirs(chk.dir, exist_ok=True)
    shutil.rmtree(os.path.join(chk.dir, "c38"), ignore_errors=True)
    harness(chk, "support", "c38")
    # the real macro inside rustc: every request, in every spelling, resolves to the type configured under the name
    # that the collector gave it, and only those do
    r = cargo_harness("support", ["build", "-p", "cc_template"])
    if r.rc:
        raise EngineError("cc_template does not build:\n" + r.tail())
    so = max(glob.glob(os.path.join(TARGET, "debug", "build", "cc_template", "*", "out", "libcc_template-*.so")) + glob.glob(os.path.join(TARGET, "debug", "deps", "libcc_template-*.so")), key=os.path.getmtime)
    reqs = requests()
    names = {}
    for i, ts in enumerate(reqs):
        f = write(os.path.join(chk.dir, "req.rs"), "cc_template!(" + spell(ts, " ") + ")")
        r = run([os.path.join(TARGET, "debug", "c38"), "--one", f], env=sysroot_env(), timeout=60)
        got = json.loads(r.out) if r.rc == 0 and r.out.strip() else None
        if not got or len(got) != 1:
            chk.violation("collect", f"{spell(ts, ' ')}: {r.out}{r.err[:300]}")
            continue
        if got[0] in names:
            chk.violation("different-requests-share-name", f"{spell(ts, ' ')} and {spell(reqs[names[got[0]]], ' ')} are both {got[0]!r}")
        names[got[0]] = i
    conf = {n: f"Inst{i}" for n, i in names.items() if i % 3 != 2}
    cfg = write(os.path.join(chk.dir, "inst.json"), json.dumps(conf))
    api = write(os.path.join(chk.dir, "api.rs"), "".join(f"pub struct Inst{i};" for i in range(len(reqs))))
    run(["rustc", "--edition=2021", "--crate-type=rlib", "--emit=metadata,link", "--crate-name=__cc_template_instantiations_rs_api", api, "--out-dir", chk.dir], check="stub crate")
    lines, where = ["use cc_template::cc_template;"], []
    for name, i in names.items():
        for sep in ("", " ", "   ", "\n", "\n\n\t", "/* c */"):
            for o, c in ("{}", "()", "[]"):
                a = len(lines) + 1
                lines += f"pub fn f{len(where)}(x: cc_template!{o}{sep}{spell(reqs[i], sep)}{sep}{c}) -> __cc_template_instantiations_rs_api::Inst{i} {{ x }}".split("\n")
                where.append((a, len(lines), i, sep, name in conf))
    src = write(os.path.join(chk.dir, "uses.rs"), "\n".join(lines))
    r = run(["rustc", "--edition=2021", "--crate-type=lib", "--emit=metadata", "--error-format=json", src, "--out-dir", chk.dir, "--extern", f"cc_template={so}",
             "--extern", f"__cc_template_instantiations_rs_api={chk.dir}/lib__cc_template_instantiations_rs_api.rlib"], env=base_env({"CRUBIT_INSTANTIATIONS_FILE": cfg}), timeout=300)
    bad = {}
    for l in r.err.splitlines():
        m = json.loads(l) if l.startswith("{") else {"level": ""}
        if m["level"] == "error":
            for s in m["spans"]:
                if s["is_primary"]:
                    bad.setdefault(s["line_start"], m["message"])
    if any(w[4] is False for w in where) != (r.rc != 0) and not bad:
        raise EngineError("macro program: " + r.err[:1500])
    for a, b, i, sep, ok in where:
        chk.count(evaluations=1)
        errs = [bad[x] for x in range(a, b + 1) if x in bad]
        if bool(errs) == ok:
            chk.violation("macro-resolution", f"cc_template!({spell(reqs[i], sep)[:600]!r}) {'is configured but did not resolve: ' + errs[0][:600] if errs else 'is not configured but was accepted'}")
    chk.count(macro_expansions=len(where), distinct_nontrivial=len(where))


main(check, "C38", "exploration")
