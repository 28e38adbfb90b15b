#!/usr/bin/env python3
"""C05: every unsupported item of a menu, alone, in pairs and triples, in every position next to supported items;
the supported items' bindings compared with those of the same items alone, every unsupported item reported."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import itertools, json, re, collections

from items import *


def check(chk):
    chk.coverage["rule"] = "one case = one arrangement of unsupported, private and supported items in a module: the lines of both generated files about the supported items equal those of the supported items alone, every unsupported item is named in the header and in the error report, private ones nowhere"
    e = E2E(chk)
    arr = [[] for _ in range(2)]          # (extra, must report, must not appear)
    arr = [([], [], [])]
    def inst(t, n): return t.replace("@", n)
    def one(kind, idx, n, slot):
        if kind == "top": t, r = TOP[idx]; return (slot, inst(t, n).replace("Tr)", "super::Tr)") if False else inst(t, n)), [(("n::" if slot == "n" else "") + x) for x in inst(r, n).split()], []
        if kind == "impl": t, r = IMPL[idx]; return ("impl", inst(t, n)), inst(r, n).split(), []
        if kind == "trait": return (slot, TRAITS[idx]), [], []
        t = inst(PRIV[idx], n)
        return (slot, t), [], re.findall(r"\b[pP][X]?%s\w*|\bP\w*%s\b" % (n, n), t)
    def combine(*xs): arr.append(([x[0] for x in xs], sum((x[1] for x in xs), []), sum((x[2] for x in xs), [])))
    menu = [("top", i) for i in range(len(TOP))] + [("impl", i) for i in range(len(IMPL))] + [("trait", i) for i in range(len(TRAITS))] + [("priv", i) for i in range(len(PRIV))]
    for k, i in menu:
        for slot in (("first", "last") if k != "impl" else ("impl",)):
            combine(one(k, i, "0", slot))
        if k == "top" or k == "priv":
            t = one(k, i, "0", "n")
            combine((("n", "use super::*; " + t[0][1]), t[1], t[2]))
    ok2 = lambda a, b: not (a == b and a[0] == "trait")
    for a, b in itertools.combinations(menu, 2):
        if not ok2(a, b) or (a[0] == "trait" and b[0] == "trait"): continue
        combine(one(*a, "0", "first"), one(*b, "1", "last"))
        if THOROUGH: combine(one(*a, "0", "last"), one(*b, "1", "last")); combine(one(*b, "0", "first"), one(*a, "1", "last"))
    for a in menu:     # the same thing twice
        if a[0] != "trait": combine(one(*a, "0", "first"), one(*a, "1", "last"))
    if THOROUGH:
        for a, b, c in itertools.combinations(menu[::3], 3):
            if [x[0] for x in (a, b, c)].count("trait") < 2: combine(one(*a, "0", "first"), one(*b, "1", "last"), one(*c, "2", "first"))
    everything = [one(k, i, f"9{j}x", "last") for j, (k, i) in enumerate(menu) if k != "trait"]
    combine(*everything)
    for s in range(2, 8):
        combine(*everything[::s])
    chk.log(f"{len(arr)} arrangements")
    chk.count(distinct_nontrivial=len(arr), evaluations=0)
    chk.sample([" ".join(t for _s, t in arr[i][0])[:160] for i in range(1, len(arr), max(1, len(arr) // 12))])
    B = 60
    batches = [arr[:1] + arr[i:i + B] for i in range(1, len(arr), B)]

    def go(bi, part, args, tag):
        name = f"b{tag}{bi:04d}"
        d = fresh_dir(os.path.join(chk.dir, name))
        src = "#![allow(warnings)] #![feature(negative_impls)]\n" + "\n".join(module(1000 + i, x[0]) for i, x in enumerate(part)) + "\n"
        try:
            e.rust_lib(d, name, src, flags=["-Zallow-features=negative_impls"])
        except EngineError as ex:
            return "engine", str(ex)
        rep = os.path.join(d, "rep.json")
        r = e.generate(d, name, ["--error-report-out", rep, *args])
        if r.rc != 0:
            return "fail", part, r.tail(1500)
        return "ok", part, open(os.path.join(d, name + ".h")).read(), open(os.path.join(d, name + "_impl.rs")).read(), json.load(open(rep)), name, d

    def judge(part, hdr, impl, rep, name, tag):
        H, R = pieces(hdr), pieces(impl)
        errs = collections.defaultdict(set)
        for m in re.finditer(r"Error generating bindings for [^`]*`" + name + r"::m(1\d{3})::([^`]*)`", hdr):
            errs[m.group(1)].add(re.sub(r"^m1\d{3}::", "", m.group(2)))
        reported = collections.defaultdict(set)
        for x in rep:
            m = re.match(name + "::" + name + r"::m(1\d{3})::(.*)", x["name"])
            if m and x.get("errors"):
                reported[m.group(1)].add(m.group(2))
        for i, (extra, must, mustnot) in enumerate(part):
            k = str(1000 + i)
            chk.count(evaluations=1)
            what = " ".join(t for _s, t in extra)[:400]
            key = f"{tag}: {'; '.join(t for _s, t in extra)[:150]}"
            if set(must) - errs[k]:
                chk.violation("comment " + key, f"no comment in the header about {sorted(set(must) - errs[k])} (there are comments about {sorted(errs[k])})\n{what}")
            if set(must) - reported[k]:
                chk.violation("report " + key, f"the error report does not list {sorted(set(must) - reported[k])} (it lists {sorted(reported[k])})\n{what}")
            odd = {x for x in errs[k] | reported[k] if x not in must and not any(x.startswith(y + "::") or x.split("::")[0] == y.split("::")[0] and y in must for y in must)} - (errs["1000"] | reported["1000"])
            if odd:
                chk.violation("extra " + key, f"supported items {sorted(odd)} are reported as unsupported next to\n{what}")
            if i == 0:
                continue
            for nm in set(mustnot):
                for l in list(H[k]) + list(R[k]) + sorted(reported[k]):
                    if re.search(r"\b%s\b" % re.escape(nm), l):
                        chk.violation("private " + key, f"{nm} is not public, but there is {l[:200]!r}\n{what}")
                        break
            for side, X in (("header", H), ("Rust half", R)):
                lost = X["1000"] - X[k]
                # (an unsupported item may itself leave traces, but everything about the others is there)
                if lost:
                    chk.violation("lost " + key, f"next to\n{what}\nthe {side} lacks or changes {sum(lost.values())} lines about other items: {[l[:160] for l in list(lost)[:4]]}\nit has instead {[l[:160] for l in list(X[k] - X['1000'])[:4]]}")
    results = []
    for tag, args in [("d", ()), ("s", ("--default-features=supported,layout_compat_tuple,always_specialize_generics_in_cpp_api_from_rust",))]:
        bs = list(enumerate(batches)) if tag == "d" or THOROUGH else list(enumerate(batches))[:4] + list(enumerate(batches))[-1:]
        for r in pmap(lambda x: go(x[0], x[1], args, tag), bs):
            if r[0] == "engine":
                raise EngineError(r[1])
            if r[0] == "fail":
                part, text = r[1], r[2]
                for i, x in enumerate(part):      # which arrangement makes it fail
                    if len(chk.violations) > 12: break
                    r1 = go(9000 + i, [part[0], x], args, tag)
                    if r1[0] != "ok":
                        chk.violation(f"fails {tag}: {'; '.join(t for _s, t in x[0])[:150]}", f"generation fails next to\n{' '.join(t for _s, t in x[0])}\n{r1[-1]}")
                chk.violation(f"fails {tag}", "generation fails for a crate of unsupported and supported items:\n" + text)
                continue
            _ok, part, hdr, impl, rep, name, d = r
            judge(part, hdr, impl, rep, name, tag)
            shutil.rmtree(d, ignore_errors=True)
        chk.log(f"mode {tag} done")
    # an item that must be bound
    mb = "#[doc = \"CRUBIT_ANNOTATE: must_bind=\"] "
    jobs = []
    for j, (t, r) in enumerate(TOP):
        if "um@" in t or "pub mod" in t: continue
        jobs.append((f"q{j}", module(1000, [("last", mb + inst(t, "0"))]), True, t))
    for j, (t, r) in enumerate(IMPL):
        jobs.append((f"i{j}", module(1000, [("impl", mb + inst(t, "0"))]), True, t))
    for j, t in enumerate(["pub fn ok(x: i32) {}", "pub struct Ok1 { pub a: i32 }", "pub enum Ok2 { A, B }", "pub const OK3: i32 = 3;", "pub type Ok4 = S;", "pub union Ok5 { pub a: i32 }", "impl S { MB pub fn ok6(&self) {} }", "pub trait Ok7 { fn f(&self); }"]):
        jobs.append((f"k{j}", module(1000, [("last", t.replace("MB", mb) if "MB" in t else mb + t)]), False, t))

    def must(j):
        nm, src, bad, t = j
        d = fresh_dir(os.path.join(chk.dir, nm))
        e.rust_lib(d, nm, "#![allow(warnings)]\n" + src + "\n")
        r = e.generate(d, nm)
        shutil.rmtree(d, ignore_errors=True)
        return r
    for (nm, src, bad, t), r in zip(jobs, pmap(must, jobs)):
        chk.count(evaluations=1, distinct_nontrivial=1)
        if bad == (r.rc == 0) or "panicked" in r.err or r.rc < 0:
            chk.violation("must_bind " + t, f"must_bind on {'an unsupported' if bad else 'a supported'} item: exit {r.rc}\n{mb}{t}\n{r.tail(800)}")


main(check, "C05", "exploration")
