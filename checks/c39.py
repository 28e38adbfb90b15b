#!/usr/bin/env python3
import sys, os, re, itertools, base64; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

FOO = """/// dök — 日本 𝄞
pub fn first(zähl: i32) {}
pub mod m { pub struct S { pub x: i32, y: u8 } impl S { pub fn new() -> S { S{x:1,y:2} } } pub fn f(s: &S) -> i32 { s.x } }
pub enum E { A { x: i32 }, B(u8) }
pub fn use_dep(x: &dep::D) -> i32 { x.a }
pub fn bad(x: i128) {}
/// naïve
pub const K: i32 = 7;
"""


def compact(t):
    t = re.sub(r"__crubit_thunk_\w+", "THUNK", t)
    t = re.sub(r"(?m)^\s*//\s*$", "", t)
    return re.sub(r"\s+", "", t)


def lines_out(t, pat):
    return "".join(l for l in t.splitlines(True) if not re.search(pat, l))


# name -> (args, header transform, rust transform); transforms turn the output without the option into the one with it
def ident(t):
    return t


def guard(t):
    return t.replace("#pragma once\n", "#ifndef G_H\n#define G_H\n") + "#endif // G_H\n"


def selfns(t):
    return re.sub(r"namespace foo\b", "namespace x::y", t.replace("::foo::", "::x::y::"))


def rustless(f):
    """applies f outside Rust type annotations, comments and string literals (they name Rust paths)"""
    def g(t):
        parts = re.split(r'("(?:[^"\\\n]|\\.)*"|//[^\n]*)', t)
        return "".join(p if i % 2 else f(p) for i, p in enumerate(parts))
    return g


def options(o):
    return {
        "guard": (["--h-out-include-guard=G_H"], guard, ident),
        "report": ["--error-report-out=" + o + "/report.json"],
        "selfns": (["--crate-namespace=self=x::y"], rustless(selfns), ident),
        "extra": (["--extra-rs-srcs-include=q/z.h"], lambda t: '#include "q/z.h" // IWYU pragma: export\n' + t, ident),
        "path": (["--crubit-debug-path-format=P{path}#{line}"],
                 lambda t: re.sub(r"(Generated from: |defined at )(\S+?);l=(\d+)", r"\1P\2#\3", t), ident),
        "kythe": (["--kythe-annotations"], ident, ident),
        "header2": (["--crate-header=dep=other/d.h"],
                    lambda t: t.replace('#include "dep.h"\n', '#include "dep.h"\n#include "other/d.h"\n'), ident),
        "depns": (["--crate-namespace=dep=n::dn"],
                  rustless(lambda t: t.replace("::dep::", "::n::dn::")), ident),
        "rename": (["--crate-rename=foo=fff"], ident, lambda t: t.replace("extern crate core;", "extern crate foo as fff;extern crate core;")),
        "cppout": (["--cpp-out=" + o + "/foo.cc"], ident, ident),
        "golden": (["--is-golden-test"],
                   lambda t: lines_out(re.sub(r"(?m)^\s*// Features: .*\n", "", t), r"^\s*// Generated from: "),
                   lambda t: re.sub(r"(?m)^\s*// Features: .*\n", "", t)),
    }


def strip_kythe(t):
    t = re.sub(r"#ifdef KYTHE_IS_RUNNING\n.*?#endif\n", "", t, count=1, flags=re.S)
    return re.sub(r"(?m)^// This file contains Kythe metadata\. .*", "", t)


def anchors(t, src):
    """(source text, target text, corpus) of every anchor of the embedded metadata"""
    m = re.search(r"(?m)^// This file contains Kythe metadata\. (\S+)$", t)
    meta = json.loads(base64.b64decode(m.group(1)))
    tb, sb = t.encode(), src.encode()
    return [(sb[x["source_begin"]:x["source_end"]].decode("utf-8", "replace"),
             tb[x["target_begin"]:x["target_end"]].decode("utf-8", "replace"), x["source_vname"]["corpus"]) for x in meta["meta"]]


NAMED = {"first", "S", "new", "f", "E", "B", "use_dep", "x", "y"}


BAD = [["--crate-namespace=self"], ["--crate-namespace==x"], ["--crate-namespace=self="], ["--crate-header=dep"],
       ["--crate-header=dep="], ["--crate-header==x.h"], ["--crate-rename=foo"], ["--crate-rename=foo="], ["--crate-rename==f"],
       ["--crate-feature=self"], ["--crate-feature=self="], ["--crate-feature=self=nope"], ["--crate-disabled-feature=self=nope"],
       ["--default-features=nope"], ["--no-such-option"], ["--h-out=x", "--h-out=y"]]


def check(chk):
    chk.coverage["rule"] = "one case = an option list given to the parser, or a set of options given to the generator; distinct ones are counted"
    harness(chk, "cmdl", "c39")
    e = E2E(chk)
    d = fresh_dir(os.path.join(chk.dir, "gen"))
    e.rust_lib(d, "dep", "pub struct D { pub a: i32 }\n")
    e.rust_lib(d, "foo", FOO, externs=[("dep", d + "/libdep.rlib")])
    names = sorted(options(""))
    if THOROUGH:
        subsets = [s for k in range(len(names) + 1) for s in itertools.combinations(names, k)]
    else:
        subsets = [s for k in (0, 1, 2, len(names) - 1, len(names)) for s in itertools.combinations(names, k)]

    def one(s):
        o = os.path.join(d, "o-" + "-".join(s))
        cwd = os.path.join(d, "cwd-" + "-".join(s))
        os.makedirs(o), os.makedirs(cwd)
        opt = options(o)
        args = sum((opt[n] if isinstance(opt[n], list) else opt[n][0] for n in s), [])
        # earlier, longer content must not survive
        for f in ("foo.h", "foo_impl.rs", "report.json", "foo.cc"):
            if f in ("foo.h", "foo_impl.rs") or (f == "report.json" and "report" in s) or (f == "foo.cc" and "cppout" in s):
                write(os.path.join(o, f), "OLD " * 20000)
        before = sorted(os.listdir(d))
        r = e.generate(d, "foo", args, ["dep"], outdir=o, cwd=cwd)
        got = {f: open(os.path.join(o, f)).read() for f in os.listdir(o)}
        stray = os.listdir(cwd)
        shutil.rmtree(o), shutil.rmtree(cwd)
        return s, args, r, got, stray
    base = None
    report = None
    results = pmap(one, subsets)
    for s, args, r, got, stray in results:
        chk.count(evaluations=1, distinct_nontrivial=1)
        a = " ".join(args)
        if r.rc != 0:
            chk.violation("generator-fails", f"with {a}:\n{r.tail()}")
            continue
        want = {"foo.h", "foo_impl.rs"} | ({"report.json"} if "report" in s else set()) | ({"foo.cc"} if "cppout" in s else set())
        if set(got) != want or stray:
            chk.violation("output-files", f"with {a} the files are {sorted(got)} (+{stray} in the working directory), expected {sorted(want)}")
            continue
        if any("OLD" in t for t in got.values()):
            chk.violation("stale-output", f"with {a} an output still has what the file had before")
        if s == ():
            base = got
        h, rs = base["foo.h"], base["foo_impl.rs"]
        opt = options("")
        for n in names:
            if n in s and isinstance(opt[n], tuple):
                h, rs = opt[n][1](h), opt[n][2](rs)
        gh = strip_kythe(got["foo.h"]) if "kythe" in s else got["foo.h"]
        if "golden" in s and "kythe" in s:   # together they keep the locations
            gh = lines_out(gh, r"^\s*// Generated from: ")
        for what, w, g in (("header", h, gh), ("rust", rs, got["foo_impl.rs"])):
            if compact(w) != compact(g):
                import difflib
                df = "\n".join(list(difflib.unified_diff(w.splitlines(), g.splitlines(), "expected", "got", n=0, lineterm=""))[:40])
                chk.violation(f"{what}-changed", f"with {a} the {what} differs from what the options document:\n{df}")
        if ("KYTHE_IS_RUNNING" in got["foo.h"]) != ("kythe" in s):
            chk.violation("kythe-metadata", f"with {a}: metadata present = {'KYTHE_IS_RUNNING' in got['foo.h']}")
        elif "kythe" in s:
            an = anchors(got["foo.h"], FOO)
            wrong = [x for x in an if x[1] not in (x[0], x[0] + "_", "Make" + x[0])]
            missing = NAMED - {x[0] for x in an}
            if wrong or missing or {x[2] for x in an} != {"corpus"}:
                chk.violation("kythe-anchors", f"with {a}: wrong anchors {wrong}, missing {missing}, all {an}")
        if "report" in s:
            rep = json.loads(got["report.json"])
            report = report or rep
            errs = {x["name"] for x in rep if x.get("errors")}
            if rep != report or errs != {"foo::foo::bad", "foo::foo::E::A"}:
                chk.violation("report", f"with {a} the error report is {got['report.json'][:800]}")
        chk.sample(f"{'+'.join(s) or '(none)'}")

    # files whose symbols are to be ignored: exactly their items disappear
    for f in "abc":
        write(os.path.join(d, f + ".rs"), f"pub fn in_{f}(x: i32) -> i32 {{ x }}\npub struct T_{f} {{ pub v: u8 }}\n")
    e.rust_lib(d, "ign", "pub mod a; pub mod b; pub mod c; pub fn top(x: i32) {}\n")
    files = {f: os.path.join(d, f + ".rs") for f in "abc"} | {"top": os.path.join(d, "ign.rs")}

    def ign(s):
        o = os.path.join(d, "ign-" + "-".join(s))
        os.makedirs(o)
        r = e.generate(d, "ign", sum((["--ignore-symbols-from-files=" + files[f]] for f in s), []) + ["--kythe-default-corpus=kk", "--kythe-annotations"], outdir=o)
        h = open(os.path.join(o, "ign.h")).read() if r.rc == 0 else ""
        shutil.rmtree(o)
        return s, r, h
    for s, r, h in pmap(ign, [s for k in range(5) for s in itertools.combinations(sorted(files), k)]):
        chk.count(evaluations=1, distinct_nontrivial=1)
        if r.rc != 0:
            chk.violation("generator-fails", f"with ignored files {s}:\n{r.tail()}")
            continue
        have = {f for f in files if re.search(rf"\b{'top' if f == 'top' else 'in_' + f} ?\(", h)}
        types = {f for f in "abc" if re.search(rf"struct\b[^;]*\bT_{f} final", h)}
        if have != set(files) - set(s) or types != set("abc") - set(s):
            chk.violation("ignored-files", f"with the symbols of {s} ignored, bindings exist for {have} / types {types}")
        if len(s) < 4 and {x[2] for x in anchors(h, "")} != {"kk"}:
            chk.violation("kythe-corpus", f"anchors {anchors(h, '')[:3]}")

    def bad(ib):
        i, b, pos = ib
        o = os.path.join(d, f"bad{i}{pos}")
        os.makedirs(o)
        good = ["--crate-namespace=dep=n", "--h-out-include-guard=G"]
        r = e.generate(d, "foo", b + good if pos else good + b, ["dep"], outdir=o, cwd=o)
        f = os.listdir(o)
        shutil.rmtree(o)
        return b, pos, r, f
    for b, pos, r, f in pmap(bad, [(i, b, p) for i, b in enumerate(BAD) for p in (0, 1)]):
        chk.count(evaluations=1, distinct_nontrivial=1)
        if r.rc == 0:
            chk.violation("accepts-bad-option", f"{b} is accepted")
        elif r.rc not in (1, 2) or f:
            chk.violation("bad-option-handling", f"{b}: exit {r.rc}, files {f}\n{r.tail(800)}")


main(check, "C39", "exploration")
