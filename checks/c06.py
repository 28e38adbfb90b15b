#!/usr/bin/env python3
"""C06: the generator run on every crate of a corpus under enumerated hash seeds, heap layouts and surroundings; and
on every permutation of four independent items."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from items import *
import itertools, difflib, json, collections

SPEC = "--default-features=supported,layout_compat_tuple,always_specialize_generics_in_cpp_api_from_rust"
# crates with many ties: things that have no natural order but must come out in one
N = 10
R = range(N)
PRIMS = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "bool", "char", "usize", "isize"]
STRUCTS = " ".join(f"#[derive(Clone, PartialEq, PartialOrd, Debug, Default)] pub struct S{i} {{ pub a: i32, b: u{8 << i % 4} }}" for i in R)
ALL = [f"S{i}" for i in R] + PRIMS


def ties():
    yield "specs", [], "#![allow(warnings)]\n" + STRUCTS + "\n" + "\n".join(
        f"pub fn a{i}(x: Option<{t}>) -> Vec<{t}> {{ loop {{}} }} pub fn b{i}(x: Result<{t}, {ALL[(i + 1) % len(ALL)]}>) -> Option<Vec<{t}>> {{ loop {{}} }} pub fn c{i}(x: ({t}, {ALL[(i + 2) % len(ALL)]}), y: &[{t}], z: [{t}; {i + 1}]) -> Option<Option<{t}>> {{ loop {{}} }} pub struct H{i} {{ pub o: Option<{t}>, pub v: Vec<{t}>, pub r: Result<{t}, u8> }}"
        for i, t in enumerate(ALL))
    yield "oneitem", [], "#![allow(warnings)]\n" + STRUCTS + "\npub struct M { " + " ".join(f"pub f{i}: Option<{t}>, pub g{i}: Vec<{t}>," for i, t in enumerate(ALL)) + " }\npub fn m(" + ", ".join(f"x{i}: Result<{t}, {u}>" for i, (t, u) in enumerate(zip(ALL, ALL[3:]))) + ") {}\n"
    mods = "abcdefgh"
    yield "paths", [], "#![allow(warnings)]\n mod hidden { " + " ".join(f"pub struct P{i} {{ pub x: i32 }} impl P{i} {{ pub fn new() -> P{i} {{ loop {{}} }} pub fn get(&self) -> Option<P{(i + 1) % N}> {{ None }} }} pub enum E{i} {{ A, B(P{i}) }} pub fn f{i}(p: &P{i}) {{}} pub const C{i}: i32 = {i}; pub type A{i} = P{i};" for i in R) + " }\n" + \
        " ".join(f"pub mod {m} {{ " + " ".join(f"pub use crate::hidden::P{i}; pub use crate::hidden::P{i} as Q{i}; pub use crate::hidden::f{i}; pub use crate::hidden::E{i} as X{i}; pub use crate::hidden::C{i};" for i in R) + f" pub mod {m}{m} {{ pub use crate::hidden::*; pub use super::P1 as Z; }} pub type T = super::hidden::P0; }}" for m in mods) + \
        "\npub use h::*; pub use a::P3 as Top; pub fn use_all(" + ", ".join(f"p{i}: &hidden::P{i}, e{i}: hidden::E{i}" for i in R) + ") {}\npub mod glob1 { pub use super::a::*; pub use super::glob2::*; } pub mod glob2 { pub use super::glob1::*; pub use super::b::aa; }\n".replace("aa", "bb")
    yield "cycles", [], "#![allow(warnings)]\n" + " ".join(f"pub mod m{i} {{ pub struct S {{ pub p: *const super::m{(i + 1) % N}::S, pub q: *mut super::m{(i + 3) % N}::T, pub v: Vec<i32> }} pub struct T {{ pub s: super::m{(i * 7 + 1) % N}::U, pub o: Option<super::m{(i + 5) % N}::U> }} pub struct U {{ pub p: Option<*const S>, pub q: *const super::m{(i + 4) % N}::T }} impl U {{ pub fn f(&self, s: &super::m{(i + 2) % N}::S, t: &mut super::m{(i + 6) % N}::T) -> &U {{ self }} }} pub fn g(a: super::m{(i + 9) % N}::S, b: S, c: T) -> (S, T) {{ loop {{}} }} }}" for i in R)
    yield "errors", [], "#![allow(warnings)] #![feature(negative_impls)]\n" + module(1000, []) + "\n" + "\n".join(
        module(1001 + j, [("last", t.replace("@", f"{j}x{i}")) for i, (t, _r) in enumerate(TOP)] + [("impl", t.replace("@", f"{j}y{i}")) for i, (t, _r) in enumerate(IMPL)]) + f" pub mod e{j} {{ use super::m1000::*; " + " pub struct L { pub a: i32 } pub struct Bad { pub a: i128, pub b: Box<S>, pub c: &'static dyn Tr, pub d: Box<dyn Fn(S) -> i128> } pub fn bad(a: i128, b: Box<S>, c: &dyn Tr, d: std::ops::Range<i128>) -> Result<Box<S>, i128> { loop {} } pub enum Eb { A(i128, Box<S>), B { x: Box<E>, y: i128 } } }" for j in range(3))
    tr = " ".join(f"pub trait Tr{i} {{ fn m{i}(&self) -> i32; fn n(&self, s: S{i}) -> Option<S{i}> {{ None }} fn st() {{}} }} pub trait Gt{i}<T> {{ fn g(&self, t: T) -> T; }}" for i in R)
    im = " ".join(f"impl Tr{i} for S{j} {{ fn m{i}(&self) -> i32 {{ 1 }} }} impl Gt{i}<S{j}> for S{i} {{ fn g(&self, t: S{j}) -> S{j} {{ t }} }}" for i in R for j in R if (i * j) % 3 != 1)
    yield "traits", [], "#![allow(warnings)] #![feature(negative_impls, auto_traits)]\n" + STRUCTS + tr + im + " ".join(f"pub struct Ns{i} {{ pub p: *const i32 }} pub struct Sy{i} {{ pub c: std::cell::Cell<i32>, pub x: u8 }} impl !Unpin for Ns{i} {{}}" for i in R)
    conv = " ".join(f"impl From<S{j}> for S{i} {{ fn from(x: S{j}) -> S{i} {{ loop {{}} }} }}" for i in R for j in R if i != j and i < 5) + " ".join(f"impl From<{p}> for S{i} {{ fn from(x: {p}) -> S{i} {{ loop {{}} }} }} impl From<S{i}> for {p} {{ fn from(x: S{i}) -> {p} {{ loop {{}} }} }} impl PartialEq<{p}> for S{i} {{ fn eq(&self, o: &{p}) -> bool {{ true }} }} impl PartialOrd<{p}> for S{i} {{ fn partial_cmp(&self, o: &{p}) -> Option<std::cmp::Ordering> {{ None }} }} impl std::ops::Add<{p}> for S{i} {{ type Output = {p}; fn add(self, x: {p}) -> {p} {{ x }} }} impl std::ops::MulAssign<{p}> for S{i} {{ fn mul_assign(&mut self, x: {p}) {{}} }}" for i in R for p in PRIMS)
    yield "conv", [], "#![allow(warnings)]\n" + STRUCTS + conv + " ".join(f"impl PartialEq<S{j}> for S{i} {{ fn eq(&self, o: &S{j}) -> bool {{ true }} }} impl PartialOrd<S{j}> for S{i} {{ fn partial_cmp(&self, o: &S{j}) -> Option<std::cmp::Ordering> {{ None }} }} impl std::ops::Sub<S{j}> for S{i} {{ type Output = S{i}; fn sub(self, x: S{j}) -> S{i} {{ self }} }} impl std::ops::Shl<&S{j}> for &S{i} {{ type Output = i32; fn shl(self, x: &S{j}) -> i32 {{ 1 }} }}" for i in R for j in R if i != j)
    yield "bridges", [], "#![allow(warnings)]\n" + " ".join(f"#[doc=\"CRUBIT_ANNOTATE: cpp_type=x::T{i}\"] #[doc=\"CRUBIT_ANNOTATE: include_path=inc/{'zyxwvutsrq'[i]}.h\"] #[doc=\"CRUBIT_ANNOTATE: bridge_abi_cpp=::x::A{i}\"] #[doc=\"CRUBIT_ANNOTATE: bridge_abi_rust=::foo::A{i}\"] pub struct T{i} {{ pub a: i32 }} #[doc=\"CRUBIT_ANNOTATE: cpp_type=y::P{i}\"] #[doc=\"CRUBIT_ANNOTATE: include_path=inc2/{'zyxwvutsrq'[i]}.h\"] #[repr(transparent)] pub struct P{i}(*mut i32);" for i in R) + " pub fn f(" + ", ".join(f"p{i}: P{i}" for i in R) + ") {} " + " ".join(f"pub fn g{i}(x: P{i}, y: P{(i + 3) % N}) -> P{(i * 3) % N} {{ y }}" if False else f"pub fn g{i}(x: P{i}, y: P{(i + 3) % N}) -> P{(i + 3) % N} {{ y }}" for i in R)
    yield "lives", [], "#![allow(warnings)]\n" + STRUCTS + " ".join(f"pub struct L{i}<'a, 'b, 'c> {{ pub a: &'a S{i}, pub b: &'b [S{i}], pub c: &'c str }} impl<'a, 'b, 'c> L{i}<'a, 'b, 'c> {{ pub fn f<'d, 'e>(&'d self, x: &'e L{i}<'b, 'a, 'd>, y: &'a &'e str) -> (&'a S{i}, &'d str, &'e str) {{ loop {{}} }} }} pub fn h{i}<'a, 'b, 'c, 'd>(a: &'a S{i}, b: &'b S{i}, c: &'c S{i}, d: &'d S{i}) -> (&'a i32, &'b i32, &'c i32, &'d i32) {{ loop {{}} }} pub fn im{i}(a: impl AsRef<str>, b: impl Into<i32>, c: impl AsRef<[u8]>) {{}} pub async fn as{i}(x: S{i}) -> i32 {{ 1 }} pub fn fp{i}(f: extern \"C\" fn(S{i}, &S{i}) -> S{i}, g: extern \"C\" fn()) {{}}" for i in R)
    yield "impls", [], "#![allow(warnings)]\n" + STRUCTS + "\n".join(" ".join(f"impl S{i} {{ pub fn f{j}_{i}(&self) -> S{j} {{ loop {{}} }} pub const C{j}: i32 = {j}; pub fn a_{j}(&mut self) {{}} }}" for i in R) for j in R) + " ".join(f"pub union U{i} {{ pub a: i32, pub b: f64, pub c: S{i}C }} #[derive(Clone, Copy)] pub struct S{i}C {{ pub a: u8 }} pub enum V{i} {{ A, B(S{i}), C {{ x: i32, y: S{i} }} }} #[repr(C)] #[derive(Clone, Copy)] pub enum W{i} {{ A, B(S{i}C) }} impl Drop for Dr{i} {{ fn drop(&mut self) {{}} }} pub struct Dr{i} {{ pub s: S{i} }} impl Iterator for Dr{i} {{ type Item = S{i}; fn next(&mut self) -> Option<S{i}> {{ None }} }}" for i in R)


DEPS = [(f"dep{i}", [f"dep{j}" for j in range(i)][-2:], f"pub mod inner {{ pub struct D{i} {{ pub a: i32 }} impl Clone for D{i} {{ fn clone(&self) -> D{i} {{ loop {{}} }} }} }} pub use inner::D{i}; pub use inner::D{i} as Same; pub trait T{i} {{ fn f(&self, d: &D{i}); }} pub type Al{i} = Vec<D{i}>; pub fn g(o: Option<D{i}>) {{}} "
        + " ".join(f"pub use dep{j}::D{j} as Re{j}; pub use dep{j};" for j in range(max(0, i - 2), i))) for i in range(6)]
TOPDEP = "#![allow(warnings)] " + " ".join(f"pub use dep{i}::D{i} as X{i}; pub use dep{i}::inner as in{i}; pub fn f{i}(d: &dep{i}::D{i}, o: Option<dep{i}::D{i}>, v: dep{i}::Al{i}) -> Result<dep{i}::D{i}, dep{(i + 1) % 6}::D{(i + 1) % 6}> {{ loop {{}} }} pub struct S{i} {{ pub d: dep{i}::D{i} }} impl dep{i}::T{i} for S{i} {{ fn f(&self, d: &dep{i}::D{i}) {{}} }}" for i in range(6)) + \
    " pub fn all(" + ", ".join(f"d{i}: &dep{i}::D{i}" for i in range(6)) + ", s: String, v: Vec<String>, d: std::time::Duration, n: std::net::Ipv4Addr) {} pub use std::time::Duration as Dur; pub use std::collections::hash_map as hm;"
DEPOPTS = sum(([f"--crate-header=dep{i}=z/{9 - i}.h", f"--crate-header=dep{i}=a/{i}.h", f"--crate-namespace=dep{i}=ns{9 - i}::x", f"--crate-feature=dep{i}=supported", f"--crate-feature=dep{i}=experimental", f"--crate-rename=dep{i}=ren{i}"] for i in range(6)), []) + \
    ["--crate-feature=self=wrapper", "--crate-feature=self=types", "--crate-feature=self=thunkless_accessors", "--crate-feature=self=leading_colons_for_cpp_type", "--crate-feature=self=assume_lifetimes", "--crate-feature=self=supported", "--crate-feature=self=layout_compat_tuple", "--crate-feature=self=async_fn_send_modulo_regions", "--crate-feature=self=experimental"]

# independent items for the permutations; they may use the common ones only
ITEMS = ["pub fn k@(s: &S, e: E) -> Option<S> { None }", "pub struct K@ { pub x: Option<S>, y: u64 } impl K@ { pub fn new() -> K@ { loop {} } pub fn m(&self) -> &S { &self.x.as_ref().unwrap() } pub const Z: i32 = 1; } impl Drop for K@ { fn drop(&mut self) {} } impl Default for K@ { fn default() -> Self { loop {} } }",
         "#[derive(Clone, Copy, PartialEq, PartialOrd)] #[repr(C)] pub enum J@ { A, B(u8), C { z: i32 } } impl From<i32> for J@ { fn from(x: i32) -> Self { J@::A } } impl From<J@> for i32 { fn from(x: J@) -> i32 { 1 } }", "pub mod j@ { pub use super::S as R; pub struct In { pub a: i32 } pub fn f(i: In) -> super::S { loop {} } pub type X = In; }",
         "pub const G@: i64 = 77; pub type F@ = super::Vec2<S>;".replace("super::Vec2<S>", "n::T"), "pub trait H@ { fn h(&self, s: &S) -> i32; fn d() -> i32 { 3 } } impl H@ for S { fn h(&self, s: &S) -> i32 { 1 } }",
         "pub use n::g as q@;", "pub fn b@(x: i128) {} pub struct B@<T>(T);", "pub union Y@ { pub a: f32, pub b: [u8; 4] } pub fn y@(v: Vec<E>, r: Result<(), S>) -> (u8, S) { loop {} }", "impl S { pub fn v@(self) -> i32 { 1 } pub fn w@(&mut self, o: &S) {} pub const X@: u8 = 2; }",
         "impl PartialEq<(@NUMi32)> for S { fn eq(&self, o: &i32) -> bool { true } }".replace("(@NUMi32)", "TY@") + " pub struct TY@ { pub q: u8 }".replace("TY@", "TY@")]
ITEMS[-1] = "pub struct TY@ { pub q: u8 } impl PartialEq<TY@> for S { fn eq(&self, o: &TY@) -> bool { true } } impl std::ops::AddAssign<TY@> for S { fn add_assign(&mut self, o: TY@) {} } impl From<TY@> for S { fn from(x: TY@) -> S { loop {} } }"

ORDERS = r"""
use std::collections::HashSet;
fn main() { let s: HashSet<&str> = ["one", "two", "three"].into_iter().collect(); println!("{}", s.into_iter().collect::<Vec<_>>().join(" ")); let a: Vec<Box<u64>> = (0..64).map(Box::new).collect(); let p: Vec<usize> = a.iter().map(|b| &**b as *const u64 as usize).collect(); println!("{}", p.windows(2).map(|w| if w[0] < w[1] { '<' } else { '>' }).collect::<String>()); }
"""


def check(chk):
    chk.coverage["rule"] = "one case = one run of the generator on a crate of the corpus under one hash seed, heap layout, output place, working directory, environment and set of optional outputs, or one permutation of four items; distinct ones are counted"
    e = E2E(chk)
    top = fresh_dir(os.path.join(chk.dir, "c"))
    shim = os.path.join(top, "env.so")
    r = run(["gcc", "-O2", "-shared", "-fPIC", "-fno-builtin", os.path.join(VERIF, "harness/cpp/c06_env.c"), "-o", shim])
    if r.rc != 0:
        raise EngineError("shim: " + r.tail())
    write(os.path.join(top, "orders.rs"), ORDERS)
    r = run(["rustc", "--edition=2021", "-Cprefer-dynamic", "-o", os.path.join(top, "orders"), os.path.join(top, "orders.rs")], cwd=top)
    if r.rc != 0:
        raise EngineError("orders: " + r.tail())
    penv = dict(sysroot_env(), LD_PRELOAD=shim)
    penv["LD_LIBRARY_PATH"] = TLIB() + ":" + os.path.join(SYSROOT(), "lib")
    seen, seeds = {}, []
    heaps = {}
    for s in range(64):         # as few seeds as give all six orders of a set of three, twice each
        h = ("up", "down", "rev", "alt")[s % 4]
        r = run([os.path.join(top, "orders")], env=dict(penv, C06_SEED=str(s), C06_HEAP=h))
        if r.rc != 0:
            raise EngineError("orders does not run: " + r.tail())
        o, p = r.out.split("\n")[:2]
        heaps[h] = p
        if len(seen.setdefault(o, [])) < (4 if THOROUGH else 1):
            seen[o].append(s)
            seeds.append(s)
    if len(seen) != 6 or len(set(heaps.values())) < 3:
        raise EngineError(f"the shim does not control the order of sets and of the heap: {seen} {heaps}")
    chk.log(f"seeds {seeds}")

    corpus = []      # (name, externs dir, deps, args, dir)
    def tie(x):
        name, deps, src = x
        d = fresh_dir(os.path.join(top, name))
        e.rust_lib(d, "foo", src, flags=["-Zallow-features=negative_impls,auto_traits"])
        return name, d, "foo", [], []
    corpus += pmap(tie, list(ties()))
    d = fresh_dir(os.path.join(top, "deps"))
    for n, on, src in DEPS:
        e.rust_lib(d, n, src, externs=[(x, f"{d}/lib{x}.rlib") for x in on])
    names = [n for n, _o, _s in DEPS]
    e.rust_lib(d, "foo", TOPDEP, externs=[(n, f"{d}/lib{n}.rlib") for n in names])
    corpus.append(("deps", d, "foo", names, []))
    corpus.append(("depopts", d, "foo", names, DEPOPTS))
    own = len(corpus)
    T = os.path.join(REPO, "cc_bindings_from_rs", "test")
    def theirs(f):
        n = os.path.basename(f)[:-3]
        if not re.fullmatch(r"\w+", n) or n in ("core", "std", "alloc", "lib", "no_core", "build"): return None
        d = fresh_dir(os.path.join(top, "t-" + os.path.relpath(f, T).replace("/", "-")[:-3]))
        r = run(["rustc", "--crate-type=lib", f"--crate-name={n}", "--edition=2021", "-Awarnings", "-Cdebuginfo=0", "-o", os.path.join(d, f"lib{n}.rlib"), f], cwd=d, timeout=120)
        return ("test " + os.path.relpath(f, T), d, n, [], []) if r.rc == 0 else None
    fs = sorted(os.path.join(b, f) for b, _d, ff in os.walk(T) for f in ff if f.endswith(".rs") and "_cc_api" not in f)
    corpus += [x for x in pmap(theirs, fs) if x]
    chk.log(f"{len(corpus)} crates ({len(corpus) - own} from the repository's tests)")

    def variants(mode):
        yield "base", dict(env={}, o="a", cwd=None, args=["--error-report-out"])
        for k, s in enumerate(seeds):
            yield f"seed {s}, heap {('up', 'down', 'rev', 'alt')[k % 4]}", dict(env={"LD_PRELOAD": shim, "C06_SEED": str(s), "C06_HEAP": ("up", "down", "rev", "alt")[k % 4], "C06_REUSE": str(k // 4 % 2)}, o="a", cwd=None, args=["--error-report-out"])
        yield "other place", dict(env={"HOME": "/nonexistent", "LANG": "tr_TR.UTF-8", "LC_ALL": "de_DE", "TZ": "Asia/Tokyo", "COLUMNS": "20", "RUST_BACKTRACE": "full", "USER": "x", "PWD": "/", "CARGO_MANIFEST_DIR": "/q", "SOURCE_DATE_EPOCH": "1", "RUSTC_BOOTSTRAP": "1", "TERM": "xterm-256color", "X" * 3000: "y" * 9000}, o="deep/er/" + "l" * 100, cwd="/", args=["--error-report-out"])
        yield "no report", dict(env={}, o="a", cwd="cwd", args=[])
        yield "kythe", dict(env={}, o="a", cwd=None, args=["--error-report-out", "--kythe-annotations", "--kythe-default-corpus=c"])
        yield "cpp-out", dict(env={}, o="b", cwd=None, args=["--error-report-out", "--cpp-out"])

    walls = {}
    def one(job):
        ci, mode, vi = job
        name, d, crate, deps, extra = corpus[ci]
        vname, v = list(variants(mode))[vi]
        o = os.path.join(d, f"o{ci}{mode}{vi}", v["o"])
        os.makedirs(o)
        args = list(extra) + ([SPEC] if mode == "s" else [])
        for a in v["args"]:
            args += [a, os.path.join(o, "report.json")] if a == "--error-report-out" else [a, os.path.join(o, "x.cc")] if a == "--cpp-out" else [a]
        cwd = os.path.join(d, "cwd") if v["cwd"] == "cwd" else v["cwd"] or d
        os.makedirs(cwd, exist_ok=True)
        r = e.generate(d, crate, args, deps, outdir=o, env=v["env"], cwd=cwd)
        walls[name] = walls.get(name, 0) + r.wall
        got = {f: open(os.path.join(o, f)).read() for f in sorted(os.listdir(o)) if f != "x.cc"}
        got["exit status"] = str(r.rc) + (r.err[-600:] if r.rc else "")
        shutil.rmtree(os.path.join(d, f"o{ci}{mode}{vi}"))
        return got
    vn = [n for n, _v in variants("d")]
    jobs = [(c, m, v) for c in range(len(corpus)) for m in "ds" for v in range(len(vn))
            if THOROUGH or (c < own and (m == "d" or v % 2 == 0)) or "ds"[c % 2] == m and v in (0, 1 + c % len(seeds), 1 + (c + 3) % len(seeds), len(seeds) + 1 + c % 4)]
    chk.log(f"{len(jobs)} runs")
    res = dict(zip(jobs, pmap(one, jobs)))
    chk.log("seconds per crate: " + ", ".join(f"{n} {w:.0f}" for n, w in sorted(walls.items(), key=lambda x: -x[1])[:14]))
    used = 0
    for (c, m, v), got in sorted(res.items()):
        chk.count(evaluations=1, distinct_nontrivial=1)
        base = res[(c, m, 0)]
        name = corpus[c][0]
        if base["exit status"] != "0" and v == 0 and c < own:
            chk.violation(f"fails {name} {m}", f"generation fails for {name}: {base['exit status'][:900]}")
        if v == 0 or base["exit status"] != "0":
            used += v == 0 and base["exit status"] == "0"
            continue
        want = dict(base)
        if vn[v] == "no report": want.pop("report.json", None)
        if vn[v] == "kythe":
            for f in list(got):
                if f.endswith(".h"):
                    t = re.sub(r"#ifdef KYTHE_IS_RUNNING\n.*?#endif\n", "", got[f], count=1, flags=re.S)
                    t = re.sub(r"(?m)^// This file contains Kythe metadata\. .*", "", t)
                    got[f], want[f] = (re.sub(r"\s+", "", re.sub(r"(?m)^\s*//(\s*$| Generated from: .*)", "", x)) for x in (t, want[f]))
        for f in sorted(set(want) | set(got)):
            if want.get(f) != got.get(f):
                df = "\n".join(list(difflib.unified_diff((want.get(f) or "").splitlines(), (got.get(f) or "").splitlines(), "first run", vn[v], n=0, lineterm=""))[:14])
                chk.violation(f"differs {name} {m} {vn[v]} {'report' if 'report' in f else 'header' if f.endswith('.h') else 'rust'}", f"crate {name}, {'specialized' if m == 's' else 'default'} mode: {f} is different with '{vn[v]}':\n{df[:3000]}")
    chk.sample([f"{corpus[c][0]}: {vn[v]}" for c, m, v in jobs[::max(1, len(jobs) // 10)]])
    chk.log("same crate, different surroundings: done")
    # ---- the standard library
    def stdone(job):
        c, k = job
        d = os.path.join(top, f"std-{c}-{k}")
        os.makedirs(d)
        env = dict(sysroot_env())
        if k: env.update({"LD_PRELOAD": shim, "C06_SEED": str(seeds[k]), "C06_HEAP": ("up", "down", "rev", "alt")[k % 4]})
        r = run(e.gen_std_cmd(c, d + "/c.h", d + "/c.rs", ["--error-report-out", d + "/rep"]), env=env, timeout=300)
        return [r.rc] + [open(f"{d}/{f}").read() for f in ("c.h", "c.rs", "rep")]
    sj = [(c, k) for c in ("core", "alloc", "std") for k in range(3 if not THOROUGH else len(seeds))]
    sres = dict(zip(sj, pmap(stdone, sj)))
    for (c, k), got in sres.items():
        chk.count(evaluations=1, distinct_nontrivial=1)
        for w, g, f in zip(sres[(c, 0)], got, ("status", "header", "rust", "report")):
            if w != g:
                df = "\n".join(list(difflib.unified_diff(str(w).splitlines(), str(g).splitlines(), n=0, lineterm=""))[:14])
                chk.violation(f"std {c} {f}", f"bindings of {c} with seed {seeds[k]}: the {f} is different:\n{df[:3000]}")
    chk.log("standard library: done")
    # ---- permutations
    groups = list(itertools.combinations(range(len(ITEMS)), 4))
    perms = list(itertools.permutations(range(4)))
    if not THOROUGH:
        groups = [g for i, g in enumerate(groups) if i % 6 == 0]
    W = 2     # groups per crate
    batches = [groups[i:i + W] for i in range(0, len(groups), W)]

    def perm(job):
        bi, mode = job
        nm = f"p{mode}{bi}"
        d = fresh_dir(os.path.join(top, nm))
        src = ["#![allow(warnings)]"]
        for gi, g in enumerate(batches[bi]):
            for pi, p in enumerate(perms):
                src.append(module(1000 + gi * 24 + pi, [("first" if j < 2 else "last", ITEMS[g[x]].replace("@", str(x))) for j, x in enumerate(p)]))
        e.rust_lib(d, "foo", "\n".join(src) + "\n")
        r = e.generate(d, "foo", (["--error-report-out", d + "/rep"] + ([SPEC] if mode == "s" else [])))
        out = []
        if r.rc != 0:
            return [("fails", None, None, r.tail(1200))]
        def fine(X):      # statements and declarations, wherever the lines break
            out = collections.defaultdict(collections.Counter)
            for k, ls in X.items():
                for l, n in ls.items():
                    for p in re.split(r"(?<=[;{}])", l):
                        if p.strip(): out[k][p.strip()] += n
            return out
        H, I = fine(pieces(open(d + "/foo.h").read())), fine(pieces(open(d + "/foo_impl.rs").read()))
        rep = collections.defaultdict(list)
        for x in json.load(open(d + "/rep")):
            m = re.match(r"foo::foo::m(\d{4})::(.*)", x["name"])
            if m: rep[m.group(1)].append((m.group(2), json.dumps(x.get("errors")).replace("m" + m.group(1), "m")))
        for gi, g in enumerate(batches[bi]):
            b = str(1000 + gi * 24)
            for pi, p in enumerate(perms):
                k = str(1000 + gi * 24 + pi)
                for what, X in (("header", H), ("Rust half", I)):
                    if X[k] != X[b]:
                        out.append((what, g, p, f"{[l[:200] for l in list(X[k] - X[b])[:3]]}\ninstead of {[l[:200] for l in list(X[b] - X[k])[:3]]}"))
                if sorted(rep[k]) != sorted(rep[b]):
                    out.append(("report", g, p, f"{rep[k]} instead of {rep[b]}"))
        shutil.rmtree(d)
        return out
    pj = [(b, m) for b in range(len(batches)) for m in ("ds" if THOROUGH else "d" if b % 4 else "ds")]
    for (b, m), out in zip(pj, pmap(perm, pj)):
        chk.count(evaluations=24 * len(batches[b]), distinct_nontrivial=24 * len(batches[b]))
        for what, g, p, text in out:
            if g is None:
                chk.violation(f"permutation fails {m}", text); continue
            chk.violation(f"permutation {m} {what} {g} {p}", f"the items\n" + "\n".join(ITEMS[g[x]].replace("@", str(x)) for x in p) + f"\nin this order give, in the {what}, {text}")
    orders_of_modules(chk, e, top)
    chk.coverage["crates"] = used
    chk.log(f"{len(groups)} groups of items in all orders: done")


def orders_of_modules(chk, e, top):
    # ---- modules through which the same items are public, in all orders: which path is the canonical one must not depend on it
    # (the order of the items in the header may, and so may the names in the messages, which rustc makes)
    mods = ["zebra", "apple", "mango", "kiwi"] + (["plum"] if THOROUGH else [])
    base = "#![allow(warnings)] mod hidden { #[derive(Clone, Copy)] pub struct St { pub a: i32 } #[derive(Clone, Copy)] pub enum En { Aa, Bb(i32) } pub union Un { pub a: i32 } pub fn ff(x: St) -> En { En::Aa } pub const CC: i32 = 1; pub trait Tr { fn g(&self) -> St; } impl Tr for St { fn g(&self) -> St { *self } } pub mod inner { pub struct In { pub s: super::St } pub fn ff(x: &In) -> super::En { super::En::Aa } } }\n"
    parts = {m: ("pub use hidden::{CC, Un}; " if m == mods[0] else "") + f"pub mod {m} {{ pub use super::hidden::{{St, En, ff, Tr}}; pub mod deep{m} {{ pub use super::super::hidden::inner::In as Q; pub use super::super::hidden::St as Zz; pub use super::super::hidden::St as Aa; }} pub fn of{m}(s: St, e: Option<En>, i: &super::hidden::inner::In, q: &deep{m}::Q) -> Option<St> {{ None }} }}" for m in mods}

    anyname = r"foo::(zebra|apple|mango|kiwi|plum)::(deep\w+::)?(?=\w)"

    def order(job):
        i, o, mode = job
        d = fresh_dir(os.path.join(top, f"o{mode}{i}"))
        e.rust_lib(d, "foo", base + " ".join(parts[m] for m in o) + "\n")
        r = e.generate(d, "foo", (["--error-report-out", d + "/rep"] + ([SPEC] if mode == "s" else [])))
        out = r.tail(1200) if r.rc else tuple(open(d + "/" + f).read().replace(d, "D") for f in ("foo.h", "foo_impl.rs", "rep"))
        if not r.rc: out = tuple("\n".join(sorted(q for q in ((re.sub(anyname, "", q) if "// " in q else q) for q in (re.sub(r"\s+", " ", q).strip() for q in re.split(r"(?<=[;{}])", x))) if not re.fullmatch(r"(.*@generated.*)|(namespace .*)|(struct \w+;)|\}|", q))) for x in out[:2]) + ("\n".join(sorted(json.dumps(x, sort_keys=True) for x in json.loads(re.sub(anyname, "", out[2])))),)
        shutil.rmtree(d)
        return out
    for mode in "ds" if THOROUGH else "d":
        orders = list(itertools.permutations(mods))
        res = pmap(order, [(i, o, mode) for i, o in enumerate(orders)])
        chk.count(evaluations=len(orders), distinct_nontrivial=len(orders))
        for o, r in zip(orders, res):
            if isinstance(r, str): chk.violation(f"orders fail {mode}", f"modules in the order {o}: {r}"); continue
            for f, x, y in zip(("header", "Rust half", "report"), r, res[0]):
                if x != y: chk.violation(f"order {mode} {f} {' '.join(o)}", f"the modules in the order {o} (and not {orders[0]}) change the {f}:\n" + "\n".join(l[:400] for l in list(difflib.unified_diff(y.split("\n"), x.split("\n"), n=0, lineterm=""))[:14]))
    chk.log("orders of modules: done")


def only_orders(chk): orders_of_modules(chk, E2E(chk), chk.dir)


main(only_orders if os.environ.get("C06") == "o" else check, "C06", "exploration")
