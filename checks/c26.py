#!/usr/bin/env python3
"""C26: every nesting of bridge combinators up to a depth x every value of a small domain x both directions.
The trees' spelling in both languages is what common/crubit_abi_type.rs prints; encoders and decoders are
support/bridge.h and support/crubit_bridge_rust; a second part goes through generated bindings."""
import sys, os, itertools; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

SCALARS = [f"{r}={c}" for r, c in (("u8", "uint8_t"), ("i8", "int8_t"), ("u16", "uint16_t"), ("i32", "int32_t"), ("u32", "uint32_t"), ("u64", "uint64_t"),
                                   ("i64", "int64_t"), ("f32", "float"), ("f64", "double"), ("bool", "bool"))]
LEAVES = SCALARS + ["cp", "mp", "cs", "ms", "mix", "fn", "co", "own", "obj", "msg", "str", "strin"]
RAW = ("mix", "own", "obj", "msg", "str")  # what is encoded differs from run to run, or has padding


def values(t):
    w = t.split(" ")
    def go():
        x = w.pop(0)
        if x in ("O", "UO"): return 1 + go()
        if x in ("P", "UP"): return go() * go()
        return 2
    return go()


def trees():
    out = list(LEAVES)
    out += [f"{o} {l}" for o in ("O", "UO") for l in LEAVES]
    small = ["u8=uint8_t", "f64=double", "cs", "own", "obj", "mix", "bool=bool", "str"]
    out += [f"P {a} {b}" for a in LEAVES for b in LEAVES]
    out += [f"UP {a} {b}" for a in small for b in small]
    core = ["u16=uint16_t", "own", "obj"] + (["bool=bool", "cs"] if THOROUGH else [])
    d1 = core + [f"{o} {l}" for o in ("O", "UO") for l in core] + [f"{p} {a} {b}" for p in ("P", "UP") for a in core for b in core]
    out += [f"{o} {x}" for o in ("O", "UO") for x in d1[len(core):]]
    sub = d1 if THOROUGH else core[:2] + [f"O {l}" for l in core] + ["UO own"] + [f"P {a} {b}" for a in core for b in core] + ["UP u16=uint16_t own", "UP own obj"]
    out += [f"P {a} {b}" for a in sub for b in sub]
    out += [f"O O O {l}" for l in core] + [f"O P O {a} O {b}" for a in core for b in core] + [f"P P {a} {b} P {b} {a}" for a in core for b in core]
    return [t for t in dict.fromkeys(out) if values(t) <= 1300]


def tuples(ty):
    """TupleAbi is not spelled by crubit_abi_type: composed here from what it prints for the elements. Each: list of elements, nested lists are tuples."""
    core = ["u8=uint8_t", "u32=uint32_t", "own", "obj"]
    out = [[]] + [[a] for a in LEAVES] + [[a, b] for a in core for b in core + ["str", "cs", "mix"]] + [[a, b, c] for a in core for b in core for c in core]
    cyc = ["u8=uint8_t", "own", "u32=uint32_t", "bool=bool", "u64=uint64_t", "u16=uint16_t"]
    out += [[cyc[(i + k) % len(cyc)] for i in range(n)] for n in range(4, 13) for k in (range(3) if n < 10 else range(1))]
    out += [[["u8=uint8_t", a], b, [c]] for a in core for b in core for c in core]
    out += [["O:", [a, b]] for a in core for b in core] + [["O:", ["u8=uint8_t", ["O:", [a]]]] for a in core] + [[["O:", [a, b]], c] for a in core for b in core for c in core]
    out += [[f"O {a}", f"P {b} {c}"] for a in core for b in core for c in core]
    def sp(t):
        if isinstance(t, str): return ty[t] + (t,)
        if t[:1] == ["O:"]:
            r, re, c, ce, n = sp(t[1])
            return f"::bridge_rust::OptionAbi<{r}>", f"::bridge_rust::OptionAbi({re})", f"::crubit::OptionAbi<{c}>", f"::crubit::OptionAbi<{c}>({ce})", f"O {n}"
        p = [sp(x) for x in t]
        c = "::crubit::TupleAbi<" + ", ".join(x[2] for x in p) + ">"
        return ("(" + "".join(x[0] + ", " for x in p) + ")", "(" + "".join(x[1] + ", " for x in p) + ")", c,
                c + "{std::tuple<" + ", ".join(x[2] for x in p) + ">(" + ", ".join(x[3] for x in p) + ")}", "(" + ", ".join(x[4] for x in p) + ")")
    return [sp(t) for t in out]


def combinators(chk):
    touch_stale()
    r = cargo_harness("common", ["build", "--bin", "c26"])
    if r.rc != 0: raise EngineError("harness common does not build:\n" + r.tail(4000))
    core = trees()
    r = run([os.path.join(TARGET, "debug", "c26")], stdin=("\n".join(core) + "\n").encode(), env=dict(os.environ, LD_LIBRARY_PATH=os.path.join(SYSROOT(), "lib")), cwd=chk.dir)
    if r.rc != 0 or len(r.out.splitlines()) != len(core):
        chk.violation("spelling", "crubit_abi_type fails on a bridge tree:\n" + r.tail())
        return
    ty = {t: tuple(l.split("\t")) for t, l in zip(core, r.out.splitlines())}
    cases = [ty[t] + (t,) for t in core] + tuples(ty)
    d = fresh_dir(os.path.join(chk.dir, "trees"))
    src = os.path.join(VERIF, "harness", "cpp")
    rs = f'#![allow(warnings)]\nextern crate self as cc_std;\ninclude!("{src}/c26_g.rs");\n'
    cpp = [f'#include <string>\n#include "c26.h"\nusing namespace c26;\n' for _ in range(8)]
    body = [""] * 8
    for i, (rt, re, ct, ce, name) in enumerate(cases):
        rs += f"""type A{i} = {rt};
#[unsafe(no_mangle)] pub extern "C" fn s{i}() -> usize {{ <A{i} as bridge_rust::CrubitAbi>::SIZE }}
#[unsafe(no_mangle)] pub extern "C" fn n{i}() -> u64 {{ <<A{i} as bridge_rust::CrubitAbi>::Value as G>::N }}
#[unsafe(no_mangle)] pub unsafe extern "C" fn e{i}(i: u64, b: *mut u8) {{ unsafe {{ bridge_rust::internal::encode::<A{i}>({re}, b, G::make(i)) }} }}
#[unsafe(no_mangle)] pub unsafe extern "C" fn d{i}(i: u64, b: *const u8) -> i32 {{ unsafe {{ bridge_rust::internal::decode::<A{i}>({re}, b) }}.same(i) as i32 }}
"""
        k = i % 8
        cpp[k] += f'extern "C" size_t s{i}(); extern "C" uint64_t n{i}(); extern "C" void e{i}(uint64_t, unsigned char*); extern "C" int d{i}(uint64_t, const unsigned char*);\n'
        plain = not any(w in RAW or w == "strin" for w in name.replace("(", " ").replace(")", " ").replace(",", " ").split())
        body[k] += f'  tree<{ct}>("{name}", {"true" if plain else "false"}, s{i}(), n{i}(), e{i}, d{i}, [] {{ return {ce}; }});\n'
    write(os.path.join(d, "root.rs"), rs)
    main_ = "".join(f"void run{k}();\n" for k in range(8)) + "int main() { " + "".join(f"run{k}(); " for k in range(8)) + "return vmc::done(); }\n"
    for k in range(8):
        write(os.path.join(d, f"t{k}.cc"), cpp[k] + f"void run{k}() {{\n{body[k]}}}\n" + (main_ if k == 0 else ""))
    san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]

    def rust():
        for name, p, kind, ext in (("bridge_rust", os.path.join(REPO, "support/crubit_bridge_rust/src/bridge.rs"), "rlib", []), ("root", os.path.join(d, "root.rs"), "staticlib", ["bridge_rust"])):
            r = run(["rustc", "--crate-type=" + kind, f"--crate-name={name}", "--edition=2024", p, "-Awarnings", "--cap-lints=allow", "-Cdebuginfo=0", "-Cdebug-assertions=on",
                     "-o", os.path.join(d, f"lib{name}." + ("a" if kind == "staticlib" else "rlib")), *sum((["--extern", f"{e}={d}/lib{e}.rlib"] for e in ext), [])], timeout=500)
            if r.rc != 0: return name, r
        return "rust", r

    def cc(f):
        p = os.path.join(d, f) if f[0] == "t" else os.path.join(src, f)
        return f, run([*CXX, *san, *CXXW, "-I" + REPO, "-I" + src, "-O0", "-c", p, "-o", os.path.join(d, f + ".o")], timeout=600)
    jobs = [f"t{k}.cc" for k in range(8)] + ["c26_main.cc"]
    bad = [(f, r) for f, r in pmap(lambda f: f(), [rust] + [lambda f=f: cc(f) for f in jobs]) if r.rc != 0]
    if bad:
        f, r = bad[0]
        if f == "bridge_rust": raise EngineError("bridge_rust does not build:\n" + r.tail())
        chk.violation("does not compile", f"encoding or decoding some bridge tree does not compile ({f}):\n" + r.tail(4000))
        return
    exe = os.path.join(d, "trees")
    r = run([*CXX, *san, *(os.path.join(d, f + ".o") for f in jobs), os.path.join(d, "libroot.a"), "-lpthread", "-ldl", "-lm", "-o", exe])
    if r.rc != 0: raise EngineError("does not link:\n" + r.tail())
    chk.log(f"{len(cases)} trees built")
    judge_harness(chk, "trees", run_exe(exe, timeout=700))


RUST = """#![allow(warnings)]
use bridge_rust::{transmute_abi, CrubitAbi, Decoder, Encoder};
use std::sync::Mutex;
static TOK: Mutex<(u64, std::collections::BTreeSet<u64>, i64)> = Mutex::new((1, std::collections::BTreeSet::new(), 0));
pub fn live() -> i64 { let l = TOK.lock().unwrap(); l.1.len() as i64 }
pub fn twice() -> i64 { TOK.lock().unwrap().2 }
pub struct Tok { id: u64, t: u64 }
impl Tok { pub fn make(id: u64) -> Tok { let mut l = TOK.lock().unwrap(); l.0 += 1; let t = l.0; l.1.insert(t); Tok { id, t } } pub fn id(&self) -> u64 { self.id } }
impl Default for Tok { fn default() -> Tok { Tok::make(0) } }
impl Drop for Tok { fn drop(&mut self) { let mut l = TOK.lock().unwrap(); if !l.1.remove(&self.t) { l.2 += 1; } } }
trait G { const N: u64; fn make(i: u64) -> Self; fn same(&self, i: u64) -> bool; }
macro_rules! leaf { ($($t:ty: $a:expr, $b:expr;)*) => { $( impl G for $t { const N: u64 = 2; fn make(i: u64) -> $t { if i == 0 { $a } else { $b } } fn same(&self, i: u64) -> bool { *self == <$t>::make(i) } } )* } }
leaf! { u16: 0x0102, 0xFFFE; bool: false, true; f64: -3.25, 1e300; char: 'x', '\\u{10FFFF}'; }
impl G for Tok { const N: u64 = 2; fn make(i: u64) -> Tok { Tok::make(i + 5) } fn same(&self, i: u64) -> bool { self.id == i + 5 && TOK.lock().unwrap().1.contains(&self.t) } }
impl<T: G> G for Option<T> { const N: u64 = 1 + T::N; fn make(i: u64) -> Self { if i == 0 { None } else { Some(T::make(i - 1)) } } fn same(&self, i: u64) -> bool { match self { None => i == 0, Some(v) => i != 0 && v.same(i - 1) } } }
impl<T: G> G for MyOpt<T> { const N: u64 = 1 + T::N; fn make(i: u64) -> Self { MyOpt(G::make(i)) } fn same(&self, i: u64) -> bool { self.0.same(i) } }
impl<A: G, B: G> G for MyPair<A, B> { const N: u64 = A::N * B::N; fn make(i: u64) -> Self { MyPair(A::make(i / B::N), B::make(i % B::N)) } fn same(&self, i: u64) -> bool { self.0.same(i / B::N) && self.1.same(i % B::N) } }
#[doc = "CRUBIT_ANNOTATE: cpp_type=std::optional"] #[doc = "CRUBIT_ANNOTATE: bridge_abi_cpp=crubit::OptionAbi"] #[doc = "CRUBIT_ANNOTATE: bridge_abi_rust=MyOptAbi"] #[doc = "CRUBIT_ANNOTATE: include_path=<optional>"]
pub struct MyOpt<T>(Option<T>);
#[derive(Clone, Default)] pub struct MyOptAbi<A>(pub A);
unsafe impl<A: CrubitAbi> CrubitAbi for MyOptAbi<A> { type Value = MyOpt<A::Value>; const SIZE: usize = 1 + A::SIZE;
    fn encode(self, v: Self::Value, e: &mut Encoder) { transmute_abi().encode(v.0.is_some(), e); if let Some(v) = v.0 { self.0.encode(v, e) } }
    unsafe fn decode(self, d: &mut Decoder) -> Self::Value { unsafe { if transmute_abi::<bool>().decode(d) { MyOpt(Some(self.0.decode(d))) } else { MyOpt(None) } } } }
#[doc = "CRUBIT_ANNOTATE: cpp_type=std::pair"] #[doc = "CRUBIT_ANNOTATE: bridge_abi_cpp=::crubit::PairAbi"] #[doc = "CRUBIT_ANNOTATE: bridge_abi_rust=MyPairAbi"] #[doc = "CRUBIT_ANNOTATE: include_path=<utility>"]
pub struct MyPair<A, B>(A, B);
#[derive(Clone, Default)] pub struct MyPairAbi<A, B>(pub A, pub B);
unsafe impl<A: CrubitAbi, B: CrubitAbi> CrubitAbi for MyPairAbi<A, B> { type Value = MyPair<A::Value, B::Value>; const SIZE: usize = A::SIZE + B::SIZE;
    fn encode(self, v: Self::Value, e: &mut Encoder) { self.0.encode(v.0, e); self.1.encode(v.1, e) }
    unsafe fn decode(self, d: &mut Decoder) -> Self::Value { unsafe { let a = self.0.decode(d); MyPair(a, self.1.decode(d)) } } }
pub struct S { k: u64 }
impl S { pub fn new(k: u64) -> S { S { k } } }
"""
CC = """#include "h.h"
#include "c26.h"
using namespace c26;
template <> struct c26::G<h::Tok> {
  static constexpr uint64_t n = 2;
  static h::Tok make(uint64_t i) { return h::Tok::make(i + 5); }
  static bool eq(h::Tok const& v, uint64_t i) { return v.id() == i + 5; }
};
template <> struct c26::G<rs_std::char_> {
  static constexpr uint64_t n = 2;
  static rs_std::char_ make(uint64_t i) { return *rs_std::char_::from_u32(i ? 0x10FFFF : 'x'); }
  static bool eq(rs_std::char_ const& v, uint64_t i) { return v == make(i); }
};
template <typename V, typename Mk, typename Same, typename Id> void roundtrip(const char* name, Mk mk, Same same, Id id) {
  auto bad = [&](const std::string& t) { vmc::viol(std::string(name) + ": " + t, std::string("bridged ") + name + ": " + t); };
  vmc::stat("bindings", 1);
  for (uint64_t i = 0; i < G<V>::n; i++) {
    std::string at = "value #" + std::to_string(i);
    if (!G<V>::eq(mk(i), i)) bad(at + " returned by Rust is another value in C++");
    if (!same(G<V>::make(i), i)) bad(at + " passed from C++ is another value in Rust");
    V v = id(id(G<V>::make(i)));
    if (!G<V>::eq(v, i)) bad(at + " comes back from Rust as another value");
    V w = id(std::move(v));
    if (!G<V>::eq(w, i)) bad(at + " moved to Rust comes back as another value");
    vmc::stat("evaluations", 4);
    vmc::stat("distinct_nontrivial", 4);
  }
  if (h::live() != 0 || h::twice() != 0) bad("owned payloads: " + std::to_string(h::live()) + " never released, " + std::to_string(h::twice()) + " released twice");
}
"""


def generated(chk):
    leaves = {"u16": "uint16_t", "bool": "bool", "Tok": "h::Tok", "f64": "double", "char": "rs_std::char_"}
    comb = {"O": ("Option", "std::optional"), "M": ("MyOpt", "std::optional"), "P": ("MyPair", "std::pair")}
    l0 = [(r, c) for r, c in leaves.items()]
    core = l0[:3]
    def un(k, x): return (f"{comb[k][0]}<{x[0]}>", f"{comb[k][1]}<{x[1]}>")
    def pr(x, y): return (f"MyPair<{x[0]}, {y[0]}>", f"std::pair<{x[1]}, {y[1]}>")
    d1 = [un(k, x) for k in "OM" for x in core] + [pr(x, y) for x in core for y in core]
    ts = [un(k, x) for k in "OM" for x in l0] + [pr(x, y) for x in l0 for y in l0] + [un(k, x) for k in "OM" for x in d1] + \
         [pr(x, y) for x in d1[:6] for y in (d1 if THOROUGH else core)] + [pr(y, x) for x in d1 for y in core]
    ts = list(dict.fromkeys(ts))
    e = E2E(chk)
    d = fresh_dir(os.path.join(chk.dir, "gen"))
    src, parts, nparts = RUST, [], 8
    body = [""] * nparts
    for i, (r, c) in enumerate(ts):
        src += f"pub fn mk{i}(i: u64) -> {r} {{ G::make(i) }} pub fn same{i}(v: {r}, i: u64) -> bool {{ v.same(i) }} impl S {{ pub fn id{i}(&self, a: u8, v: {r}, b: u8) -> {r} {{ assert!(a == 3 && b == 9 && self.k == 77); v }} }}\n"
        body[i % nparts] += f'  roundtrip<{c}>("{r}", [](uint64_t i) {{ return h::mk{i}(i); }}, [](auto v, uint64_t i) {{ return h::same{i}(std::move(v), i); }}, [&](auto v) {{ return s.id{i}(3, std::move(v), 9); }});\n'
    for k in range(nparts):
        parts.append(CC + f"void run{k}() {{\n  h::S s = h::S::new_(77);\n{body[k]}}}\n")
    main_ = "#include \"vmc.h\"\n" + "".join(f"void run{k}();\n" for k in range(nparts)) + "int main() { " + "".join(f"run{k}(); " for k in range(nparts)) + "return vmc::done(); }\n"
    exe, err = e.build(d, [("h", src)], main_, extra_cc=parts, gen_args=["-L", e.root], cc_flags=["-I" + os.path.join(VERIF, "harness/cpp")], lib_externs=[("bridge_rust", e.rlibs["bridge_rust"])])
    if not exe:
        chk.violation("generated bindings", "bindings of functions over bridged types do not compile:\n" + err[1][-3000:])
        return
    judge_harness(chk, "generated", run_exe(exe, timeout=600))


def check(chk):
    chk.coverage["rule"] = "one case = one value of one bridge tree at one buffer alignment, encoded in one language and decoded in the other (same-language trips are evaluations only)"
    combinators(chk)
    generated(chk)


main(check, "C26", "exploration")
