#!/usr/bin/env python3
"""C14: every history up to a depth over a pool of rs_std::DynCallable (support/rs_std/dyn_callable.h) holding Rust closures
(support/rs_std/dyn_callable.rs), for each kind (Fn, FnMut, FnOnce) and several signatures; and function pointers through generated bindings."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

KINDS = {"const": ("Fn", " const"), "mut": ("FnMut", ""), "once": ("FnOnce", " &&")}
RUST = """#![allow(warnings)]
use bridge_rust::internal::{decode, encode};
use dyn_callable_rs::{DynCallableAbi, FunctionToCall, manager, moved_from_panic};
unsafe extern "C" { fn c14_born(id: u64) -> u64; fn c14_died(id: u64); fn c14_effect(id: u64, n: u64); }
pub struct Tok { id: u64 }
impl Tok { fn new(id: u64) -> Tok { unsafe { c14_born(id) }; Tok { id } } }
impl Drop for Tok { fn drop(&mut self) { unsafe { c14_died(self.id) } } }
#[repr(align(64))] pub struct Big([u64; 40]);
struct Zst; // stands for id 9
impl Zst { fn new() -> Zst { unsafe { c14_born(9) }; Zst } }
impl Drop for Zst { fn drop(&mut self) { unsafe { c14_died(9) } } }
#[repr(C)] pub struct Own { id: u64, tok: u64 }
impl Drop for Own { fn drop(&mut self) { unsafe { c14_died(self.tok) } } }
"""
# signature -> (dyn args, dyn ret, closure params, body given id/n, fallback value, C++ sig, C args for invoker, call expression, invoker epilogue)
SIGS = {
    "int": dict(args="i32", ret="i32", params="x: i32", body="({id} * 1000 + {n} * 100) as i32 + x", fb="-1", cargs="x: i32", cret="-> i32", conv="", call="x", out="{e}",
                cc="int32_t(int32_t)", decl="int32_t", dargs="int32_t", lam="int32_t x) -> int32_t", use="x", lamcall="return {inv}(s, x);"),
    "void": dict(args="", ret="()", params="", body="unsafe {{ c14_effect({id}, {n}) }}", fb="unsafe { c14_effect(0, 0) }", cargs="", cret="", conv="", call="", out="{e}",
                 cc="void()", decl="void", dargs="", lam=") -> void", lamcall="{inv}(s);"),
    "own": dict(args="u8, f64, &mut i32, Own", ret="Own", params="a: u8, b: f64, r: &mut i32, mut o: Own", body="{{ *r += a as i32; o.id += {id} * 1000 + {n} * 100 + b as u64; o }}", fb="{ *r = -5; let mut o = o; o.id = 1; o }",
                cargs="a: u8, b: f64, r: *mut i32, o: *mut Own, out: *mut Own", cret="", conv="let o = unsafe { core::ptr::read(o) }; let r = unsafe { &mut *r };", call="a, b, r, o",
                out="unsafe {{ core::ptr::write(out, {e}) }}", cc="c14::Own(uint8_t, double, int32_t&, c14::Own)", decl="void", dargs="uint8_t, double, int32_t*, void*, void*",
                lam="uint8_t a, double b, int32_t& r, c14::Own&& o) -> c14::Own",
                lamcall="alignas(16) char in[sizeof(c14::Own)], out[sizeof(c14::Own)]; new (in) c14::Own(std::move(o)); {inv}(s, a, b, &r, in, out); return c14::Own(nullptr, *reinterpret_cast<c14::Own*>(out));"),
}


def rust(sig, kind):
    g, k = SIGS[sig], f"{sig}_{kind}"
    tr = KINDS[kind][0]
    F = f"dyn {tr}({g['args']}) -> {g['ret']} + Send + Sync + 'static"
    n = {"const": "0", "mut": "{ n += 1; n }", "once": "7"}[kind]
    def clo(idexp, keep, nn): return f"move |{g['params']}| -> {g['ret']} {{ {keep} let id = {idexp}; let nn: u64 = {nn}; " + g["body"].format(id="id", n="nn") + " }"
    keep = "let t = t;" if kind == "once" else "let _ = &t;"
    read = {"const": "(unsafe { &*f })", "mut": "(unsafe { &mut *f })", "once": f"(unsafe {{ core::ptr::replace(f, Box::new(|{', '.join('_' for a in g['args'].split(', ') if a)}| {{ core::unreachable!() }})) }})"}[kind]
    hread = {"const": "(unsafe { &*h })", "mut": "(unsafe { &mut *h })", "once": "(*unsafe { Box::from_raw(h) })"}[kind]
    nn = n if kind != "mut" else "n"
    pre = "" if kind != "mut" else "let mut n = 0u64;"
    inc = "n += 1;" if kind == "mut" else ""
    return f"""pub mod m_{k} {{ use super::*; type F = {F}; type A = DynCallableAbi<F>;
fn abi() -> A {{ let t = Tok::new(2); DynCallableAbi::new(Box::new(move |{g['params']}| -> {g['ret']} {{ let _ = &t; {g['fb']} }})) }}
#[unsafe(no_mangle)] extern "C" fn inv_{k}(f: *mut Box<F>{', ' if g['cargs'] else ''}{g['cargs']}) {g['cret']} {{ {g['conv']} {g['out'].format(e=read + "(" + g['call'] + ")")} }}
#[unsafe(no_mangle)] unsafe extern "C" fn mgr_{k}(op: FunctionToCall, from: *mut Box<F>, to: *mut Box<F>) {{ unsafe {{ manager(op, from, to) }} }}
#[unsafe(no_mangle)] extern "C" fn make_{k}(v: u32, id: u64, buf: *mut u8) {{
  let b: Box<F> = match v {{
    0 => {{ let t = Tok::new(id); {pre} Box::new({clo("t.id", keep + inc, nn)}) }}
    1 => {{ let t = Tok::new(id); let big = Big([id; 40]); {pre} Box::new({clo("{ assert!(&big as *const Big as usize % 64 == 0); big.0[(t.id % 40) as usize] }", keep + inc, nn)}) }}
    _ => {{ let t = Zst::new(); Box::new({clo("9", keep, "7" if kind == "once" else "0")}) }}
  }};
  unsafe {{ encode::<A>(abi(), buf, b) }} }}
#[unsafe(no_mangle)] extern "C" fn back_{k}(buf: *const u8) -> *mut Box<F> {{ Box::into_raw(Box::new(unsafe {{ decode::<A>(abi(), buf) }})) }}
#[unsafe(no_mangle)] extern "C" fn hcall_{k}(h: *mut Box<F>{', ' if g['cargs'] else ''}{g['cargs']}) {g['cret']} {{ {g['conv']} {g['out'].format(e=hread + "(" + g['call'] + ")")} }}
#[unsafe(no_mangle)] extern "C" fn hdrop_{k}(h: *mut Box<F>) {{ drop(unsafe {{ Box::from_raw(h) }}) }}
#[unsafe(no_mangle)] extern "C" fn hsend_{k}(h: *mut Box<F>, buf: *mut u8) {{ unsafe {{ encode::<A>(abi(), buf, *Box::from_raw(h)) }} }}
}}
"""


def cpp(sig, kind):
    g, k = SIGS[sig], f"{sig}_{kind}"
    D = g["cc"] + KINDS[kind][1]
    c = ", " if g["dargs"] else ""
    callx = {"const": "const_cast<const FF&>(f)", "mut": "f", "once": "std::move(f)"}[kind]
    exp = "(m.id == 9 ? {c} : {a})"
    n = {"const": "0", "mut": "(m.id == 9 ? 0 : m.count)", "once": "7"}[kind]
    inc = "m.count++; " if kind == "mut" else ""
    if sig == "int":
        call = f"{inc}int32_t x = 5; return {callx}(x) == (int32_t)(m.id * 1000 + {n} * 100) + 5;"
        hcall = f"if (!m.full) return hcall_{k}(h, 6) == -1; {inc}return hcall_{k}(h, 6) == (int32_t)(m.id * 1000 + {n} * 100) + 6;"
    elif sig == "void":
        call = f"{inc}effect() = {{}}; {callx}(); return effect() == std::pair<uint64_t, uint64_t>(m.id, {n});"
        hcall = f"{inc}effect() = {{1, 1}}; hcall_{k}(h); return effect() == std::pair<uint64_t, uint64_t>(m.full ? m.id : 0, m.full ? {n} : 0);"
    else:
        call = f"{inc}int32_t r = 10; Own o(3); Own w = {callx}(uint8_t(200), 4.0, r, std::move(o)); return r == 210 && w.id == 3 + m.id * 1000 + {n} * 100 + 4 && o.tok == 0 && w.tok != 0;"
        hcall = f"""int32_t r = 10; alignas(16) char in[sizeof(Own)], out[sizeof(Own)]; new (in) Own(3); hcall_{k}(h, 200, 4.0, &r, in, out); Own w(nullptr, *reinterpret_cast<Own*>(out));
    if (!m.full) return r == -5 && w.id == 1; {inc}return r == 210 && w.id == 3 + m.id * 1000 + {n} * 100 + 4 && w.tok != 0;"""
    return f"""extern "C" {{ {g['decl']} inv_{k}(TypeErasedState*{c}{g['dargs']}); void mgr_{k}(FunctionToCall, TypeErasedState*, TypeErasedState*) noexcept; void make_{k}(uint32_t, uint64_t, unsigned char*); void* back_{k}(const unsigned char*);
  {g['decl']} hcall_{k}(void*{c}{g['dargs']}); void hdrop_{k}(void*); void hsend_{k}(void*, unsigned char*); }}
struct Ad_{k} {{
  using Sig = {D}; using D = rs_std::DynCallable<Sig>;
  static constexpr const char* name = "{KINDS[kind][0]} {g['cc']}"; static constexpr bool once = {"true" if kind == "once" else "false"};
  static auto abi() {{ return rs_std::internal_dyn_callable::DynCallableAbi<Sig>(mgr_{k}, [](TypeErasedState* s{', ' if g['dargs'] else ''}{g['lam']} {{ {g['lamcall'].format(inv='inv_' + k)} }}); }}
  static void make(uint32_t v, uint64_t id, unsigned char* b) {{ make_{k}(v, id, b); }}
  static void* back(const unsigned char* b) {{ return back_{k}(b); }}
  template <typename FF> static bool use(FF& f, M& m) {{ {call} }}
  static bool call(D& f, M& m) {{ return use(f, m); }}
  static bool acall(absl::AnyInvocable<Sig>& f, M& m) {{ return use(f, m); }}
  static bool hcall(void* h, M& m) {{ {hcall} }}
  static void hdrop(void* h) {{ hdrop_{k}(h); }}
  static void hsend(void* h, unsigned char* b) {{ hsend_{k}(h, b); }}
}};
"""


def pool(chk):
    d = fresh_dir(os.path.join(chk.dir, "pool"))
    src = os.path.join(VERIF, "harness", "cpp")
    ks = [(s, k) for s in SIGS for k in KINDS]
    write(os.path.join(d, "root.rs"), RUST + "".join(rust(s, k) for s, k in ks))
    depth = 5 if THOROUGH else 4
    base = """#include "c14.h"
using namespace c14;
inline std::pair<uint64_t, uint64_t>& effect() { static std::pair<uint64_t, uint64_t> e; return e; }
"""
    for s, k in ks:
        write(os.path.join(d, f"t_{s}_{k}.cc"), base + cpp(s, k) + f"""
extern "C" uint64_t c14_born(uint64_t id) {{ static uint64_t n = 1u << 20; if (id == 1) id = ++n; live()[id]++; return id; }}
extern "C" void c14_died(uint64_t id) {{ if (--live()[id] < 0) {{ err() = "captured state was destroyed twice"; }} }}
extern "C" void c14_effect(uint64_t id, uint64_t n) {{ effect() = {{id, n}}; }}
int main() {{ run<Ad_{s}_{k}>({depth}); if constexpr (Ad_{s}_{k}::once) consumed<Ad_{s}_{k}>(); return vmc::done(); }}
""")
    S = os.path.join(REPO, "support")
    san = ["-fsanitize=address", "-fno-omit-frame-pointer"]

    def rs():
        for n, p, kind, ext in (("bridge_rust", f"{S}/crubit_bridge_rust/src/bridge.rs", "rlib", []), ("dyn_callable_rs", f"{S}/rs_std/dyn_callable.rs", "rlib", ["bridge_rust"]),
                                ("root", os.path.join(d, "root.rs"), "staticlib", ["bridge_rust", "dyn_callable_rs"])):
            r = run(["rustc", "--crate-type=" + kind, f"--crate-name={n}", "--edition=2024", p, "-Awarnings", "--cap-lints=allow", "-Cdebuginfo=0", "-Copt-level=1", "-Cdebug-assertions=on",
                     "-o", os.path.join(d, f"lib{n}." + ("a" if kind == "staticlib" else "rlib")), f"-Ldependency={d}", *sum((["--extern", f"{e}={d}/lib{e}.rlib"] for e in ext), [])], timeout=500)
            if r.rc != 0: raise EngineError(f"{n} does not build:\n" + r.tail(4000))

    def cc(s, k):
        f = f"t_{s}_{k}"
        r = run([*CXX, *san, *CXXW, "-O1", "-I" + os.path.join(src, "absl_shim"), "-I" + REPO, "-I" + src, "-c", os.path.join(d, f + ".cc"), "-o", os.path.join(d, f + ".o")], timeout=600)
        if r.rc != 0: raise EngineError("the C++ driver does not compile:\n" + r.tail(4000))
    pmap(lambda f: f(), [rs] + [lambda s=s, k=k: cc(s, k) for s, k in ks])

    def one(sk):
        f = os.path.join(d, "t_%s_%s" % sk)
        r = run([*CXX, *san, f + ".o", os.path.join(d, "libroot.a"), "-lpthread", "-ldl", "-lm", "-o", f])
        if r.rc != 0: raise EngineError("does not link:\n" + r.tail())
        e = exe_env(); e["VERIF_TIER"] = TIER
        return sk, run([f], env=e, timeout=800, cwd=d)
    for sk, r in pmap(one, ks):
        judge_harness(chk, "pool %s %s" % sk, r)


FT = [("i8", "int8_t", "-5", "100"), ("u64", "uint64_t", "1ull << 63", "9", "1 << 63", "9"), ("f64", "double", "-0.5", "1e300"), ("bool", "bool", "false", "true"), ("f32", "float", "2.5f", "-1.0f", "2.5", "-1.0"),
      ("*const i32", "const int32_t*", "reinterpret_cast<const int32_t*>(64)", "nullptr", "64 as *const i32", "core::ptr::null()"), ("i16", "int16_t", "-30000", "3"), ("u32", "uint32_t", "4000000000u", "1", "4000000000", "1")]


def pointers(chk):
    """extern "C" function pointers in both directions: every signature of up to two arguments (three in the thorough tier, over fewer types)."""
    import itertools
    src = "#![allow(warnings)]\npub trait V { fn pick(i: u32) -> Self; fn code(&self) -> u32; }\n"
    src += "impl V for () { fn pick(_: u32) {} fn code(&self) -> u32 { 0 } }\n"
    tr = "template <typename T> struct V; template <> struct V<void> { static void pick(uint32_t) {} };\n"
    for t in FT:
        r0, r1 = (t[4], t[5]) if len(t) > 4 else (t[2], t[3])
        src += f"impl V for {t[0]} {{ fn pick(i: u32) -> {t[0]} {{ if i % 2 == 0 {{ {r0} }} else {{ {r1} }} }} fn code(&self) -> u32 {{ if *self == Self::pick(0) {{ 0 }} else if *self == Self::pick(1) {{ 1 }} else {{ 7 }} }} }}\n"
        tr += f"template <> struct V<{t[1]}> {{ static {t[1]} pick(uint32_t i) {{ return i % 2 == 0 ? {t[2]} : {t[3]}; }} static uint32_t code({t[1]} v) {{ return v == pick(0) ? 0 : v == pick(1) ? 1 : 7; }} }};\n"
    sigs = [(a, r) for n in range(3) for a in itertools.product(FT[:5] if n == 2 and not THOROUGH else FT, repeat=n) for r in ([None] + FT if n < 2 else [None, FT[len(a[0][0]) % 8], FT[0], FT[2]])]
    if THOROUGH: sigs += [(a, r) for a in itertools.product(FT[:4], repeat=3) for r in (None, FT[1])]
    sigs += [(tuple(FT[(k + i) % 8] for i in range(n)), FT[k]) for n in (6, 7, 9, 12) for k in range(8)]
    sigs = list(dict.fromkeys(sigs))
    n = 8
    parts = [""] * n
    for k, (a, r) in enumerate(sigs):
        ra, rr = ", ".join(t[0] for t in a), f" -> {r[0]}" if r else ""
        F = f'extern "C" fn({ra}){rr}'
        ps, use = ", ".join(f"p{i}: {t[0]}" for i, t in enumerate(a)), ", ".join(f"p{i}" for i in range(len(a)))
        c = ", " if a else ""
        code = " + ".join(["1"] + [f"{i + 1} * p{i}.code()" for i in range(len(a))])
        src += f"""extern "C" fn g{k}({ps}){rr} {{ unsafe {{ SEEN = {code} }}; V::pick({code}) }} pub fn get{k}() -> {F} {{ g{k} }} pub fn id{k}(f: {F}) -> {F} {{ f }}
pub fn call{k}(f: {F}{c}{ps}){rr} {{ f({use}) }} pub fn hof{k}(f: extern "C" fn({F}{c}{ra}){rr}{c}{ps}){rr} {{ f(g{k}{c}{use}) }}
pub struct H{k} {{ before: u8, pub f: {F} }} impl H{k} {{ pub fn new(f: {F}) -> H{k} {{ H{k} {{ before: 3, f }} }} pub fn call(&self{c}{ps}){rr} {{ (self.f)({use}) }} }}
"""
        ca, cr = ", ".join(t[1] for t in a), r[1] if r else "void"
        parts[k % n] += f"""  one<{cr}{c}{ca}>("fn({ra}){rr}", h::get{k}(), [](auto& f{c}{', '.join(f'{t[1]} p{i}' for i, t in enumerate(a))}) {{ return h::call{k}(f{c}{use}); }}, [](auto& f) -> auto& {{ return h::id{k}(f); }}, [](auto& f{c}{', '.join(f'{t[1]} p{i}' for i, t in enumerate(a))}) {{ return h::hof{k}(f{c}{use}); }}, [](auto& f) {{ return h::H{k}::new_(f); }});\n"""
    src += "static mut SEEN: u32 = 0; pub fn seen() -> u32 { unsafe { core::mem::take(&mut SEEN) } }\n"
    cc = '#include "h.h"\n#include "vmc.h"\n#include <string>\n#include <tuple>\n' + tr + """
inline uint32_t g_seen;
template <typename... A> uint32_t code(A... a) { uint32_t s = 1, i = 0; ((s += ++i * V<A>::code(a)), ...); return s; }
template <typename R, typename... A> R cb(A... a) { g_seen = code(a...); return V<R>::pick(g_seen + 1); }
template <typename R, typename... A> R through(R (&f)(A...), A... a) { return f(a...); }
template <typename R, typename... A, typename Call, typename Id, typename Hof, typename Mk>
void one(const char* name, R (&rust)(A...), Call call, Id id, Hof hof, Mk mk) {
  auto bad = [&](const char* t, uint32_t v) { vmc::viol(std::string(name) + ": " + t, std::string(name) + ": " + t + " (arguments " + std::to_string(v) + ")"); };
  vmc::stat("signatures", 1);
  vmc::sample(name);
  auto res = [&](auto f, uint32_t want) { if constexpr (std::is_void_v<R>) { f(); return true; } else return V<R>::code(f()) == want % 2; };
  R (&mine)(A...) = cb<R, A...>;
  if (&id(mine) != &mine || &id(rust) != &rust) bad("a function pointer comes back from Rust changed", 0);
  auto held = mk(mine);
  if (held.f != &mine) bad("a function pointer in a struct reads back changed", 0);
  auto heldr = mk(rust);
  uint32_t lim = sizeof...(A) > 4 ? 1u << sizeof...(A) : 1u << sizeof...(A);
  for (uint32_t v = 0; v < lim; v++) {
    [&]<size_t... I>(std::index_sequence<I...>) {
      uint32_t want = code(V<A>::pick(v >> I)...);
      vmc::stat("evaluations", 7); vmc::stat("distinct_nontrivial", 7);
      g_seen = 0; if (!res([&] { return call(mine, V<A>::pick(v >> I)...); }, want + 1) || g_seen != want) bad("a C++ function called from Rust", v);
      if (!res([&] { return rust(V<A>::pick(v >> I)...); }, want) || h::seen() != want) bad("a Rust function called through its pointer", v);
      if (!res([&] { return call(rust, V<A>::pick(v >> I)...); }, want) || h::seen() != want) bad("a Rust function passed back to Rust", v);
      if (!res([&] { return hof(through<R, A...>, V<A>::pick(v >> I)...); }, want) || h::seen() != want) bad("a Rust function passed to a C++ callback", v);
      g_seen = 0; if (!res([&] { return held.call(V<A>::pick(v >> I)...); }, want + 1) || g_seen != want) bad("a C++ function held by a Rust struct", v);
      g_seen = 0; if (!res([&] { return held.f(V<A>::pick(v >> I)...); }, want + 1) || g_seen != want) bad("a C++ function read from a Rust struct", v);
      if (!res([&] { return heldr.f(V<A>::pick(v >> I)...); }, want) || h::seen() != want) bad("a Rust function read from a Rust struct", v);
    }(std::index_sequence_for<A...>());
  }
}
"""
    main_ = '#include "vmc.h"\n' + "".join(f"void run{k}();\n" for k in range(n)) + "int main() { " + "".join(f"run{k}(); " for k in range(n)) + "return vmc::done(); }\n"
    e = E2E(chk)
    exe, err = e.build(fresh_dir(os.path.join(chk.dir, "fns")), [("h", src)], main_, extra_cc=[cc + f"void run{k}() {{\n{parts[k]}}}\n" for k in range(n)], cc_flags=["-I" + os.path.join(VERIF, "harness/cpp")])
    if not exe:
        chk.violation("function pointers", "bindings of functions over function pointers do not compile:\n" + err[1][-3000:])
        return
    judge_harness(chk, "fns", run_exe(exe, timeout=600))


def check(chk):
    chk.coverage["rule"] = "one case = a complete history over two callables and one held by Rust, checked after every step against a model and the ledger of captured state; histories cut at an operation whose precondition fails are evaluations only"
    pool(chk)
    pointers(chk)


main(check, "C14", "exploration")
