#!/usr/bin/env python3
"""C13: every history, up to a budget of steps, of creating, polling, moving and destroying two futures of generated async functions (crubit::DynErasedFuture) and of what a
polled Rust future does with its waker (wake, clone, store, drop, from the poll, later, from another thread, reentrantly); the same for support/rs_std/dyn_future.rs."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

# name -> (Rust type, value, C++ type, check of *p, owns a token)
TYPES = {
    "u32": ("u32", "id as u32 * 1000003", "uint32_t", "*p == uint32_t(id) * 1000003", 0),
    "Out": ("Out", "Out(3, Some(Tok::new(id, 2)), 9)", "h::Out", "int(p->id()) == (id & 15)", 1),
    "u8": ("u8", "id as u8", "uint8_t", "*p == id", 0),
    "unit": ("()", "()", "void", "true", 0),
    "i64": ("i64", "-(id as i64) << 40", "int64_t", "*p == -(int64_t(id) << 40)", 0),
    "f64": ("f64", "id as f64 / 4.0", "double", "*p == id / 4.0", 0),
    "bool": ("bool", "id % 2 == 1", "bool", "*reinterpret_cast<unsigned char*>(p) == id % 2", 0),
    "char": ("char", "char::from_u32(0x1f600 + id as u32).unwrap()", "rs_std::char_", "uint32_t(*p) == uint32_t(0x1f600 + id)", 0),
    "usize": ("usize", "id as usize", "uintptr_t", "*p == uintptr_t(id)", 0),
    "Fixed": ("Fixed", "Fixed { a: 200, t: Tok::new(id, 2), b: id as u16 }", "h::Fixed", "p->ok(id)", 1),
    "Big": ("Big", "Big { v: [id; 12], t: Some(Tok::new(id, 2)) }", "h::Big", "p->ok(id) && reinterpret_cast<uintptr_t>(p) % 32 == 0", 1),
    "C": ("C", "C { x: id as u8, y: -(id as i32) }", "h::C", "p->x == id && p->y == -id", 0),
    "String": ("String", '"ab\\u{e9}".repeat(id as usize)', "rs::alloc::string::String", "p->as_str() == rep(id)", 0),
    "Vec": ("Vec<u16>", "(0..id as u16 * 3).collect()", "rs_std::Vec<uint16_t>", "p->size() == size_t(id) * 3 && (*p)[id * 3 - 1] == id * 3 - 1", 0),
    "arr": ("[u16; 3]", "[id as u16, 7, 65535 - id as u16]", "std::array<uint16_t, 3>", "(*p)[0] == id && (*p)[1] == 7 && (*p)[2] == 65535 - id", 0),
    "tup": ("(u32, u8)", "(id as u32 * 7, 255 - id as u8)", "rs_std::Tuple<uint32_t, uint8_t>", "std::tuple<uint32_t, uint8_t>(std::move(*p)) == std::tuple<uint32_t, uint8_t>(id * 7, 255 - id)", 0),
    "tup3": ("(u8, Out, i64)", "(id as u8, Out(3, Some(Tok::new(id, 2)), 9), -1)", "rs_std::Tuple<uint8_t, h::Out, int64_t>", "tup3(*p, id)", 1),
    "ptr": ("*const u32", "(id as usize * 4) as *const u32", "const uint32_t*", "reinterpret_cast<uintptr_t>(*p) == uintptr_t(id) * 4", 0),
    "fnptr": ('extern "C" fn(i32) -> i32', "if id % 2 == 0 { dbl } else { neg }", "int32_t (*)(int32_t)", "(*p)(21) == (id % 2 == 0 ? 42 : -21)", 0),
    "Res": ("Result<u32, u8>", "if id % 2 == 0 { Ok(id as u32) } else { Err(id as u8) }", "rs_std::Result<uint32_t, uint8_t>", "res(*p, id)", 0),
    "En": ("En", "if id % 2 == 0 { En::A } else { En::B(id as u16) }", "h::En", "int(p->code()) == (id % 2 == 0 ? 0 : id)", 0),
    "sref": ("&'static u32", "&TABLE[id as usize % 4]", "const uint32_t*", "**p == uint32_t(id % 4) * 11", 0),
    "str": ("&'static str", '&"abcdefgh"[..id as usize % 8]', "rs_std::StrRef", 'std::string_view(*p) == std::string_view("abcdefgh").substr(0, id % 8)', 0),
    "slice": ("&'static [u32]", "&TABLE[..id as usize % 4]", "rs_std::SliceRef<const uint32_t>", "p->size() == size_t(id % 4) && (p->size() == 0 || p->data()[0] == 0)", 0),
}
RUST = """#![allow(warnings)] extern crate scr; use scr::*;
static TABLE: [u32; 4] = [0, 11, 22, 33];
extern "C" fn dbl(x: i32) -> i32 { x * 2 } extern "C" fn neg(x: i32) -> i32 { -x }
#[derive(Default)] pub struct Arg(u8, Option<Tok>); impl Drop for Arg { fn drop(&mut self) { if self.0 != 0 && self.0 != 77 { std::process::abort() } } }
impl Arg { pub fn blank() -> Arg { Arg(77, None) } pub fn make(id: u64) -> Arg { Arg(77, Some(Tok::new(id, 0))) }
  pub async fn consume(self, id: u64) -> u32 { let _l = Tok::new(id, 1); Script::new().await; id as u32 * 1000003 }
  pub async fn assoc(id: u64, a: Arg) -> Out { let _l = Tok::new(id, 1); Script::new().await; Out(3, Some(Tok::new(id, 2)), 9) }
  pub async fn by_ref(&self, id: u64) -> u32 { let _l = Tok::new(id, 1); Script::new().await; id as u32 * 1000003 + (self.0 as u32 - 77) }
  pub async fn by_mut(&mut self, id: u64) -> &u8 { let _l = Tok::new(id, 1); Script::new().await; &self.0 }
}
#[derive(Default)] pub struct Out(u8, Option<Tok>, u32); impl Out { pub fn id(&self) -> u64 { self.1.as_ref().unwrap().id() } }
pub struct Fixed { a: u8, t: Tok, b: u16 } impl Fixed { pub fn ok(&self, id: u64) -> bool { self.a == 200 && self.t.id() == (id & 15) && self.b == id as u16 } }
#[derive(Default)] #[repr(align(32))] pub struct Big { v: [u64; 12], t: Option<Tok> } impl Big { pub fn ok(&self, id: u64) -> bool { self.v == [id; 12] && self.t.as_ref().unwrap().id() == (id & 15) } }
#[derive(Clone, Copy)] pub struct C { pub x: u8, pub y: i32 }
#[derive(Clone, Copy)] pub enum En { A, B(u16) } impl En { pub fn code(&self) -> u16 { match self { En::A => 0, En::B(x) => *x } } }
pub async fn many(id: u64, a: u8, b: f64, s: &[u32], o: Option<u32>, t: (u8, Arg), n: String, c: char) -> u64 { let _l = Tok::new(id, 1); Script::new().await;
  a as u64 + b as u64 + s.iter().sum::<u32>() as u64 + o.unwrap() as u64 + t.0 as u64 + n.len() as u64 + c as u64 }
pub fn arg_id(a: &Arg) -> u64 { a.1.as_ref().unwrap().id() }
""" + "".join(f"pub async fn f_{n}(id: u64, a: Arg) -> {t[0]} {{ let _l = Tok::new(id, 1); Script::new().await; {t[1]} }}\n" for n, t in TYPES.items())
ROOT = r"""
mod dynf { use dyn_future::DynFuture; use scr::*; use cpp_waker::rs_std::CppWaker; use std::pin::Pin; use std::future::Future;
type B = Option<Pin<Box<dyn Future<Output = ()> + Send + 'static>>>;
#[unsafe(no_mangle)] extern "C" fn df_new(id: u64) -> *mut DynFuture<'static> { let a = Tok::new(id, 0); Box::into_raw(Box::new(DynFuture::from_future(async move { let _a = a; let _l = Tok::new(id, 1); Script::new().await; }))) }
#[unsafe(no_mangle)] unsafe extern "C" fn df_poll(f: *mut DynFuture<'static>, w: *const CppWaker) -> bool { unsafe { (*f).poll(w) } }
#[unsafe(no_mangle)] unsafe extern "C" fn df_discard(f: *mut DynFuture<'static>) { unsafe { (*f).discard() } }
#[unsafe(no_mangle)] unsafe extern "C" fn df_completed(f: *mut DynFuture<'static>) -> bool { unsafe { (*f).is_completed_or_discarded() } }
#[unsafe(no_mangle)] unsafe extern "C" fn df_drop(f: *mut DynFuture<'static>) { unsafe { drop(Box::from_raw(f)) } }
#[unsafe(no_mangle)] unsafe extern "C" fn df_take(f: *mut DynFuture<'static>, way: u32) -> *mut DynFuture<'static> { let d = unsafe { std::mem::take(&mut *f) };
  Box::into_raw(Box::new(if way == 0 { d } else { match B::from(d) { Some(p) => DynFuture::from_future(p), None => DynFuture::default() } })) }
}
"""
CC = """#include "h.h"
#include "c13.h"
inline std::string rep(int n) { std::string s; while (n--) s += "ab\\u00e9"; return s; }
struct Base { using Waker = rs_std::Waker; static constexpr bool discards = false; static constexpr int owns = 1; static constexpr bool out_token = false;
  template <class F> static bool state(F*, bool) { return true; } template <class F> static void discard(F*) {} };
template <class T_> struct Typed : Base { using T = T_; using Fut = crubit::DynErasedFuture<T>; static constexpr size_t out_size = sizeof(T), out_align = alignof(T);
  static bool poll(Fut* f, rs_std::Waker* w, void* p) { return f->Poll(w, static_cast<T*>(p)); } };
template <> struct Typed<void> : Base { using T = void; using Fut = crubit::DynErasedFuture<void>; static constexpr size_t out_size = 0, out_align = 1;
  static bool poll(Fut* f, rs_std::Waker* w, void* p) { return f->Poll(w, p); } };
"""
HELP = {
    "tup3": "inline bool tup3(rs_std::Tuple<uint8_t, h::Out, int64_t>& p, int id) { std::tuple<uint8_t, h::Out, int64_t> t = std::move(p); return std::get<0>(t) == id && int(std::get<1>(t).id()) == (id & 15) && std::get<2>(t) == -1; }\n",
    "Res": "inline bool res(rs_std::Result<uint32_t, uint8_t>& p, int id) { return id % 2 == 0 ? p.has_value() && *p == uint32_t(id) : !p.has_value() && p.err() == id; }\n",
}
EXTRA = {  # further forms of functions: name -> (type key, body of make, extra members)
    "consume(self)": ("u32", "new (f) Fut(h::Arg::make(id).consume(id));", ""),
    "assoc": ("Out", "new (f) Fut(h::Arg::assoc(id, h::Arg::make(id)));", ""),
    "temporary": ("u32", "h::Arg a = h::Arg::make(id); new (f) Fut(h::f_u32(id, std::move(a)));", ""),
}
REFS = {
    "&self": ("uint32_t", "static h::Arg a = h::Arg::blank(); new (f) Fut(a.by_ref(id));", "*p == uint32_t(id) * 1000003"),
    "&mut self -> &": ("const uint8_t*", "static h::Arg a = h::Arg::blank(); new (f) Fut(a.by_mut(id));", "**p == 77"),
    "many arguments": ("uint64_t", "static std::vector<uint32_t> v = {1, 20, 300}; new (f) Fut(h::many(id, 5, 1000.5, v, std::optional<uint32_t>(7), std::tuple<uint8_t, h::Arg>(9, h::Arg::make(id)), rs::alloc::string::String(\"abc\"), *rs_std::char_::from_u32('A')));", "*p == 5 + 1000 + 321 + 7 + 9 + 3 + 65"),
}


def adapter(cls, name, T, make, ck, out, owns):
    kill = "" if T == "void" else "std::destroy_at(p);"
    args = "void*, int" if T == "void" else "void* q, int id"
    body = "return true;" if T == "void" else f"T* p = static_cast<T*>(q); bool r = {ck}; {kill} return r;"
    return f"""struct {cls} : Typed<{T}> {{ static constexpr const char* name = "{name}"; static constexpr bool out_token = {out}; static constexpr int owns = {owns};
  static void make(Fut* f, int id) {{ {make} }} static bool take({args}) {{ {body} }} }};
"""


def check(chk):
    chk.coverage["rule"] = "one case = one complete history of futures and wakers ending with the destruction of everything, judged after every step"
    chk.coverage["explored"] = "all histories within the step budget; two futures, two tasks (a counting waker and one that is cloned as an object), two wakers kept by Rust and one by each future"
    e = E2E(chk)
    d = fresh_dir(os.path.join(chk.dir, "e"))
    lib = fresh_dir(os.path.join(chk.dir, "lib"))
    L = ["--edition=2024", "-Awarnings", "--cap-lints=allow", "-Cdebuginfo=0", "-Copt-level=1"]
    write(os.path.join(lib, "cpp_waker.rs"), "pub mod rs_std { #[repr(C)] pub struct CppWaker { _p: [u8; 8] } }\n")
    for n, p, ex in (("scr", os.path.join(VERIF, "harness/cpp/c13_scr.rs"), []), ("cpp_waker", os.path.join(lib, "cpp_waker.rs"), []), ("dyn_future", os.path.join(REPO, "support/rs_std/dyn_future.rs"), ["cpp_waker"])):
        r = run(["rustc", "--crate-type=rlib", f"--crate-name={n}", *L, p, "-o", f"{lib}/lib{n}.rlib", "-Ldependency=" + lib, *sum((["--extern", f"{x}={lib}/lib{x}.rlib"] for x in ex), [])])
        if r.rc != 0:
            raise EngineError(f"{n} does not build:\n" + r.tail())
    parts = []
    q = 1 if THOROUGH else 0
    for i, (n, t) in enumerate(TYPES.items()):
        deep = n in ("u32", "Out")
        parts.append(HELP.get(n, "") + adapter(f"A{i}", n, t[2], f"new (f) Fut(h::f_{n}(id, h::Arg::make(id)));", t[3], "true" if t[4] else "false", 1) + f"void part() {{ c13::run<A{i}>({(9 if deep else 8) + q}, {(7 if deep else 6) + q}); }}\n")
    for i, (n, (k, mk, _)) in enumerate(EXTRA.items()):
        t = TYPES[k]
        parts.append(adapter(f"B{i}", n, t[2], mk, t[3], "true" if t[4] else "false", 1) + f"void part() {{ c13::run<B{i}>({8 + q}, {6 + q}); }}\n")
    for i, (n, (T, mk, ck)) in enumerate(REFS.items()):
        parts.append(adapter(f"R{i}", n, T, mk, ck, "false", 1 if "many" in n else 0) + f"void part() {{ c13::run<R{i}>({8 + q}, {6 + q}); }}\n")
    parts = [CC + p.replace("void part()", f"void part{i}()") for i, p in enumerate(parts)]
    dyn = """#include "c13.h"
extern "C" { void* df_new(uint64_t); bool df_poll(void*, void*); void df_discard(void*); bool df_completed(void*); void df_drop(void*); void* df_take(void*, uint32_t); }
template <int way> struct D { using Waker = rs_std::CppWaker; using T = void; static constexpr bool discards = true, out_token = false; static constexpr int owns = 1; static constexpr size_t out_size = 0, out_align = 1;
  static constexpr const char* name = way ? "DynFuture (converted)" : "DynFuture";
  struct Fut { void* h; Fut(void* p) : h(p) {} Fut(Fut&& o) : h(df_take(o.h, way)) {} ~Fut() { df_drop(h); } };
  static void make(Fut* f, int id) { new (f) Fut(df_new(id)); }
  static bool take(void*, int) { return true; }
  static bool poll(Fut* f, rs_std::CppWaker* w, void*) { return df_poll(f->h, w); }
  static bool state(Fut* f, bool done) { return df_completed(f->h) == done; }
  static void discard(Fut* f) { df_discard(f->h); } };
"""
    for w in (0, 1):
        parts.append(dyn + f"void part{len(parts)}() {{ c13::run<D<{w}>>({8 + q}, {6 + q}); }}\n")
    n = len(parts)
    main_cc = '#include "c13.h"\nC13_MAIN\n' + "".join(f"void part{i}();\n" for i in range(n)) + "int main(int, char** v) { void (*p[])() = {" + ", ".join(f"part{i}" for i in range(n)) + "}; p[atoi(v[1])](); return vmc::done(); }\n"
    exts = [(x, f"{lib}/lib{x}.rlib") for x in ("scr", "cpp_waker", "dyn_future")]
    exe, err = e.build(d, [("h", RUST)], main_cc, gen_args=["-L", lib, "--crate-feature=self=async_fn_send_modulo_regions"], root_src=ROOT, cc_flags=["-I" + os.path.join(VERIF, "harness/cpp"), "-O1"], pch=False,
                       edition="2024", externs=exts, lib_externs=exts[:1], extra_cc=parts, rust_flags=["-L", "dependency=" + lib])
    if not exe:
        chk.violation("build", f"a program that polls futures as documented does not compile ({err[0]}):\n" + "\n".join(l for l in err[1].splitlines() if "error:" in l)[:1500] + err[1][-2000:])
        return
    chk.log("built")
    for i, r in enumerate(pmap(lambda i: run_exe(exe, [str(i)], timeout=800), range(n))):
        judge_harness(chk, f"part {i}", r)


main(check, "C13", "exploration")
