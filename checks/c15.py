#!/usr/bin/env python3
"""C15: every kind of generated entry point x every point at which its Rust side can panic x the way it panics x the calling context (plain C++, a thread, below a Rust frame), each
in its own process: it must end before control returns to C++."""
import json, re, sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

OPS = [("Add", "add", "a + b"), ("Sub", "sub", "a - b"), ("Mul", "mul", "a * b"), ("Div", "div", "a / b"), ("Rem", "rem", "a % b"), ("BitAnd", "bitand", "a & b"), ("BitOr", "bitor", "a | b"), ("BitXor", "bitxor", "a ^ b"), ("Shl", "shl", "a << b"), ("Shr", "shr", "a >> b")]
RET = {  # result types of free functions: Rust type, value
    "unit": ("()", "()"), "u8": ("u8", "1"), "u32": ("u32", "1"), "f64": ("f64", "1.0"), "bool": ("bool", "true"), "char": ("char", "'a'"), "usize": ("usize", "1"), "ptr": ("*const u8", "core::ptr::null()"),
    "string": ("String", "String::new()"), "str": ("&'static str", '"x"'), "slice": ("&'static [u8]", "&[1]"), "opt": ("Option<u32>", "None"), "opts": ("Option<S>", "None"), "res": ("Result<u32, u8>", "Ok(1)"),
    "tup": ("(u8, u32)", "(1, 2)"), "tups": ("(u8, S)", "(1, S::mk(1))"), "arr": ("[u16; 2]", "[1, 2]"), "vec": ("Vec<u8>", "vec![1]"), "s": ("S", "S::mk(1)"), "cpy": ("Cp", "Cp { x: 1 }"), "en": ("En", "En::A"),
    "fnp": ('extern "C" fn(u32) -> u32', "twice"), "br": ("MyOpt<u32>", "MyOpt(None)"),
}
PAR = {  # parameters
    "u32": ("u32", "7"), "f64": ("f64", "1.5"), "str": ("&str", '"abc"'), "string": ("String", "rs::alloc::string::String()"), "slice": ("&[u32]", "rs_std::SliceRef<const uint32_t>()"), "opt": ("Option<u32>", "std::optional<uint32_t>(3)"),
    "tup": ("(u8, u32)", "std::tuple<uint8_t, uint32_t>(1, 2)"), "arr": ("[u16; 2]", "std::array<uint16_t, 2>{1, 2}"), "s": ("S", "h::S::mk(1)"), "sref": ("&S", "s1()"), "smut": ("&mut S", "s2()"), "cpy": ("Cp", "h::cp()"),
    "fnp": ('extern "C" fn(u32) -> u32', "cb"), "res": ("Result<u32, u8>", "h::r_res()"), "vec": ("Vec<u8>", "h::r_vec()"), "br": ("MyOpt<u32>", "std::optional<uint32_t>(3)"), "asref": ("impl AsRef<str>", '"abc"'), "into": ("impl Into<i32>", "5"),
}
RUST = r"""#![allow(warnings)]
use bridge_rust::{transmute_abi, CrubitAbi, Decoder, Encoder};
use std::cell::RefCell; use std::fmt; use std::ops::*;
unsafe extern "C" { fn c15_reached(); }
static mut ARM: (u32, u32, u32) = (0, 0, 0);
mod hidden { #[unsafe(no_mangle)] extern "C" fn c15_arm(n: u32, kind: u32, skip: u32) { unsafe { super::ARM = (n, kind, skip) } } #[unsafe(no_mangle)] extern "C" fn c15_quiet() { std::panic::set_hook(Box::new(|_| {})) } }
fn b(n: u32) { unsafe { if ARM.0 != n { return } if ARM.2 > 0 { ARM.2 -= 1; return } c15_reached(); go(ARM.1) } }
struct Twice; impl Drop for Twice { fn drop(&mut self) { panic!("again") } }
#[inline(never)] fn zero() -> u32 { unsafe { ARM.2 } }
fn go(kind: u32) { match kind {
  0 => panic!("message {}", 1),
  1 => { let v: Vec<u32> = Vec::new(); std::hint::black_box(v[zero() as usize]); }
  2 => { let o: Option<u32> = if zero() == 0 { None } else { Some(1) }; std::hint::black_box(o.unwrap()); }
  3 => { std::hint::black_box(1 / zero()); }
  4 => std::panic::panic_any(Box::new(5)),
  5 => std::panic::resume_unwind(Box::new(5)),
  6 => { let c = RefCell::new(1); let _a = c.borrow_mut(); std::hint::black_box(c.borrow()); }
  7 => { let _t = Twice; panic!("first") }
  8 => { std::hint::black_box((zero() as usize).checked_sub(1).map_or_else(|| Vec::<u64>::with_capacity(usize::MAX), |_| vec![])); }
  9 => { let r: Result<u32, String> = Err("e".into()); r.expect("expected"); }
  10 => { let h = std::thread::spawn(|| panic!("elsewhere")); h.join().unwrap(); }
  20 => { let _ = std::panic::catch_unwind(|| panic!("caught")); }
  _ => { let h = std::thread::spawn(|| panic!("elsewhere")); let _ = h.join(); }
} }
pub struct S { v: u32 }
impl S { pub fn mk(v: u32) -> S { S { v } } pub fn m(&self) -> u32 { b(P_self_ref); self.v } pub fn mm(&mut self, x: u32) { b(P_self_mut); self.v = x } pub fn c(self) -> u32 { b(P_self_value); self.v } pub fn assoc() -> S { b(P_assoc); S { v: 1 } } }
impl Default for S { fn default() -> S { b(P_default); S { v: 0 } } }
impl Drop for S { fn drop(&mut self) { b(P_drop) } }
impl Clone for S { fn clone(&self) -> S { b(P_clone); S { v: self.v } } fn clone_from(&mut self, o: &S) { b(P_clone); self.v = o.v } }
impl PartialEq for S { fn eq(&self, o: &S) -> bool { b(P_eq); self.v == o.v } }
impl PartialOrd for S { fn partial_cmp(&self, o: &S) -> Option<std::cmp::Ordering> { b(P_cmp); self.v.partial_cmp(&o.v) } }
impl From<u32> for S { fn from(v: u32) -> S { b(P_from); S { v } } }
impl From<S> for u64 { fn from(s: S) -> u64 { b(P_into); s.v as u64 } }
impl fmt::Display for S { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("a")?; b(P_display); f.write_str("b") } }
#[derive(Clone, Copy)] pub struct Cp { pub x: u32 } pub fn cp() -> Cp { Cp { x: 1 } }
impl Neg for Cp { type Output = Cp; fn neg(self) -> Cp { b(P_neg); self } } impl Not for Cp { type Output = Cp; fn not(self) -> Cp { b(P_not); self } }
pub enum En { A, B(u32) }
pub trait Tr { fn t(&self) -> u32; fn ts(x: u32) -> u32; } impl Tr for S { fn t(&self) -> u32 { b(P_trait_method); 1 } fn ts(x: u32) -> u32 { b(P_trait_assoc); x } }
#[derive(Clone, Default)] pub struct Outer { pub a: S, pub o: Option<S>, pub n: u32 } impl Outer { pub fn mk() -> Outer { Outer { a: S::mk(1), o: Some(S::mk(2)), n: 3 } } }
pub union Un { pub x: u32, pub y: f32 } impl Un { pub fn mk() -> Un { b(P_union); Un { x: 1 } } }
#[derive(Default)] pub struct It { n: u32 } impl It { pub fn mk() -> It { It { n: 0 } } } impl Iterator for It { type Item = u32; fn next(&mut self) -> Option<u32> { b(P_next); self.n += 1; if self.n > 3 { None } else { Some(self.n) } } }
#[derive(Default)] pub struct Bag { v: Vec<u32> } impl Bag { pub fn mk() -> Bag { Bag { v: vec![1, 2] } } } impl IntoIterator for Bag { type Item = u32; type IntoIter = It; fn into_iter(self) -> It { b(P_into_iter); It { n: 0 } } }
extern "C" fn twice(x: u32) -> u32 { x * 2 }
extern "C" fn bad(x: u32) -> u32 { b(P_fn_pointer); x }
pub fn get_bad() -> extern "C" fn(u32) -> u32 { bad }
pub fn call_cb(f: extern "C" fn(u32) -> u32) -> u32 { f(1) }
pub fn through(f: extern "C" fn(u32) -> u32) -> u32 { let s = S::mk(1); let r = f(3); drop(s); r }
pub fn local() -> u32 { struct G; impl Drop for G { fn drop(&mut self) { b(P_local_drop) } } let _g = G; 1 }
pub fn take(s: S) -> u32 { s.v } pub fn take_opt(s: Option<S>) -> bool { s.is_some() } pub fn take_tup(s: (S, u8)) -> u8 { s.1 } pub fn take_vec(s: Vec<S>) -> usize { s.len() } pub fn mk_vec() -> Vec<S> { vec![S::mk(1), S::mk(2)] } pub fn mk_res() -> Result<S, u8> { Ok(S::mk(1)) } pub fn take_res(r: Result<S, u8>) -> bool { r.is_ok() }
pub fn pass_opt(s: Option<S>) -> Option<S> { s }
pub unsafe fn unsf() -> u32 { b(P_unsafe_fn); 1 }
pub extern "C" fn c_abi(x: u32) -> u32 { b(P_extern_c); x } #[unsafe(no_mangle)] pub extern "C" fn c15_no_mangle(x: u32) -> u32 { b(P_no_mangle); x } pub extern "C-unwind" fn c_unwind(x: u32) -> u32 { b(P_c_unwind_mangled); x } pub extern "C" fn c_abi_s(s: S) -> S { b(P_extern_c_struct); s }
#[unsafe(no_mangle)] pub fn c15_no_mangle_rust(x: u32) -> u32 { b(P_no_mangle_rust_abi); x } #[unsafe(export_name = "c15_exported")] pub extern "C" fn exported(x: u32) -> u32 { b(P_export_name); x }
pub fn never() -> ! { b(P_never); std::process::exit(0) }
pub mod inner { pub fn f() { super::b(P_nested_module) } pub struct T { pub x: u32 } impl T { pub fn new() -> T { super::b(P_new); T { x: 1 } } } }
pub async fn fut(s: S) -> u32 { b(P_future); s.v }
pub async fn fut_pending(s: S) -> u32 { struct P(bool); impl std::future::Future for P { type Output = (); fn poll(mut self: std::pin::Pin<&mut Self>, c: &mut std::task::Context<'_>) -> std::task::Poll<()> { if self.0 { b(P_second_poll); return std::task::Poll::Ready(()) } self.0 = true; c.waker().wake_by_ref(); std::task::Poll::Pending } } P(false).await; s.v }
#[doc = "CRUBIT_ANNOTATE: cpp_type=std::optional"] #[doc = "CRUBIT_ANNOTATE: bridge_abi_cpp=crubit::OptionAbi"] #[doc = "CRUBIT_ANNOTATE: bridge_abi_rust=MyOptAbi"] #[doc = "CRUBIT_ANNOTATE: include_path=<optional>"]
pub struct MyOpt<T>(Option<T>);
#[derive(Clone, Default)] pub struct MyOptAbi<A>(pub A);
unsafe impl<A: CrubitAbi> CrubitAbi for MyOptAbi<A> { type Value = MyOpt<A::Value>; const SIZE: usize = 1 + A::SIZE;
    fn encode(self, v: Self::Value, e: &mut Encoder) { b(P_encode); transmute_abi().encode(v.0.is_some(), e); if let Some(v) = v.0 { self.0.encode(v, e) } }
    unsafe fn decode(self, d: &mut Decoder) -> Self::Value { b(P_decode); unsafe { if transmute_abi::<bool>().decode(d) { MyOpt(Some(self.0.decode(d))) } else { MyOpt(None) } } } }
pub fn br_id(x: MyOpt<u32>) -> MyOpt<u32> { x }
pub mod ty { pub struct Sd { pub s: super::S } #[derive(Clone)] pub struct Gd { pub x: u32 } impl Drop for Gd { fn drop(&mut self) { super::b(P_drop_without_default) } } impl Gd { pub fn mk() -> Gd { Gd { x: 1 } } } }
"""
RUST += "".join(f"impl {t} for Cp {{ type Output = Cp; fn {m}(self, o: Cp) -> Cp {{ b(P_{m}); self }} }} impl {t}Assign for Cp {{ fn {m}_assign(&mut self, o: Cp) {{ b(P_{m}_assign) }} }}\n" for t, m, _ in OPS)
RUST += "".join(f"pub fn r_{n}() -> {t} {{ b(P_returning_{n}); {v} }}\n" for n, (t, v) in RET.items())
RUST += "".join(f"pub fn p_{n}(x: {t}) {{ b(P_taking_{n}) }}\n" for n, (t, _) in PAR.items())
# (name, point, C++ expression, which visit of the point)
SITES = [(f"fn -> {t}", f"returning_{n}", "(void)h::r_%s();" % n if n != "unit" else "h::r_unit();", 0) for n, (t, _) in RET.items()]
SITES += [(f"fn({t})", f"taking_{n}", f"h::p_{n}({v});", 0) for n, (t, v) in PAR.items()]
SITES += [(m, m, f"h::Cp a = h::cp(), b = a; (void)({x});", 0) for _t, m, x in OPS]
SITES += [(m + "_assign", m + "_assign", f"h::Cp a = h::cp(), b = a; {x.replace(' b', '= b')};", 0) for _t, m, x in OPS]
S1 = "h::S s = h::S::mk(1); "
SITES += [
    ("&self method", "self_ref", S1 + "s.m();", 0), ("&mut self method", "self_mut", S1 + "s.mm(2);", 0), ("consuming method", "self_value", S1 + "std::move(s).c();", 0), ("associated function", "assoc", "h::S::assoc();", 0),
    ("consuming method, self dropped", "drop", S1 + "std::move(s).c();", 0),
    ("default constructor", "default", "h::S s;", 0), ("move constructor (Default)", "default", S1 + "h::S t(std::move(s));", 0), ("pass by value (Default of the source)", "default", S1 + "h::take(std::move(s));", 0), ("move assignment", "drop", S1 + "h::S t = h::S::mk(2); t = std::move(s);", 0),
    ("copy constructor", "clone", S1 + "h::S t(s);", 0), ("copy assignment", "clone", S1 + "h::S t = h::S::mk(2); t = s;", 0), ("copy assignment, old value dropped", "drop", S1 + "h::S t = h::S::mk(2); t = s;", 0),
    ("destructor", "drop", "{ " + S1 + "}", 0), ("delete", "drop", "auto* p = new h::S(h::S::mk(1)); delete p;", 0),
    ("==", "eq", S1 + "h::S t = h::S::mk(1); (void)(s == t);", 0), ("!=", "eq", S1 + "h::S t = h::S::mk(1); (void)(s != t);", 0), ("<=>", "cmp", S1 + "h::S t = h::S::mk(1); (void)(s <=> t);", 0), ("<", "cmp", S1 + "h::S t = h::S::mk(1); (void)(s < t);", 0),
    ("From constructor", "from", "h::S s(uint32_t(5));", 0), ("Into conversion", "into", S1 + "(void)static_cast<uint64_t>(std::move(s));", 0),
    ("operator<<", "display", S1 + "std::ostringstream o; o << s;", 0), ("unary -", "neg", "(void)-h::cp();", 0), ("!", "not", "(void)!h::cp();", 0),
    ("trait method", "trait_method", S1 + "rs_std::impl<h::S, h::Tr>::t(s);", 0), ("trait function", "trait_assoc", "rs_std::impl<h::S, h::Tr>::ts(1);", 0),
    ("field dropped with its struct", "drop", "{ h::Outer o = h::Outer::mk(); }", 0), ("payload of an Option dropped with its struct", "drop", "{ h::Outer o = h::Outer::mk(); }", 1), ("struct clone", "clone", "h::Outer o = h::Outer::mk(); h::Outer p(o);", 0), ("struct clone, second field", "clone", "h::Outer o = h::Outer::mk(); h::Outer p(o);", 1),
    ("struct default", "default", "h::Outer o;", 0), ("field assignment", "drop", "h::Outer o = h::Outer::mk(); o.a = h::S::mk(4);", 0), ("Option reset", "drop", "h::Outer o = h::Outer::mk(); o.o = std::nullopt;", 0), ("Option assignment", "drop", "h::Outer o = h::Outer::mk(); o.o = h::S::mk(2);", 0), ("Option copy", "clone", "h::Outer o = h::Outer::mk(); auto p = o.o;", 0),
    ("union", "union", "h::Un u = h::Un::mk();", 0), ("iterator", "next", "h::It i = h::It::mk(); for (auto v : i) (void)v;", 0), ("iterator, second step", "next", "h::It i = h::It::mk(); for (auto v : i) (void)v;", 2), ("into_iter", "into_iter", "h::Bag g = h::Bag::mk(); auto it = std::move(g).into_iter();", 0),
    ("function pointer", "fn_pointer", "h::get_bad()(1);", 0), ("function pointer passed back", "fn_pointer", "h::call_cb(h::get_bad());", 0), ("drop of a local", "local_drop", "h::local();", 0),
    ("argument dropped", "drop", "h::take(h::S::mk(1));", 0), ("argument dropped, source", "drop", "h::take(h::S::mk(1));", 1), ("argument in Option dropped", "drop", "h::take_opt(std::optional<h::S>(h::S::mk(1)));", 0), ("argument in tuple dropped", "drop", "h::take_tup(std::tuple<h::S, uint8_t>(h::S::mk(1), 2));", 0),
    ("argument in Vec dropped", "drop", "h::take_vec(h::mk_vec());", 0), ("Vec destructor", "drop", "{ auto v = h::mk_vec(); }", 0), ("Vec destructor, second element", "drop", "{ auto v = h::mk_vec(); }", 1), ("Vec copy", "clone", "auto v = h::mk_vec(); auto w = v;", 0), ("Vec copy, second element", "clone", "auto v = h::mk_vec(); auto w = v;", 1), ("Result destructor", "drop", "{ auto r = h::mk_res(); }", 0), ("Result copy", "clone", "auto r = h::mk_res(); auto q = r;", 0), ("argument in Result dropped", "drop", "h::take_res(h::mk_res());", 0), ("Option handed through", "default", "h::pass_opt(std::optional<h::S>(h::S::mk(1)));", 0),
    ("unsafe fn", "unsafe_fn", "h::unsf();", 0), ("extern C fn", "extern_c", "h::c_abi(1);", 0), ("no_mangle extern C fn", "no_mangle", "h::c15_no_mangle(1);", 0), ("extern C-unwind fn through a thunk", "c_unwind_mangled", "h::c_unwind(1);", 0), ("extern C fn of a struct", "extern_c_struct", "h::c_abi_s(h::S::mk(1));", 0), ("no_mangle Rust fn", "no_mangle_rust_abi", "h::c15_no_mangle_rust(1);", 0), ("export_name fn", "export_name", "h::exported(1);", 0),
    ("fn -> !", "never", "h::never();", 0), ("function in a module", "nested_module", "h::inner::f();", 0), ("fn new", "new", "auto t = h::inner::T::new_();", 0),
    ("poll of a future", "future", "W w; uint32_t o; auto f = h::fut(h::S::mk(1)); f.Poll(&w, &o);", 0), ("second poll of a future", "second_poll", "W w; uint32_t o; auto f = h::fut_pending(h::S::mk(1)); f.Poll(&w, &o); f.Poll(&w, &o);", 0), ("argument of a completed future dropped", "drop", "W w; uint32_t o; auto f = h::fut(h::S::mk(1)); c15_arm(g_kind == 99 ? 0 : P_drop, g_kind, 0); f.Poll(&w, &o);", 99), ("destructor of a pending future", "drop", "W w; uint32_t o; auto f = h::fut_pending(h::S::mk(1)); f.Poll(&w, &o); c15_arm(g_kind == 99 ? 0 : P_drop, g_kind, 0);", 99),
    ("destructor of an unpolled future", "drop", "auto f = h::fut(h::S::mk(1)); c15_arm(g_kind == 99 ? 0 : P_drop, g_kind, 0);", 99),
    ("encoding a result", "encode", "h::br_id(std::optional<uint32_t>(1));", 0), ("decoding an argument", "decode", "h::br_id(std::optional<uint32_t>(1));", 0), ("destructor without Default", "drop_without_default", "{ auto g = h::ty::Gd::mk(); }", 0),
]
CC = r"""#include "h.h"
#include <csignal>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <thread>
#include <unistd.h>
#include "vmc.h"
extern "C" void c15_arm(uint32_t n, uint32_t kind, uint32_t skip);
extern "C" void c15_quiet();
struct Sh { volatile int reached, returned, caught, unwound, done; };
static Sh* sh;
extern "C" void c15_reached() { sh->reached = 1; }
static uint32_t g_kind;
struct W : rs_std::Waker { void WakeByRef() override {} void WakeAndDestroy() override {} rs_std::Waker* Clone() override { return this; } void Destroy() override {} };
static h::S& s1() { alignas(h::S) static char b[sizeof(h::S)]; static bool d; if (!d) { new (b) h::S(h::S::mk(1)); d = true; } return *reinterpret_cast<h::S*>(b); }
static h::S& s2() { alignas(h::S) static char b[sizeof(h::S)]; static bool d; if (!d) { new (b) h::S(h::S::mk(1)); d = true; } return *reinterpret_cast<h::S*>(b); }
extern "C" uint32_t cb_(uint32_t x) { return x; }
static auto& cb = cb_;
struct Guard { ~Guard() { if (!sh->returned) sh->unwound = 1; } };
struct Site { const char* name; uint32_t point, skip; void (*f)(); };
static const Site* g_site;
static void body() {
  Guard g;
  try { g_site->f(); sh->returned = 1; } catch (...) { sh->caught = 1; }
}
extern "C" uint32_t body_cb(uint32_t) { body(); return 1; }
"""
MAIN = r"""
int main(int, char** v) {
  int part = atoi(v[1]), parts = atoi(v[2]), n = 0;
  sh = static_cast<Sh*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  static const uint32_t kinds[] = {99, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 20, 21};
  static const char* kn[] = {"no panic", "panic!", "index out of bounds", "unwrap", "division by zero", "panic_any", "resume_unwind", "RefCell", "panic while panicking", "capacity overflow", "expect", "join of a panicked thread", "caught panic", "panic in a joined thread"};
  static const char* mn[] = {"plain call", "call in a thread", "call below a Rust frame"};
  for (auto& s : sites) for (int k = 0; k < 14; k++) for (int mode = 0; mode < 3; mode++) {
    bool panics = k >= 1 && (k <= 11 || atoi(v[3]));
    if (!panics && !strcmp(s.name, "fn -> !")) continue;
    if (n++ % parts != part) continue;
    *sh = Sh();
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      rlimit r{0, 0}; setrlimit(RLIMIT_CORE, &r);
      int nul = open("/dev/null", O_RDWR); dup2(nul, 1); dup2(nul, 2);
      alarm(60);
      if (k != 1 || mode) c15_quiet();  // the usual hook prints a backtrace, which takes long
      g_site = &s; g_kind = kinds[k];
      if (s.skip != 99) c15_arm(kinds[k] == 99 ? 0 : s.point, kinds[k], s.skip);
      if (mode == 0) body(); else if (mode == 1) std::thread(body).join(); else h::through(body_cb);
      sh->done = 1;
      _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    vmc::stat("evaluations", 1);
    std::string w = std::string(s.name) + ", " + kn[k] + ", " + mn[mode];
    auto bad = [&](const char* t) { vmc::viol(std::string(s.name) + ": " + t, w + ": " + t); };
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { bad("hangs"); continue; }
    if (!panics) {
      if (!sh->returned || !sh->done || !WIFEXITED(st)) bad("a call that does not panic does not return");
      continue;
    }
    if (!sh->reached) { vmc::stat("not reached", 1); if (!sh->returned) bad("does not return although nothing panicked"); continue; }
    vmc::stat("distinct_nontrivial", 1);
    if (n % 401 == 0) vmc::sample(w);
    if (sh->returned) bad("control returned to the C++ caller after a panic");
    else if (sh->caught) bad("a C++ handler caught a Rust panic");
    else if (sh->unwound) bad("a C++ destructor ran while a Rust panic unwound");
    else if (!WIFSIGNALED(st)) bad("the process did not abort");
    else if (WTERMSIG(st) != SIGABRT && WTERMSIG(st) != SIGILL && WTERMSIG(st) != SIGTRAP) bad("the process crashed instead of aborting");
  }
  return vmc::done();
}
"""


def check(chk):
    chk.coverage["rule"] = "one case = one entry point, panic point, way of panicking and calling context, in its own process; it counts when the panic point was reached"
    e = E2E(chk)
    names = list(dict.fromkeys(re.findall(r"\bP_(\w+)", RUST)))
    consts = "".join(f"const P_{n}: u32 = {i + 1};\n" for i, n in enumerate(names))
    rust = RUST.replace("pub mod inner {", "pub mod inner { use super::*;").replace("pub mod ty {", "pub mod ty { use super::*;") + consts
    cc = CC + "".join(f"constexpr uint32_t P_{n} = {i + 1};\n" for i, n in enumerate(names))
    ids = []
    for i, (n, p, x, skip) in enumerate(SITES):
        cc += f"static void site{i}() {{ {x} }}\n"
        ids.append(f'{{{json.dumps(n)}, P_{p}, {skip}, site{i}}}')
    cc += "static const Site sites[] = {" + ",\n".join(ids) + "};\n" + MAIN
    runs = []
    for panic in ("unwind", "abort"):
        d = os.path.join(chk.dir, panic)
        exe, err = e.build(d, [("h", rust)], cc, cc_flags=["-I" + os.path.join(VERIF, "harness/cpp"), "-Wno-everything"], lib_externs=[("bridge_rust", e.rlibs["bridge_rust"])], gen_args=["-L", e.root], edition="2024", panic=panic)
        if not exe:
            chk.violation("build " + panic, f"a program that calls generated bindings does not compile ({err[0]}):\n" + "\n".join(l for l in err[1].splitlines() if "error:" in l)[:1500] + err[1][-2500:])
            return
        chk.log("built for panic=" + panic)
        runs += [(panic, exe, i) for i in range(8)]
    for (panic, exe, i), r in zip(runs, pmap(lambda x: run_exe(x[1], [str(x[2]), "8", str(int(x[0] == "abort"))], timeout=700), runs)):
        judge_harness(chk, f"panic={panic} part {i}", r)


main(check, "C15", "exploration")
