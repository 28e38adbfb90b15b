#!/usr/bin/env python3
"""C02: every history (up to a depth) of constructions, copies, moves, assignments, swaps, calls and
destructions over two objects of every shape of owning type, with a ledger kept by the Rust side."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import re

LEDGER = r'''
#![allow(static_mut_refs, dead_code)]
use std::alloc::{GlobalAlloc, Layout, System};
pub struct Cnt;
pub static mut BLOCKS: i64 = 0;
unsafe impl GlobalAlloc for Cnt {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BLOCKS += 1; System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { BLOCKS -= 1; System.dealloc(p, l) }
}
/// 0: never existed, 1: live, 2: dropped
static mut STATE: [u8; 1 << 16] = [0; 1 << 16];
static mut NEXT: usize = 1;
static mut LIVE: i64 = 0;
static mut CLONES: i64 = 0;
static mut ERR: i64 = 0;
const MAGIC: u64 = 0x5a17_c0de_d00d_fee1;
pub struct Tok { magic: u64, id: usize, v: i64 }
fn fresh(v: i64) -> Tok { unsafe { let id = NEXT; NEXT += 1; STATE[id] = 1; LIVE += 1; Tok { magic: MAGIC, id, v } } }
fn err(k: i64) { unsafe { if ERR == 0 { ERR = k } } }
impl Tok {
    pub fn new(v: i64) -> Tok { fresh(v) }
    fn ok(&self) -> bool { unsafe { self.magic == MAGIC && self.id < NEXT && STATE[self.id] == 1 } }
    pub fn get(&self) -> i64 { if !self.ok() { err(1); return -999 } note(self.id); self.v }
    pub fn v(&self) -> i64 { self.v }
    pub fn alive(&self) { if !self.ok() { err(1) } }
    pub fn set(&mut self, v: i64) { if !self.ok() { err(2) } self.v = v }
}
impl Clone for Tok { fn clone(&self) -> Tok { if !self.ok() { err(3) } unsafe { CLONES += 1; } fresh(self.v) } }
impl Default for Tok { fn default() -> Tok { fresh(0) } }
impl Drop for Tok { fn drop(&mut self) { if !self.ok() { err(4); return } unsafe { STATE[self.id] = 2; LIVE -= 1; } self.magic = 0xdddd; } }
static mut SEEN: [usize; 64] = [0; 64];
static mut NSEEN: usize = 0;
fn note(id: usize) { unsafe { if NSEEN < 64 { if SEEN[..NSEEN].contains(&id) { err(5) } SEEN[NSEEN] = id; NSEEN += 1; } } }
#[unsafe(no_mangle)] pub extern "C" fn led_reset() -> i64 { unsafe { for i in 0..NEXT { STATE[i] = 0 } NEXT = 1; LIVE = 0; CLONES = 0; ERR = 0; NSEEN = 0; BLOCKS } }
#[unsafe(no_mangle)] pub extern "C" fn led_look() { unsafe { NSEEN = 0 } }
#[unsafe(no_mangle)] pub extern "C" fn led_live() -> i64 { unsafe { LIVE } }
#[unsafe(no_mangle)] pub extern "C" fn led_clones() -> i64 { unsafe { CLONES } }
#[unsafe(no_mangle)] pub extern "C" fn led_blocks() -> i64 { unsafe { BLOCKS } }
#[unsafe(no_mangle)] pub extern "C" fn led_err() -> i64 { unsafe { ERR } }
'''

# name, rust type, definition, make(v), look(&x), tokens per object (-1: varies), movable in C++ by move, clone, default
SHAPES = []


def shape(name, ty, make, look, n, clone, default, defs="", byval=True):
    SHAPES.append(dict(name=name, ty=ty, make=make, look=look, n=n, clone=clone, default=default, defs=defs, byval=byval))


def st(name, attrs, body, extra="", make=None, look="x.t.get()", **k):
    shape(name, name, make or f"{name} {{ t: Tok::new(v) }}", look, defs=f"{attrs} pub struct {name} {body}\n{extra}", **k)


st("Ddc", "#[derive(Default)]", "{ t: Tok, pub pad: u8 }", "impl Drop for Ddc { fn drop(&mut self) { self.t.alive(); } } impl Clone for Ddc { fn clone(&self) -> Ddc { Ddc { t: self.t.clone(), pad: 1 } } }",
   make="Ddc { t: Tok::new(v), pad: 1 }", n=1, clone=True, default=True)
st("Glue", "#[derive(Default, Clone)]", "{ t: Tok }", n=1, clone=True, default=True)
st("Gd", "#[derive(Default)]", "{ t: Tok }", n=1, clone=False, default=True)
st("Gc", "#[derive(Clone)]", "{ t: Tok }", n=1, clone=True, default=False)
st("Gn", "", "{ t: Tok }", n=1, clone=False, default=False, byval=False)
st("Dn", "", "{ t: Tok }", "impl Drop for Dn { fn drop(&mut self) { self.t.alive(); } }", n=1, clone=False, default=False, byval=False)
st("Cf", "#[derive(Default)]", "{ t: Tok }", "impl Clone for Cf { fn clone(&self) -> Cf { Cf { t: self.t.clone() } } fn clone_from(&mut self, o: &Cf) { self.t = o.t.clone(); } }",
   n=1, clone=True, default=True)
st("Rc_", "#[repr(C)] #[derive(Default, Clone)]", "{ pub a: u8, pub g: Glue, pub b: u16 }", make="Rc_ { a: 1, g: Glue { t: Tok::new(v) }, b: 2 }", look="x.g.t.get()", n=1, clone=True, default=True)
st("Al", "#[repr(align(32))] #[derive(Default, Clone)]", "{ t: Tok }", n=1, clone=True, default=True)
st("Tup", "#[derive(Default, Clone)]", "(pub Ddc, pub Glue);", make="Tup(Ddc { t: Tok::new(v), pad: 1 }, Glue { t: Tok::new(v * 3) })",
   look="{ let a = x.0.t.get(); let b = x.1.t.get(); if b == a * 3 { a } else { -5 } }", n=2, clone=True, default=True)
st("Bx", "#[derive(Default, Clone)]", "{ t: Box<Tok>, s: Vec<Tok> }", make="Bx { t: Box::new(Tok::new(v)), s: vec![Tok::new(v), Tok::new(v)] }",
   look="{ let a = x.t.get(); if x.s.iter().any(|t| t.get() != a) { -5 } else { a } }", n=-1, clone=True, default=True)
st("En", "", "", make="", n=-1, clone=True, default=True) if False else None
shape("En", "En", "if v % 2 == 0 { En::P(Tok::new(v), 7) } else { En::Q { q: Tok::new(v) } }", "match x { En::Z => 0, En::P(t, _) => t.get(), En::Q { q } => q.get() }", -1, True, True,
      defs="#[derive(Clone, Default)] pub enum En { #[default] Z, P(Tok, u8), Q { q: Tok } }")
shape("Enn", "Enn", "Enn::P(Glue { t: Tok::new(v) })", "match x { Enn::Z => 0, Enn::P(t) => t.t.get() }", -1, False, False, byval=False,
      defs="pub enum Enn { Z, P(Glue) }")
shape("Opt", "Option<Glue>", "Some(Glue { t: Tok::new(v) })", "", -1, True, True)
shape("OptGc", "Option<Gc>", "Some(Gc { t: Tok::new(v) })", "", -1, True, True)
shape("Res", "Result<Glue, Ddc>", "if v % 2 == 0 { Ok(Glue { t: Tok::new(v) }) } else { Err(Ddc { t: Tok::new(v), pad: 1 }) }", "", -1, True, False)
shape("VecD", "Vec<Ddc>", "(0..2).map(|i| Ddc { t: Tok::new(v + i * 10), pad: 1 }).collect()", "", -1, True, True)
shape("Pair", "(Ddc, Glue)", "(Ddc { t: Tok::new(v), pad: 1 }, Glue { t: Tok::new(v * 3) })", "", 2, True, True)
shape("Arr", "[Ddc; 2]", "[Ddc { t: Tok::new(v), pad: 1 }, Ddc { t: Tok::new(v * 3), pad: 1 }]", "", 2, True, True)
shape("ArrGc", "[Gc; 2]", "[Gc { t: Tok::new(v) }, Gc { t: Tok::new(v * 3) }]", "", 2, True, False)
shape("Arr2", "[[Glue; 2]; 1]", "[[Glue { t: Tok::new(v) }, Glue { t: Tok::new(v * 3) }]]", "", 2, True, True)
shape("OptGd", "Option<Gd>", "Some(Gd { t: Tok::new(v) })", "", -1, False, True)
shape("OptO", "Option<Option<Glue>>", "Some(Some(Glue { t: Tok::new(v) }))", "", -1, True, True)
shape("OptV", "Option<Vec<Ddc>>", "Some((0..2).map(|i| Ddc { t: Tok::new(v + i * 10), pad: 1 }).collect())", "", -1, True, True)
shape("OptS", "Option<String>", "Some(format!(\"{}-a string that is long enough to live on the heap\", v))", "", 0, True, True)
shape("ResU", "Result<Gd, i32>", "Ok(Gd { t: Tok::new(v) })", "", -1, False, False, byval=False)
shape("VecGd", "Vec<Gd>", "(0..2).map(|i| Gd { t: Tok::new(v + i * 10) }).collect()", "", -1, False, True)
shape("ArrGn", "[Gn; 2]", "[Gn { t: Tok::new(v) }, Gn { t: Tok::new(v * 3) }]", "", 2, False, False)
shape("ArrT", "[(Glue, u8); 2]", "[(Glue { t: Tok::new(v) }, 1), (Glue { t: Tok::new(v * 3) }, 2)]", "if x[1].1 == 2 && x[1].0.t.get() == x[0].0.t.v() * 3 { x[0].0.t.get() } else { -5 }", 2, True, True)
shape("PairA", "([Glue; 1], Ddc)", "([Glue { t: Tok::new(v) }], Ddc { t: Tok::new(v * 3), pad: 1 })", "", 2, True, True)
shape("PairGc", "(Gc, Gd)", "(Gc { t: Tok::new(v) }, Gd { t: Tok::new(v * 3) })", "", 2, False, False)
shape("Str", "String", "format!(\"{}-a string that is long enough to live on the heap\", v)", "", 0, True, True)
shape("VecS", "Vec<i32>", "vec![v as i32; 100]", "", 0, True, True)

LOOK_CC = {
    "Opt": "x.has_value() ? foo::look_Glue(*x) : 0",
    "OptGc": "x.has_value() ? foo::look_Gc(*x) : 0",
    "Res": "x.has_value() ? foo::look_Glue(*x) : foo::look_Ddc(x.err())",
    "VecD": "[&]() -> int64_t { if (x.size() == 0) return 0; if (x.size() != 2) return -6; auto a = foo::look_Ddc(x[0]); return foo::look_Ddc(x[1]) == a + 10 ? a : -5; }()",
    "Pair": "[&] { using std::get; auto a = foo::look_Ddc(get<0>(x)); auto b = foo::look_Glue(get<1>(x)); return b == a * 3 ? a : -5; }()",
    "Arr": "[&] { auto a = foo::look_Ddc(x[0]); auto b = foo::look_Ddc(x[1]); return b == a * 3 ? a : -5; }()",
    "ArrGc": "[&] { auto a = foo::look_Gc(x[0]); auto b = foo::look_Gc(x[1]); return b == a * 3 ? a : -5; }()",
    "Arr2": "[&] { auto a = foo::look_Glue(x[0][0]); auto b = foo::look_Glue(x[0][1]); return b == a * 3 ? a : -5; }()",
    "OptGd": "x.has_value() ? foo::look_Gd(*x) : 0",
    "OptO": "x.has_value() && (*x).has_value() ? foo::look_Glue(**x) : 0",
    "OptV": "[&]() -> int64_t { if (!x.has_value()) return 0; if ((*x).size() != 2) return -6; auto a = foo::look_Ddc((*x)[0]); return foo::look_Ddc((*x)[1]) == a + 10 ? a : -5; }()",
    "OptS": "x.has_value() ? (int64_t)atoi(std::string((*x).as_str().data(), (*x).as_str().size()).c_str()) : 0",
    "ResU": "x.has_value() ? foo::look_Gd(*x) : x.err()",
    "VecGd": "[&]() -> int64_t { if (x.size() == 0) return 0; if (x.size() != 2) return -6; auto a = foo::look_Gd(x[0]); return foo::look_Gd(x[1]) == a + 10 ? a : -5; }()",
    "ArrGn": "[&] { auto a = foo::look_Gn(x[0]); auto b = foo::look_Gn(x[1]); return b == a * 3 ? a : -5; }()",
    "PairA": "[&] { using std::get; auto a = foo::look_Glue(get<0>(x)[0]); auto b = foo::look_Ddc(get<1>(x)); return b == a * 3 ? a : -5; }()",
    "PairGc": "[&] { using std::get; auto a = foo::look_Gc(get<0>(x)); auto b = foo::look_Gd(get<1>(x)); return b == a * 3 ? a : -5; }()",
    "Str": "(int64_t)atoi(std::string(x.as_str().data(), x.as_str().size()).c_str())",
    "VecS": "(int64_t)(x.size() ? x[x.size() - 1] : 0)",
}


# looks through a reference to the layout-compatible tuple
LOOK_RS = {
    "Pair": "if x.1.t.get() == x.0.t.v() * 3 { x.0.t.get() } else { -5 }",
    "PairA": "if x.1.t.get() == x.0[0].t.v() * 3 { x.0[0].t.get() } else { -5 }",
}


def rust(spec):
    s = ["#![allow(static_mut_refs)]", "use vsup::Tok;"]
    for h in SHAPES:
        n, ty = h["name"], h["ty"]
        s.append(h["defs"])
        s.append(f"pub fn mk_{n}(v: i64) -> {ty} {{ {h['make']} }}")
        look = h["look"] or (spec and LOOK_RS.get(n))
        if look:
            s.append(f"pub fn look_{n}(x: &{ty}) -> i64 {{ {look} }}")
        if h["ty"] == n:
            s.append(f"pub fn rswap_{n}(x: &mut {n}, y: &mut {n}) {{ std::mem::swap(x, y) }}")
            s.append(f"pub fn renew_{n}(x: &mut {n}, v: i64) {{ *x = mk_{n}(v) }}")
            if h["byval"]:
                s.append(f"pub fn repl_{n}(x: &mut {n}, y: {n}) -> {n} {{ std::mem::replace(x, y) }}")
                s.append(f"impl {n} {{ pub fn eatme(self) {{}} pub fn idme(self) -> {n} {{ self }} pub fn take2(self, o: {n}) -> {n} {{ o }} }}")
            if h["clone"]:
                s.append(f"pub fn rclone_{n}(x: &{n}) -> {n} {{ x.clone() }}")
        if h["byval"]:
            s.append(f"pub fn eat_{n}(_x: {ty}) {{}}")
            s.append(f"pub fn id_{n}(x: {ty}) -> {ty} {{ x }}")
            s.append(f"pub fn snd_{n}(_x: {ty}, k: u8, y: {ty}) -> {ty} {{ let _ = k; y }}")
            s.append(f"pub fn fst_{n}(x: {ty}, _k: f64, _y: {ty}, _z: &Glue) -> {ty} {{ x }}")
    return "\n".join(s)


def traits(i, h, spec):
    n = h["name"]
    T = f"decltype(foo::mk_{n}(0))"
    look = f"foo::look_{n}(::ref(x))" if n not in LOOK_CC or spec and n in LOOK_RS else LOOK_CC[n]
    user = h["ty"] == n
    b = lambda x: "true" if x else "false"
    s = f'''struct T{i} {{ using T = {T}; static constexpr const char* name = "{n}"; static constexpr int n = {h["n"]};
 static constexpr bool cppmove = {b(n != "ArrGn")}, known = {b(n == "ArrGn")};
 static constexpr bool clone = {b(h["clone"])}, dflt = {b(h["default"])}, byval = {b(h["byval"])}, user = {b(user)}, copyonly = {b(n in ("Gc", "ArrGc", "PairGc") or n == "OptGc" and not spec)}, mixed = {b(n == "PairGc")};
 static T mk(int64_t v) {{ return foo::mk_{n}(v); }}
 static int64_t look(const T& x) {{ return {look}; }}
'''
    if h["byval"]:
        s += f" static void eatmk(int64_t v) {{ foo::eat_{n}(foo::mk_{n}(v)); }} static T idmk(int64_t v) {{ return foo::id_{n}(foo::mk_{n}(v)); }} template <class X> static void eatf(X&& x) {{ foo::eat_{n}(std::forward<X>(x)); }}" \
             f" template <class X> static T id(X&& x) {{ return foo::id_{n}(std::forward<X>(x)); }}" \
             f" template <class X, class Y> static T snd(X&& x, Y&& y) {{ return foo::snd_{n}(std::forward<X>(x), 3, std::forward<Y>(y)); }}" \
             f" template <class X, class Y> static T fst(X&& x, Y&& y) {{ auto g = foo::mk_Glue(1); return foo::fst_{n}(std::forward<X>(x), 1.5, std::forward<Y>(y), ::ref(g)); }}\n"
    if user:
        s += f" static void rswap(T& x, T& y) {{ foo::rswap_{n}(::ref(x), ::ref(y)); }} static void renew(T& x, int64_t v) {{ foo::renew_{n}(::ref(x), v); }}\n"
        if h["byval"]:
            s += f" template <class Y> static T repl(T& x, Y&& y) {{ return foo::repl_{n}(::ref(x), std::forward<Y>(y)); }}\n"
        if h["clone"]:
            s += f" static T rclone(const T& x) {{ return foo::rclone_{n}(::ref(x)); }}\n"
    return s + "};\n"


CC = r'''
#include "foo.h"
extern "C" { int64_t led_reset(); void led_look(); int64_t led_live(); int64_t led_clones(); int64_t led_blocks(); int64_t led_err(); }
template <class T> struct RefArg { T* p; operator T&() const { return *p; } operator T*() const { return p; } };
template <class T> RefArg<T> ref(T& x) { return {&x}; }
static const char* ERRS[] = {"", "a dead or invalid value was read", "a dead or invalid value was written", "a dead or invalid value was cloned", "a value was dropped twice or garbage was dropped", "two objects hold the same value", ""};
'''

ENGINE = r'''
static const int UNSET = -1000, MAYBE = -2000;   // no object; an object whose value is not specified
template <class H> struct Run {
  using T = typename H::T;
  static constexpr int K = SLOTS;
  alignas(T) unsigned char mem[K][sizeof(T)];
  int64_t val[K];
  std::string why;
  int64_t next, blocks0;
  T& o(int i) { return *std::launder(reinterpret_cast<T*>(mem[i])); }
  bool on(int i) { return val[i] != UNSET; }
  template <class F> void ctor(int i, int64_t v, F f) { memset(mem[i], 0xAB, sizeof(T)); f(mem[i]); val[i] = v; }
  void kill(int i) { std::destroy_at(&o(i)); memset(mem[i], 0xCD, sizeof(T)); val[i] = UNSET; }
  int64_t c0;
  void copies(int n) { if (H::n > 0 && mv) { int64_t d = led_clones() - c0; if (d != (int64_t)n * H::n) why = "Clone ran " + std::to_string(d) + " times instead of " + std::to_string(n * H::n); } }
  // does an rvalue leave through a real move (true) or a copy (false)?
  static constexpr bool mv = !H::copyonly;
  static constexpr bool movable = H::byval;
  int64_t gone(int64_t v) { return mv || H::mixed ? (int64_t)MAYBE : v; }
  struct Op { const char* name; bool (*ok)(Run&, int, int); void (*go)(Run&, int, int); bool two; };
  static std::vector<Op> ops() {
    std::vector<Op> r;
#define ONE(NAME, OK, GO) r.push_back({NAME, [](Run& s, int i, int) -> bool { return OK; }, [](Run& s, int i, int) { GO; }, false})
#define TWO(NAME, OK, GO) r.push_back({NAME, [](Run& s, int i, int j) -> bool { return OK; }, [](Run& s, int i, int j) { GO; }, true})
    ONE("make", !s.on(i), int64_t v = s.next++; s.ctor(i, v, [&](void* p) { new (p) T(H::mk(v)); }));
    ONE("destroy", s.on(i), s.kill(i));
    if constexpr (H::dflt) ONE("default", !s.on(i), s.ctor(i, H::user || H::n == 0 ? 0 : (int64_t)MAYBE, [&](void* p) { new (p) T(); }));
    ONE("const read", s.on(i) && s.val[i] != MAYBE, (void)s);
    if constexpr (H::user) {
      ONE("renew in Rust", s.on(i), int64_t v = s.next++; H::renew(s.o(i), v); s.val[i] = v);
      TWO("swap in Rust", i < j && s.on(i) && s.on(j), H::rswap(s.o(i), s.o(j)); std::swap(s.val[i], s.val[j]));
    }
    if constexpr (H::clone) {
      TWO("copy construct", i != j && !s.on(i) && s.on(j), s.ctor(i, s.val[j], [&](void* p) { new (p) T(std::as_const(s.o(j))); }); if (s.val[j] != MAYBE) s.copies(1));
      if constexpr (requires(T& a, const T& b) { a = b; }) {
        TWO("copy assign", i != j && s.on(i) && s.on(j), s.o(i) = std::as_const(s.o(j)); s.val[i] = s.val[j]; if (s.val[j] != MAYBE) s.copies(1));
        ONE("self copy assign", s.on(i), s.o(i) = std::as_const(s.o(i)));
      }
      if constexpr (H::user) TWO("clone in Rust", i != j && s.on(i) && s.on(j), s.o(i) = H::rclone(s.o(j)); s.val[i] = s.val[j]; if (s.val[j] != MAYBE) s.copies(1));
    }
    if constexpr (movable) {
      ONE("pass new value", !s.on(i), H::eatmk(5); s.copies(0));
      ONE("construct from round trip", !s.on(i), int64_t v = s.next++; s.ctor(i, v, [&](void* p) { new (p) T(H::idmk(v)); }); s.copies(0));
    }
    if constexpr (movable && H::cppmove) {
      TWO("move construct", i != j && !s.on(i) && s.on(j), s.ctor(i, s.val[j], [&](void* p) { new (p) T(std::move(s.o(j))); }); s.val[j] = s.gone(s.val[j]); s.copies(0));
      TWO("move assign", i != j && s.on(i) && s.on(j), s.o(i) = std::move(s.o(j)); s.val[i] = s.val[j]; s.val[j] = s.gone(s.val[j]); s.copies(0));
      ONE("assign a new value", s.on(i), int64_t v = s.next++; s.o(i) = H::mk(v); s.val[i] = v; s.copies(0));
      ONE("self move assign", s.on(i), T& r = s.o(i); T& q = r; r = std::move(q); if (H::n <= 0) s.val[i] = MAYBE);
      TWO("std::swap", i < j && s.on(i) && s.on(j), std::swap(s.o(i), s.o(j)); std::swap(s.val[i], s.val[j]); s.copies(0));
      ONE("pass rvalue", s.on(i), H::eatf(std::move(s.o(i))); s.val[i] = s.gone(s.val[i]); s.copies(0));
      ONE("through Rust and back", s.on(i), s.o(i) = H::id(std::move(s.o(i))); s.copies(0));
      TWO("pass both, keep second", i != j && s.on(i) && s.on(j), int64_t b = s.val[j]; s.o(i) = H::snd(std::move(s.o(i)), std::move(s.o(j))); s.val[i] = b; s.val[j] = s.gone(b); s.copies(0));
      TWO("pass both, keep first", i != j && s.on(i) && s.on(j), int64_t a = s.val[i]; T t = H::fst(std::move(s.o(i)), std::move(s.o(j))); s.o(j) = std::move(t); s.val[j] = a; s.val[i] = s.gone(a); s.copies(0));
      ONE("vector growth", s.on(i), std::vector<T> v; v.push_back(std::move(s.o(i))); for (int k = 0; k < 3; k++) v.push_back(H::mk(90 + k)); v.erase(v.begin() + 1); T t = std::move(v.front()); v.clear(); s.o(i) = std::move(t));
      ONE("optional", s.on(i), std::optional<T> q(std::move(s.o(i))); { T t = std::move(*q); q.emplace(std::move(t)); } std::optional<T> w = std::move(q); s.o(i) = std::move(*w); q.reset(); if constexpr (H::user) { q = H::mk(3); q = std::nullopt; });
      if constexpr (H::clone) {
        ONE("pass lvalue", s.on(i), H::eatf(std::as_const(s.o(i))); if (s.val[i] != MAYBE) s.copies(1));
        TWO("pass lvalue and rvalue", i != j && s.on(i) && s.on(j), int64_t b = s.val[j]; T t = H::snd(s.o(i), std::move(s.o(j))); s.o(j) = std::move(t); s.val[j] = b);
      }
      if constexpr (H::user) {
        ONE("consume self", s.on(i), std::move(s.o(i)).eatme(); s.val[i] = s.gone(s.val[i]); s.copies(0));
        ONE("self through Rust", s.on(i), s.o(i) = std::move(s.o(i)).idme(); s.copies(0));
        TWO("self and argument", i != j && s.on(i) && s.on(j), int64_t b = s.val[j]; s.o(i) = std::move(s.o(i)).take2(std::move(s.o(j))); s.val[i] = b; s.val[j] = s.gone(b); s.copies(0));
        TWO("mem::replace", i != j && s.on(i) && s.on(j), int64_t a = s.val[i]; { T old = H::repl(s.o(i), std::move(s.o(j))); led_look(); if (a != MAYBE && H::look(old) != a) s.why = "mem::replace returned another value"; } s.val[i] = s.val[j]; s.val[j] = s.gone(s.val[j]); s.copies(0));
      }
    }
    return r;
  }
  void inspect(const char* when) {
    if (!why.empty()) return;
    led_look();
    int64_t known = 0, objects = 0;
    for (int i = 0; i < K; i++) if (on(i)) {
      objects++;
      if (val[i] == MAYBE) continue;
      int64_t g = H::look(o(i));
      if (g != val[i] && !led_err()) { why = std::string(when) + ": object " + std::to_string(i) + " holds " + std::to_string(g) + " instead of " + std::to_string(val[i]); return; }
    }
    (void)known;
    if (int64_t e = led_err()) { why = std::string(when) + ": " + ERRS[e]; return; }
    if (H::n > 0 && led_live() != objects * H::n) { why = std::string(when) + ": " + std::to_string(led_live()) + " live Rust values for " + std::to_string(objects) + " objects"; return; }
  }
  // returns false when some step is not enabled
  bool play(const std::vector<Op>& ops, const std::vector<int>& h) {
    blocks0 = led_reset(); why.clear(); next = 1;
    for (int i = 0; i < K; i++) { val[i] = UNSET; memset(mem[i], 0xCD, sizeof(T)); }
    bool good = true;
    for (int code : h) {
      int k = code / (K * K), i = code / K % K, j = code % K;
      if (!ops[k].ok(*this, i, j)) { good = false; break; }
      c0 = led_clones();
      ops[k].go(*this, i, j);
      inspect(ops[k].name);
      if (!why.empty()) return true;
    }
    for (int i = 0; i < K; i++) if (on(i)) kill(i);
    if (why.empty() && led_err()) why = std::string("destruction: ") + ERRS[led_err()];
    if (why.empty() && led_live() != 0) why = "at the end " + std::to_string(led_live()) + " values are still live";
    if (why.empty() && led_blocks() != blocks0) why = "at the end " + std::to_string(led_blocks() - blocks0) + " heap blocks are left";
    return good;
  }
};
static long g_hist = 0, g_bad = 0, g_states = 0; static std::set<std::string> g_ops;
template <class H> void go(int depth) {
  using R = Run<H>;
  auto ops = R::ops();
  auto r = std::make_unique<R>();
  constexpr int K = R::K;
  long hist = 0, bad = 0; int samples = 0;
  std::set<std::string> used;
  std::vector<std::vector<int>> level{{}};
  for (int d = 0; d < depth; d++) {
    std::vector<std::vector<int>> nextl;
    for (auto& h : level)
      for (int k = 0; k < (int)ops.size(); k++)
        for (int i = 0; i < K; i++)
          for (int j = 0; j < (ops[k].two ? K : 1); j++) {
            auto g = h; g.push_back(k * K * K + i * K + j);
            if (!r->play(ops, g)) continue;
            hist++;
            used.insert(ops[k].name);
            if (!r->why.empty()) {
              if (bad++ < 4 || H::known) {
                std::string t; for (int c : g) { t += (t.empty() ? "" : "; ") + std::string(ops[c / (K * K)].name) + " " + std::to_string(c / K % K); if (ops[c / (K * K)].two) t += "," + std::to_string(c % K); }
                printf("VIOL %s:%s%s%s\t%s: after \"%s\": %s\n", H::name, ops[k].name, H::known ? ": " : "", H::known ? r->why.c_str() : "", H::name, t.c_str(), r->why.c_str()); fflush(stdout);
              }
              continue;
            }
            if (d == depth - 1 && samples < 1 && hist % 97 == 5) { samples++; std::string t; for (int c : g) t += (t.empty() ? "" : "; ") + std::string(ops[c / (K * K)].name); printf("SAMPLE %s: %s\n", H::name, t.c_str()); }
            nextl.push_back(std::move(g));
          }
    level.swap(nextl);
    if (bad > 50) break;
  }
  printf("STAT distinct_nontrivial=%ld\nSTAT evaluations=%ld\nSTAT types=1\n", hist, hist);
  printf("OPS %s %zu %zu\n", H::name, used.size(), ops.size());
}
'''


def check(chk):
    chk.coverage["rule"] = "one case = (type, history of operations over the object slots); all histories up to the depth are executed, each ends with the destruction of what is left"
    e = E2E(chk)
    runs = [("default", []), ("specialized", ["--default-features=supported,layout_compat_tuple,always_specialize_generics_in_cpp_api_from_rust"])]
    depth = 5 if THOROUGH else 4
    pmain = []
    groups = [[] for _ in range(8)]
    skip = [i for i, h in enumerate(SHAPES) if h["name"] == "PairGc"]   # such a tuple cannot be passed by value
    for i, h in enumerate(SHAPES):
        groups[i % 8].append(i)
    for tag, args in runs:
        spec = tag == "specialized"
        src = rust(spec)
        d = os.path.join(chk.dir, tag)
        extra = [CC + f"#define SLOTS 2\n" + "".join(traits(i, SHAPES[i], spec) for i in g if not (spec and i in skip)) + ENGINE +
                 f"void grp{gi}(int only, int d) {{ " + " ".join(f"if (only == {i}) go<T{i}>(d);" for i in g if not (spec and i in skip)) + " }\n" for gi, g in enumerate(groups)]
        m = "#include <cstdio>\n#include <cstdlib>\n" + "".join(f"void grp{gi}(int, int);\n" for gi in range(8)) + \
            "int main(int c, char** v) { int o = atoi(v[1]), d = atoi(v[2]); " + "".join(f"grp{gi}(o, d); " for gi in range(8)) + ' puts("DONE"); }\n'
        exe, err = e.build(d, [("vsup", LEDGER), ("foo", src)], m, extra_cc=extra, gen_args=args, edition="2021",
                           root_src="extern crate vsup; #[global_allocator] static A: vsup::Cnt = vsup::Cnt;\n")
        if err:
            chk.violation(f"{tag}:build:{err[0]}", f"a program using owning types does not build ({err[0]}):\n{err[1]}", {"foo.rs": src})
            continue
        chk.log(f"{tag}: built")

        def one(i):
            return i, run_exe(exe, [str(i), str(depth)], timeout=700)
        for i, r in pmap(one, [i for i in range(len(SHAPES)) if not (spec and i in skip)]):
            judge_harness(chk, f"{tag}/{SHAPES[i]['name']}", r)
            mm = re.search(r"OPS (\S+) (\d+) (\d+)", r.out)
            if mm:
                chk.log(f"{tag} {mm[0]}")
    chk.coverage["depth"] = depth


main(check, "C02", "exploration")
