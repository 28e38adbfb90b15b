#!/usr/bin/env python3
"""C11: every history of operations on two rs_std::Option (or rs_std::Result) objects and a std::optional, for payloads
of every layout class, in both modes of the generator; state and payload compared with a model and with what Rust sees
in the same memory after every operation, and every payload counted."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

RUST = """#![allow(warnings)]
static mut ALIVE: [u8; 4096] = [0; 4096]; static mut NEXT: usize = 1; static mut LIVE: i64 = 0;
fn born() -> u32 { unsafe { let t = NEXT; NEXT += 1; ALIVE[t] = 1; LIVE += 1; t as u32 } }
fn died(t: u32) { unsafe { if t as usize >= 4096 || ALIVE[t as usize] != 1 { LIVE -= 100000; } else { ALIVE[t as usize] = 2; LIVE -= 1; } } }
pub fn live() -> i64 { unsafe { LIVE } }
pub fn reset() { unsafe { NEXT = 1; LIVE = 0; ALIVE = [0; 4096]; } }
macro_rules! own { ($n:ident) => { pub struct $n { t: u32, i: u32 } impl $n { pub fn make(i: u32) -> $n { $n { t: born(), i } } pub fn id(&self) -> u32 { self.i } } impl Drop for $n { fn drop(&mut self) { died(self.t) } } } }
own!(Own); own!(Dft); own!(Cl); own!(Cd);
impl Default for Dft { fn default() -> Dft { Dft::make(0) } }
impl Clone for Cl { fn clone(&self) -> Cl { Cl::make(self.i) } }
impl Default for Cd { fn default() -> Cd { Cd::make(0) } } impl Clone for Cd { fn clone(&self) -> Cd { Cd::make(self.i) } }
// a niche before, inside and after the data, with drops
pub struct Nd { t: u32, b: bool, i: u16 } impl Nd { pub fn make(i: u32) -> Nd { Nd { t: born(), b: i % 2 == 1, i: i as u16 } } pub fn id(&self) -> u32 { if self.b == (self.i % 2 == 1) { self.i as u32 } else { 999 } } } impl Drop for Nd { fn drop(&mut self) { died(self.t) } } impl Default for Nd { fn default() -> Nd { Nd::make(0) } } impl Clone for Nd { fn clone(&self) -> Nd { Nd::make(self.i as u32) } }
#[derive(Clone, Copy)] pub struct Cp { a: u8, b: u32 } impl Cp { pub fn make(i: u32) -> Cp { Cp { a: !(i as u8), b: i } } pub fn id(&self) -> u32 { if self.a == !(self.b as u8) { self.b } else { 999 } } }
#[derive(Clone, Copy)] #[repr(C)] pub struct Cn { a: u32, b: bool, c: u32 } impl Cn { pub fn make(i: u32) -> Cn { Cn { a: i, b: i % 2 == 0, c: !i } } pub fn id(&self) -> u32 { if self.c == !self.a && self.b == (self.a % 2 == 0) { self.a } else { 999 } } }
#[derive(Clone, Copy)] #[repr(C, align(32))] pub struct Al { a: u32 } impl Al { pub fn make(i: u32) -> Al { Al { a: i } } pub fn id(&self) -> u32 { self.a } }
#[derive(Clone, Copy)] #[repr(u8)] pub enum E3 { A, B, C } impl E3 { pub fn make(i: u32) -> E3 { [E3::A, E3::B, E3::C][i as usize % 3] } pub fn id(&self) -> u32 { *self as u32 } }
#[derive(Clone, Copy)] #[repr(i8)] pub enum Ew { A = -1, B = 1, C = 127 } impl Ew { pub fn make(i: u32) -> Ew { [Ew::A, Ew::B, Ew::C][i as usize % 3] } pub fn id(&self) -> u32 { match self { Ew::A => 0, Ew::B => 1, Ew::C => 2 } } }
#[derive(Clone, Copy)] #[repr(i32)] pub enum Ez { A = -2147483648, B = 2147483647, C = 0 } impl Ez { pub fn make(i: u32) -> Ez { [Ez::A, Ez::B, Ez::C][i as usize % 3] } pub fn id(&self) -> u32 { match self { Ez::A => 0, Ez::B => 1, Ez::C => 2 } } }
pub enum Ed { A(u16, u32), B { i: u32, t: u32 } } impl Ed { pub fn make(i: u32) -> Ed { if i % 2 == 0 { Ed::A(i as u16, born()) } else { Ed::B { i, t: born() } } } pub fn id(&self) -> u32 { match self { Ed::A(i, _) => *i as u32, Ed::B { i, .. } => *i } } } impl Drop for Ed { fn drop(&mut self) { died(match self { Ed::A(_, t) => *t, Ed::B { t, .. } => *t }) } } impl Default for Ed { fn default() -> Ed { Ed::make(0) } }
"""

# name: (Rust type, C++ type, Rust make(i), Rust id(x: &T), C++ id(x), normal form of i)
P = {
    "u8_": ("u8", "uint8_t", "i as u8", "*x as u32", "x", "i"),
    "u32_": ("u32", "uint32_t", "i", "*x", "x", "i"),
    "u64_": ("u64", "uint64_t", "(i as u64) << 40 | 0xffffffff", "(*x >> 40) as u32", "uint32_t(x >> 40)", "i"),
    "f64_": ("f64", "double", "i as f64 / 4.0", "(*x * 4.0) as u32", "uint32_t(x * 4.0)", "i"),
    "bool_": ("bool", "bool", "i % 2 == 1", "*x as u32", "uint32_t(x)", "i % 2"),
    "char_": ("char", "rs_std::char_", "char::from_u32(i + 0x10fff0).unwrap()", "*x as u32 - 0x10fff0", "uint32_t(x) - 0x10fff0", "i"),
    "ptr_": ("*const u8", "uint8_t const*", "i as usize as *const u8", "*x as usize as u32", "uint32_t(reinterpret_cast<uintptr_t>(x))", "i"),
    "ref_": ("&'static u32", "uint32_t const* $static crubit_nonnull", "{ static A: [u32; 16] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]; &A[i as usize] }", "**x", "*x", "i"),
    "slice_": ("&'static [u8]", "rs_std::SliceRef<const uint8_t>", "{ static A: [u8; 16] = [0; 16]; &A[..i as usize] }", "x.len() as u32", "uint32_t(x.size())", "i"),
    "text_": ("&'static str", "rs_std::StrRef", "&\"0123456789abcdef\"[..i as usize]", "x.len() as u32", "uint32_t(x.size())", "i"),
    "string_": ("String", "::rs::alloc::string::String", "i.to_string()", "x.parse().unwrap_or(0)", "uint32_t(atol(string(x.as_str().to_string_view()).c_str()))", "i"),
    "vec_": ("Vec<u8>", "rs_std::Vec<uint8_t>", "vec![7; i as usize]", "x.len() as u32", "uint32_t(x.size())", "i"),
    "ord_": ("std::cmp::Ordering", "::rs::core::cmp::Ordering", "[std::cmp::Ordering::Less, std::cmp::Ordering::Equal, std::cmp::Ordering::Greater][i as usize % 3]", "(*x as i8 + 1) as u32", None, "i % 3"),
    "dur_": ("std::time::Duration", "::rs::core::time::Duration", "std::time::Duration::new(i as u64, 999_999_999)", "x.as_secs() as u32", None, "i"),
}
for _n, _norm in (("Own", "i"), ("Dft", "i"), ("Cl", "i"), ("Cd", "i"), ("Nd", "i"), ("Cp", "i"), ("Cn", "i"), ("Al", "i"), ("E3", "i % 3"), ("Ew", "i % 3"), ("Ez", "i % 3"), ("Ed", "i")):
    P[_n] = (f"crate::{_n}", f"h::{_n}", f"crate::{_n}::make(i)", "x.id()", "x.id()", _norm)
ENC = "(x.has_value() ? 1 + {0} : 0)"


def nested(n, inner):
    t, c, mk, idx, cid, norm = P[inner]
    return (f"Option<{t}>", f"rs_std::Option<{c}>", f"if i % 3 == 0 {{ None }} else {{ Some({{ {mk} }}) }}", f"match x {{ None => 0, Some(x) => 1 + ({idx}) }}",
            cid and f"[](const rs_std::Option<{c}>& o) -> uint32_t {{ if (!o.has_value()) return 0; const auto& x = *o; return 1 + uint32_t({cid}); }}(x)", f"(i % 3 == 0 ? 0 : 1 + ({norm}))")


P["Ob"] = nested("Ob", "bool_")
P["Oc"] = nested("Oc", "char_")
P["Oe"] = nested("Oe", "E3")
P["Od"] = nested("Od", "Dft")
P["Oown"] = nested("Oown", "Own")
P["On"] = nested("On", "Nd")
P["Os"] = nested("Os", "string_")
P["Or"] = nested("Or", "ref_")
P["Ou"] = nested("Ou", "u32_")
P["OOb"] = nested("OOb", "Ob")
P["OOn"] = nested("OOn", "On")
P["unit_"] = ("()", "rs_std::unit_t", "()", "0", "0", "0")
P["fn_"] = ("extern \"C\" fn(u32) -> u32", None, "", "", "", "")


def res(t, e):
    (rt, ct, mt, it, cit, nt), (re_, ce, me, ie, cie, ne) = P[t], P[e]
    return (f"Result<{rt}, {re_}>", f"rs_std::Result<{ct}, {ce}>", f"if i % 2 == 0 {{ Err({{ {me} }}) }} else {{ Ok({{ {mt} }}) }}", f"match x {{ Ok(x) => 2 * ({it}) as u32, Err(x) => 2 * ({ie}) as u32 + 1 }}",
            f"[](const rs_std::Result<{ct}, {ce}>& r) -> uint32_t {{ if (r.has_value()) {{ const auto& x = *r; return 2 * uint32_t({cit}); }} const auto& x = r.error(); return 2 * uint32_t({cie}) + 1; }}(x)", f"(i % 2 == 0 ? 2 * uint32_t({ne}) + 1 : 2 * uint32_t({nt}))")


P["Rud"] = res("u8_", "Dft")
P["Rcc"] = res("Cp", "Cn")

OPTS = [n for n in P if n not in ("unit_", "fn_")]
RES = [("u8_", "u8_"), ("u8_", "u64_"), ("u64_", "u8_"), ("Dft", "Dft"), ("Dft", "u8_"), ("u8_", "Dft"), ("Cl", "u32_"), ("u32_", "Cl"), ("Cd", "Cl"), ("Cl", "Cd"), ("Own", "Dft"), ("Dft", "Own"), ("Nd", "u8_"), ("u8_", "Nd"), ("Nd", "Nd"), ("Cn", "u32_"), ("u32_", "Cn"), ("Cn", "Cp"), ("Cp", "Cp"), ("bool_", "bool_"), ("E3", "E3"), ("E3", "Ew"), ("Ez", "bool_"),
       ("char_", "bool_"), ("string_", "u32_"), ("u32_", "string_"), ("string_", "string_"), ("Al", "u8_"), ("u8_", "Al"), ("ref_", "u8_"), ("Ed", "u8_"), ("Ob", "u8_"), ("u8_", "Ob"), ("Od", "Dft"), ("dur_", "u8_"),
       ("unit_", "Dft"), ("Dft", "unit_"), ("unit_", "E3"), ("E3", "unit_"), ("bool_", "unit_"), ("unit_", "unit_"), ("ref_", "unit_"), ("char_", "unit_"), ("string_", "unit_"), ("unit_", "u8_"), ("Cn", "unit_"), ("unit_", "Cn"), ("Nd", "unit_")]
NOEAT = {"Own", "Rud", "Oown"}  # not movable: no arguments by value
UNBRIDGED = {"Own", "Oown", "Rud"}  # no bindings with std::optional
NESTED = {"Ob", "Oc", "Oe", "Od", "On", "Os", "Or", "Ou", "OOb", "OOn"}  # by value these are std::optional<std::optional>


def opt_mod(n, t, mk, idx):
    eat = "" if n in NOEAT else "pub fn eat(o: Option<T>) -> i64 { look(&o) }\n"
    return f"""pub mod p{n} {{ type T = {t}; fn mk(i: u32) -> T {{ {mk} }} fn id(x: &T) -> u32 {{ {idx} }}
pub fn make(i: u32) -> T {{ mk(i) }} pub fn id_of(x: &T) -> u32 {{ id(x) }} pub fn fill(x: &mut T, i: u32) {{ *x = mk(i); }}
pub fn look(o: &Option<T>) -> i64 {{ match std::hint::black_box(o) {{ None => -1, Some(x) => id(x) as i64 }} }}
pub fn set(o: &mut Option<T>, i: u32) {{ *o = Some(mk(i)); }} pub fn none(o: &mut Option<T>) {{ *o = None; }}
pub fn take(o: &mut Option<T>) -> i64 {{ look(&o.take()) }} pub fn swap(a: &mut Option<T>, b: &mut Option<T>) {{ std::mem::swap(a, b); }}
pub fn insert(o: &mut Option<T>, i: u32) -> i64 {{ id(o.get_or_insert_with(|| mk(i))) as i64 }}
{eat}pub fn ret(i: i32) -> Option<T> {{ if i < 0 {{ None }} else {{ Some(mk(i as u32)) }} }}
}}
"""


def res_mod(n, a, b):
    (t, _c, mt, it, _x, _n), (e, _ce, me, ie, _xe, _ne) = P[a], P[b]
    eat = "" if ({a, b} & {"Own"}) else ""
    return f"""pub mod r{n} {{ type T = {t}; type E = {e}; fn mk(i: u32) -> T {{ {mt} }} fn mke(i: u32) -> E {{ {me} }} fn id(x: &T) -> u32 {{ {it} }} fn ide(x: &E) -> u32 {{ {ie} }}
pub fn look(r: &Result<T, E>) -> i64 {{ match std::hint::black_box(r) {{ Ok(x) => 2 * id(x) as i64, Err(x) => 2 * ide(x) as i64 + 1 }} }}
pub fn set(r: &mut Result<T, E>, i: u32) {{ *r = Ok(mk(i)); }} pub fn sete(r: &mut Result<T, E>, i: u32) {{ *r = Err(mke(i)); }}
pub fn swap(a: &mut Result<T, E>, b: &mut Result<T, E>) {{ std::mem::swap(a, b); }}
pub fn ret(i: u32, err: bool) -> Result<T, E> {{ if err {{ Err(mke(i)) }} else {{ Ok(mk(i)) }} }}
{'pub fn eat(r: Result<T, E>) -> i64 { look(&r) }' if {a, b} <= COPY else ''}
}}
"""


COPY = {"u8_", "u32_", "u64_", "f64_", "bool_", "char_", "ptr_", "ref_", "Cp", "Cn", "Al", "E3", "Ew", "Ez", "Ob", "dur_", "ord_", "Oe", "Oc", "Ou"}


def check(chk):
    chk.coverage["rule"] = "one case = one complete history of operations on two objects and a std::optional; histories that end early at an operation that does not apply are evaluations only"
    e = E2E(chk)
    inc = ["-I" + os.path.join(VERIF, "harness/cpp")]
    src = RUST + "".join(opt_mod(n, P[n][0], P[n][2], P[n][3]) for n in OPTS) + "pub mod punit_ { pub fn make(i: u32) {} }\n"
    need = {x for p in RES for x in p}
    src += "".join(res_mod(f"{a}{b}", a, b) for a, b in RES)
    dp, dr = (3, 3) if not THOROUGH else (4, 4)
    def adapters(spec):
      ads = {}
      for n in OPTS if spec else [n for n in OPTS if n not in UNBRIDGED]:
          _t, c, _mk, _i, cid, norm = P[n]
          rt = spec or n not in NESTED
          cid = cid or f"h::p{n}::id_of(x)"
          eat = n not in (NOEAT if spec else NESTED)
          ads["p" + n] = f"""struct A_p{n} {{ using T = {c}; using O = rs_std::Option<T>; static constexpr bool kEat = {'true' if eat else 'false'}; static const char* name() {{ return "Option<{P[n][0].replace(chr(34), '')}>"; }}
  static T make(uint32_t i) {{ {'T t; h::p' + n + '::fill(t, i); return t;' if n[:2] == 'OO' and not spec else ('return &' if n == 'ref_' else 'return ') + 'h::p' + n + '::make(i);'} }} static uint32_t id(const T& x) {{ return {cid}; }} static uint32_t norm(uint32_t i) {{ return {norm}; }}
  static long look(const O& o) {{ return h::p{n}::look(o); }} static void set(O& o, uint32_t i) {{ h::p{n}::set(o, i); }} static void none(O& o) {{ h::p{n}::none(o); }} static long take(O& o) {{ return h::p{n}::take(o); }} static void swap(O& a, O& b) {{ h::p{n}::swap(a, b); }} static long insert(O& o, uint32_t i) {{ return h::p{n}::insert(o, i); }}
  static long eat(O&& o) {{ {'return h::p' + n + '::eat(std::move(o));' if eat else 'return -2;'} }} static O ret(int i) {{ {'return h::p' + n + '::ret(i);' if rt else 'O o; if (i >= 0) set(o, i); return o;'} }} static long live() {{ return h::live(); }} static void reset() {{ h::reset(); }} }};
"""
      for a, b in RES:
          n = a + b
          (t, c, _m, _i, cid, norm), (te, ce, _me, _ie, cide, norme) = P[a], P[b]
          mk = lambda y: "{ (void)i; return {}; }" if y == "unit_" else "{ return %sh::p%s::make(i); }" % ("&" if y == "ref_" else "", y)
          eat = {a, b} <= COPY
          ads["r" + n] = f"""struct A_r{n} {{ using T = {c}; using E = {ce}; using R = rs_std::Result<T, E>; static constexpr bool kEat = {'true' if eat else 'false'}; static const char* name() {{ return "Result<{t}, {te}>"; }}
  static T make(uint32_t i) {mk(a)} static uint32_t id(const T& x) {{ return {cid or f'h::p{a}::id_of(x)'}; }} static uint32_t norm(uint32_t i) {{ return {norm}; }} static E makeE(uint32_t i) {mk(b)} static uint32_t idE(const E& x) {{ return {cide or f'h::p{b}::id_of(x)'}; }} static uint32_t normE(uint32_t i) {{ return {norme}; }}
  static long look(const R& o) {{ return h::r{n}::look(o); }} static void set(R& o, uint32_t i) {{ h::r{n}::set(o, i); }} static void sete(R& o, uint32_t i) {{ h::r{n}::sete(o, i); }} static void swap(R& a, R& b) {{ h::r{n}::swap(a, b); }} static void init(void* p, uint32_t i, bool err) {{ ::new (p) R(h::r{n}::ret(i, err)); }}
  static long eat(R&& o) {{ {'return h::r' + n + '::eat(std::move(o));' if eat else 'return -2;'} }} static R ret(uint32_t i, bool err) {{ return h::r{n}::ret(i, err); }} static long live() {{ return h::live(); }} static void reset() {{ h::reset(); }} }};
"""
      return ads

    K = 8

    def mode(m):
        name, args = m
        ads = adapters(name == "specialized")
        names = list(ads)
        groups = [names[i::K] for i in range(K)]
        tus = ['#include "h.h"\n#include "c11.h"\n' + "".join(ads[n] for n in g) + f"void part{i}() {{\n" + "".join(f"  {'options' if n[0] == 'p' else 'results'}<A_{n}>({dp if n[0] == 'p' else dr});\n" for n in g) + ("  bool_conversions<rs_std::Option<bool>, rs_std::Option<rs_std::Option<bool>>>();\n" if i == 0 else "") + "}\n" for i, g in enumerate(groups)]
        main_cc = "#include \"vmc.h\"\n" + "".join(f"void part{i}();\n" for i in range(K)) + "int main(int, char** v) { if (!freopen(\"/dev/null\", \"w\", stderr)) return 9; void (*p[])() = {" + ", ".join(f"part{i}" for i in range(K)) + "}; p[atoi(v[1])](); return vmc::done(); }\n"
        exe, err = e.build(os.path.join(chk.dir, name), [("h", src)], main_cc, gen_args=args, cc_flags=inc + ["-O1"], extra_cc=tus, pch=False)
        return name, exe, err

    MODES = [("default", ()), ("specialized", ("--default-features=supported,layout_compat_tuple,always_specialize_generics_in_cpp_api_from_rust",))]
    jobs = []
    for name, exe, err in (mode(m) for m in MODES):
        if not exe:
            chk.violation("build " + name, f"a program that uses Option and Result as documented does not compile ({name} mode, {err[0]}):\n" + "\n".join(l for l in err[1].splitlines() if "error" in l)[:2500] + "\n" + err[1][-1500:])
            continue
        chk.log("built", name)
        jobs += [(name, exe, i) for i in range(K)]
    for (name, _x, i), r in zip(jobs, pmap(lambda j: run_exe(j[1], [str(j[2])], timeout=3000 if THOROUGH else 400), jobs)):
        judge_harness(chk, f"c11 {name} part {i}", r)


main(check, "C11", "exploration")
