#!/usr/bin/env python3
"""C21: slices from every source, of every length of the bounds, for every element type, compared with arrays and with
what Rust sees; conversions decided by the compiler; histories of iterator operations on every kind of Rust iterator."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

# name: (Rust type, C++ type, Rust make, Rust id, C++ make, C++ id)
EL = {
    "u8_": ("u8", "uint8_t", "i as u8", "*x as u32", "uint8_t(i)", "x"),
    "i16_": ("i16", "int16_t", "-(i as i16)", "-*x as u32", "int16_t(-int(i))", "uint32_t(-x)"),
    "i32_": ("i32", "int32_t", "i as i32 * 1000003", "(*x / 1000003) as u32", "int32_t(i) * 1000003", "uint32_t(x / 1000003)"),
    "u64_": ("u64", "uint64_t", "(i as u64) << 33 | 5", "(*x >> 33) as u32", "uint64_t(i) << 33 | 5", "uint32_t(x >> 33)"),
    "f64_": ("f64", "double", "i as f64 / 4.0", "(*x * 4.0) as u32", "i / 4.0", "uint32_t(x * 4.0)"),
    "char_": ("char", "rs_std::char_", "char::from_u32(i + 0x1f600).unwrap()", "*x as u32 - 0x1f600", "*rs_std::char_::from_u32(i + 0x1f600)", "uint32_t(x) - 0x1f600"),
    "ptr_": ("*const u8", "uint8_t const*", "(i as usize * 8) as *const u8", "(*x as usize / 8) as u32", "reinterpret_cast<uint8_t const*>(uintptr_t(i) * 8)", "uint32_t(reinterpret_cast<uintptr_t>(x) / 8)"),
    "s_": ("crate::S", "h::S", "crate::S { a: i as u8, b: !i, c: 3 }", "if x.a == x.b as u8 ^ 255 && x.c == 3 { !x.b } else { 9999 }", "h::S::make(i)", "x.id()"),
    "al_": ("crate::Al", "h::Al", "crate::Al { a: i }", "x.a", "h::Al::make(i)", "x.id()"),
    "own_": ("crate::Own", "h::Own", "crate::Own::make(i)", "x.id()", "h::Own::make(i)", "x.id()"),
    "arr_": ("[u16; 3]", "std::array<uint16_t, 3>", "[i as u16, !(i as u16), 7]", "if x[1] == !x[0] && x[2] == 7 { x[0] as u32 } else { 9999 }", "std::array<uint16_t, 3>{uint16_t(i), uint16_t(~i), 7}", "(uint16_t(~x[0]) == x[1] && x[2] == 7 ? x[0] : 9999u)"),
}

RUST = """#![allow(warnings)]
#[derive(Clone, Copy, PartialEq)] #[repr(C)] pub struct S { pub a: u8, pub b: u32, pub c: u16 } impl S { pub fn make(i: u32) -> S { S { a: i as u8, b: !i, c: 3 } } pub fn id(&self) -> u32 { if self.a == self.b as u8 ^ 255 && self.c == 3 { !self.b } else { 9999 } } }
#[derive(Clone, Copy, PartialEq)] #[repr(C, align(32))] pub struct Al { pub a: u32 } impl Al { pub fn make(i: u32) -> Al { Al { a: i } } pub fn id(&self) -> u32 { self.a } }
#[derive(Clone, Default, PartialEq)] pub struct Own { b: String } impl Own { pub fn make(i: u32) -> Own { Own { b: format!("{i}") } } pub fn id(&self) -> u32 { self.b.parse().unwrap_or(0) } }
"""


def rust():
    s = RUST
    for n, (t, _c, mk, idx, _m, _i) in EL.items():
        s += f"""pub mod {n}x {{ type T = {t}; fn make(i: u32) -> T {{ {mk} }} fn id(x: &T) -> u32 {{ {idx} }}
pub fn hash(s: &[T]) -> u64 {{ let p = std::hint::black_box(s.as_ptr() as usize); if p == 0 || p % std::mem::align_of::<T>() != 0 {{ return !0 }} let mut h = s.len() as u64; for x in s {{ h = h.wrapping_mul(31).wrapping_add(id(x) as u64); }} h }}
pub fn sub<'a>(s: &'a [T], i: usize, j: usize) -> &'a [T] {{ &s[i..j] }}
pub fn sub_mut<'a>(s: &'a mut [T], i: usize, j: usize) -> &'a mut [T] {{ &mut s[i..j] }}
pub fn put(s: &mut [T], i: usize, v: u32) {{ s[i] = make(v); }}
pub fn fixed(n: usize) -> &'static [T] {{ static mut A: [Option<&'static [T]>; 16] = [None; 16]; unsafe {{ if A[n].is_none() {{ A[n] = Some(Box::leak((1..=n as u32).map(make).collect::<Vec<T>>().into_boxed_slice())); }} A[n].unwrap() }} }}
}}
"""
    return s


# (C++ type expression, kind, element): what a SliceRef may be made of
SRC = [("std::span<int>", "view", "int"), ("std::span<const int>", "view", "const int"), ("std::span<int, 3>", "view", "int"), ("std::span<const int, 3>", "view", "const int"), ("std::span<int>&", "view", "int"), ("const std::span<int>&", "view", "int"),
       ("std::ranges::subrange<int*>", "view", "int"), ("std::ranges::subrange<const int*>", "view", "const int"), ("std::ranges::ref_view<std::vector<int>>", "view", "int"), ("std::ranges::ref_view<const std::vector<int>>", "view", "const int"), ("std::ranges::empty_view<int>", "view", "int"), ("std::ranges::single_view<int>&", "view?", "int"),
       ("std::vector<int>&", "cont", "int"), ("const std::vector<int>&", "cont", "const int"), ("std::vector<int>", "rcont", "int"), ("std::array<int, 3>&", "cont", "int"), ("const std::array<int, 3>&", "cont", "const int"), ("std::array<int, 3>", "rcont", "int"), ("int (&)[3]", "cont", "int"), ("const int (&)[3]", "cont", "const int"),
       ("std::vector<long>&", "cont", "long"), ("std::vector<unsigned>&", "cont", "unsigned"), ("std::list<int>&", "no", ""), ("int", "no", ""), ("int*", "no", ""), ("std::vector<bool>&", "no", ""), ("std::span<unsigned char>", "view", "unsigned char"), ("std::span<const std::byte>", "view", "const std::byte"), ("std::vector<unsigned char>&", "cont", "unsigned char"), ("const std::vector<unsigned char>&", "cont", "const unsigned char"),
       ("std::string&", "str", "char"), ("const std::string&", "str", "const char"), ("std::string", "rstr", "char"), ("std::string_view", "sv", "const char"), ("const char*", "cstr", ""), ("const char (&)[4]", "lit", "const char"), ("char (&)[4]", "lit", "char")]
DST = ["int", "const int", "unsigned char", "const unsigned char", "char", "const char", "const std::byte", "std::byte", "const signed char"]


def conversions():
    out = []
    for s, kind, el in SRC:
        if kind == "view?": continue
        for t in DST:
            const = t.startswith("const ")
            base = t.replace("const ", "")
            elb, elc = el.replace("const ", ""), el.startswith("const ")
            match = el and elb == base and (const or not elc)
            imp = exp = False
            if kind in ("view", "sv"):
                imp = exp = bool(match)
            elif kind in ("cont", "lit"):
                exp, imp = bool(match), bool(match and const)
            elif kind == "rcont":
                imp = exp = bool(match and const)
            elif kind == "str":
                exp, imp = bool(match), bool(match and const)
            elif kind == "rstr":
                imp = exp = bool(match and const)
            # text becomes bytes
            if kind in ("str", "rstr", "sv", "cstr", "lit") and const and base in ("unsigned char", "std::byte", "signed char"):
                imp = exp = True
            b = lambda x: "true" if x else "false"
            d = f"SliceRef<{t}>"
            out.append(f'  conv({{"{s}", "{d}", std::is_convertible_v<{s}, {d}>, std::is_constructible_v<{d}, {s}>, {b(imp)}, {b(exp)}}});')
    for a in DST:
        for t in DST:
            w = a == t or ("const " + a == t)
            out.append(f'  conv({{"SliceRef<{a}>", "SliceRef<{t}>", std::is_convertible_v<SliceRef<{a}>, SliceRef<{t}>>, std::is_constructible_v<SliceRef<{t}>, SliceRef<{a}>>, {"true" if w else "false"}, {"true" if w else "false"}}});')
    return "static void conversions() {\n" + "\n".join(out) + "\n}\n"


# ---- iterators: (Rust definition of I { new(n) } with Item, C++ item id)
ITEMS = {
    "int": ("i32", "self.i", "long({x})", ""),
    "string": ("String", "format!(\"{}\", self.i)", "atol(string({x}.as_str().to_string_view()).c_str())", ""),
    "own": ("crate::Own", "crate::Own::make(self.i as u32)", "long({x}.id())", ""),
    "copy": ("crate::S", "crate::S::make(self.i as u32)", "long({x}.id())", ""),
    "ref": ("&'static i32", "{ static A: [i32; 8] = [0, 1, 2, 3, 4, 5, 6, 7]; &A[self.i as usize] }", "long(*{x})", ""),
    "unit_option": ("Option<i32>", "if self.i % 2 == 0 { None } else { Some(self.i) }", "({x}.has_value() ? long(*{x}) : -2L)", ""),
    "boolean": ("bool", "self.i % 2 == 1", "long({x} ? 1 : 0)", ""),
    "chr": ("char", "char::from_u32(self.i as u32 + 0x1f600).unwrap()", "long(uint32_t({x})) - 0x1f600", ""),
    "slice": ("&'static [u8]", "{ static A: [u8; 8] = [0; 8]; &A[..self.i as usize] }", "long({x}.size())", ""),
    "text": ("&'static str", "&\"12345678\"[..self.i as usize]", "long({x}.size())", ""),
}
KINDS = {"pod": ("", "", ""), "clone": ("#[derive(Clone)]", "", ""), "cp": ("#[derive(Clone, Copy)]", "", ""), "dropd": ("#[derive(Default)]", "drop", ""), "dropc": ("", "drop clone", ""), "dropn": ("", "drop", ""), "dropdc": ("#[derive(Default)]", "drop clone", "")}


def iterators():
    rs, cc, body = "", "", ""
    n = 0
    for it, (ty, mk, ident, _x) in ITEMS.items():
        for k, (der, fl, _y) in KINDS.items():
            if it not in ("int", "string") and k not in ("clone", "dropd"): continue
            I = f"I{n}"; n += 1
            rs += f"{der} pub struct {I} {{ i: i32, n: i32{', t: u64' if 'drop' in fl else ''} }}\nimpl {I} {{ pub fn new(n: i32) -> {I} {{ {I} {{ i: 0, n{', t: born()' if 'drop' in fl else ''} }} }} pub fn pos(&self) -> i32 {{ self.i }} }}\n"
            rs += f"impl Iterator for {I} {{ type Item = {ty}; fn next(&mut self) -> Option<{ty}> {{ if self.i < self.n {{ self.i += 1; Some({mk}) }} else {{ self.i = 100; None }} }} }}\n"
            if "drop" in fl: rs += f"impl Drop for {I} {{ fn drop(&mut self) {{ died(self.t) }} }}\n"
            if "clone" in fl: rs += f"impl Clone for {I} {{ fn clone(&self) -> {I} {{ {I} {{ i: self.i, n: self.n, t: born() }} }} }}\n"
            want = {"unit_option": "i % 2 == 0 ? -2 : i", "boolean": "i % 2"}.get(it, "i")
            cc += f"struct A{n} {{ using I = h::{I}; static const char* name() {{ return \"{it} from a {k} iterator\"; }} static long id(const auto& v) {{ return {ident.format(x='v')}; }} static long want(int i) {{ return {want}; }} }};\n"
            body += f"  iterate<A{n}>(depth);\n"
    return rs, cc, body


LEDGER = """
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
static LIVE: AtomicI64 = AtomicI64::new(0); static NEXT: AtomicI64 = AtomicI64::new(1); static TWICE: AtomicI64 = AtomicI64::new(0);
static TOK: std::sync::Mutex<std::collections::BTreeSet<u64>> = std::sync::Mutex::new(std::collections::BTreeSet::new());
fn born() -> u64 { let t = NEXT.fetch_add(1, SeqCst) as u64; TOK.lock().unwrap().insert(t); LIVE.fetch_add(1, SeqCst); t }
fn died(t: u64) { if t == 0 { return } if TOK.lock().unwrap().remove(&t) { LIVE.fetch_sub(1, SeqCst); } else { TWICE.fetch_add(1, SeqCst); } }
pub fn live() -> i64 { LIVE.load(SeqCst) + 1000 * TWICE.load(SeqCst) }
"""

ITER_CC = """
// Histories of operations on adapters of one Rust iterator type, by value (owning the iterator) and by pointer.
template <typename A> static void iterate(int depth) {
  using I = typename A::I;
  auto viol = [&](const string& key, const string& text) { vmc::viol(string(A::name()) + ": " + key, string(A::name()) + ": " + text); };
  using AP = rs::IteratorAdapter<I*>;
  static_assert(std::input_iterator<AP>);
  for (int n = 0; n <= 3; n++) {
    long base = h::live();
    // range-for, algorithms
    { ev(); I it = I::new_(n); int c = 0; for (auto&& v : it) { c++; if (A::id(v) != A::want(c)) viol("range-for " + N(n), "element " + N(c) + " of " + N(n) + " is " + N(A::id(v))); } if (c != n) viol("range-for count " + N(n), "range-for visits " + N(c) + " of " + N(n) + " elements"); }
    { ev(); I it = I::new_(n); int c = 0; for (auto b = it.begin(); b != it.end(); b++) { c++; if (A::id(*b) != A::want(c) || it.pos() != c) viol("loop " + N(n), "element " + N(c) + " of " + N(n) + " is " + N(A::id(*b)) + " with the iterator at " + N(it.pos())); } if (c != n) viol("loop count " + N(n), "a loop visits " + N(c) + " of " + N(n) + " elements"); }
    // histories: 0 ++, 1 ++ (post), 2 read, 3 move-construct, 4 move-assign, 5 copy and continue with the copy, 6 copy and drop it, 7 take the element out
    auto hist = [&](auto make, bool copies, const char* form) {
      vmc::explore([&](Ex& x) {
        string h = string(form) + " of " + N(n);
        {
        auto a = make();
        using AD = typename decltype(a)::value_type;
        int at = 1;
        bool taken = false;
        auto chk = [&](const char* w) {
          bool end = at > n;
          if ((*a == rs::IteratorEnd()) != end || (rs::IteratorEnd() == *a) != end || (*a != rs::IteratorEnd()) == end) { viol(string(form) + " end", h + ": the adapter " + (end ? "is not at the end" : "is at the end") + " after " + w); return false; }
          if (!end && !taken && (A::id(**a) != A::want(at) || A::id(**a) != A::want(at))) { viol(string(form) + " element", h + ": the element is " + N(A::id(**a)) + ", expected " + N(A::want(at))); return false; }
          return true;
        };
        if (!chk("construction")) return;
        for (int t = 0; t < depth; t++) {
          int op = x.pick(8);
          if (op == 0) { if (at > n) return; ++*a; at++; taken = false; h += " ++it"; }
          else if (op == 1) { if (at > n) return; (*a)++; at++; taken = false; h += " it++"; }
          else if (op == 2) { if (at > n || taken) return; if (A::id(**a) != A::want(at)) viol(string(form) + " read", h + ": reads " + N(A::id(**a))); h += " *it"; }
          else if (op == 3) { if constexpr (std::is_move_constructible_v<AD>) { std::optional<AD> b(std::in_place, std::move(*a)); a.reset(); a.emplace(std::move(*b)); } else return; h += " move"; }
          else if (op == 4) { if constexpr (std::is_move_assignable_v<AD> && std::is_move_constructible_v<AD>) { auto b = make(); *b = std::move(*a); if (string(form) == "pointer") { a.reset(); } a.reset(); a.emplace(std::move(*b)); if (string(form) == "pointer") return; } else return; h += " move-assign"; }
          else if (op == 5 || op == 6) {
            if (!copies || taken) return;
            if constexpr (std::is_copy_constructible_v<AD>) {
              AD b(*a);
              if (op == 6) { int k = at; while (!(b == rs::IteratorEnd())) { if (A::id(*b) != A::want(k)) { viol(string(form) + " copy", h + ": a copy reads " + N(A::id(*b)) + ", expected " + N(A::want(k))); break; } ++b; k++; } if (k != n + 1) viol(string(form) + " copy count", h + ": a copy ends after " + N(k - 1)); }
              else { a.reset(); a.emplace(b); }
            } else return;
            h += op == 5 ? " copy" : " run a copy";
          } else { if (at > n || taken) return; auto v(iter_move(*a)); if (A::id(v) != A::want(at)) viol(string(form) + " iter_move", h + ": iter_move gives " + N(A::id(v))); taken = true; h += " iter_move"; }
          if (!chk("that")) return;
        }
        ev();
        }
        if (h::live() != base) { viol(string(form) + " live", h + ": " + N(h::live() - base) + " iterators left over or dropped twice"); base = h::live(); }
      });
    };
    { I* it = nullptr; std::optional<I> hold; (void)it;
      hist([&] { static union U { I i; U() {} ~U() {} } u; static bool on = false; if (on) u.i.~I(); new (&u.i) I(I::new_(n)); on = true; base = h::live() ; return std::optional<AP>(std::in_place, &u.i); }, false, "pointer"); }
    if constexpr (std::is_move_constructible_v<I>) {
      base = h::live();
      using AV = rs::IteratorAdapter<I>;
      static_assert(std::input_iterator<AV>);
      static_assert(std::is_same_v<decltype(rs::IteratorAdapter(std::declval<I>())), AV>);
      hist([&] { return std::optional<AV>(std::in_place, I::new_(n)); }, std::is_copy_constructible_v<I>, "value");
      if (std::is_copy_constructible_v<AV> != (std::is_copy_constructible_v<I> && std::is_copy_constructible_v<typename AV::value_type>)) viol("copyable", "the adapter's copyability differs from the iterator's");
    }
  }
}
"""


def bags():
    """IntoIterator for T, &T, &mut T in every combination, with several item types"""
    rs, cc = "", "static void bag_checks() {\n"
    n = 0
    for mask in range(1, 8):
        for item in ("i32", "Own", "S"):
            for cl in ("", "clone"):
                B = f"B{n}"; n += 1
                mk = {"i32": "i", "Own": "crate::Own::make(i as u32)", "S": "crate::S::make(i as u32)"}[item]
                idv = (lambda x: {"i32": f"long({x})"}.get(item, f"long({x}.id())"))
                t = {"i32": "i32", "Own": "crate::Own", "S": "crate::S"}[item]
                rs += f"#[derive(Default)] pub struct {B} {{ v: Vec<{t}> }} impl {B} {{ pub fn new(n: i32) -> {B} {{ {B} {{ v: (1..=n).map(|i| {mk}).collect() }} }} pub fn at(&self, i: usize) -> u32 {{ " + {"i32": "self.v[i] as u32"}.get(item, "self.v[i].id()") + " } }\n"
                c = "#[derive(Clone)] " if cl else ""
                if mask & 1:
                    rs += f"{c}#[derive(Default)] pub struct {B}V {{ i: usize, v: Vec<{t}> }} impl Iterator for {B}V {{ type Item = {t}; fn next(&mut self) -> Option<{t}> {{ self.i += 1; self.v.get(self.i - 1).cloned() }} }} impl IntoIterator for {B} {{ type Item = {t}; type IntoIter = {B}V; fn into_iter(self) -> {B}V {{ {B}V {{ i: 0, v: self.v }} }} }}\n"
                if mask & 2:
                    rs += f"{c}pub struct {B}R<'a> {{ i: usize, v: &'a [{t}] }} impl<'a> Iterator for {B}R<'a> {{ type Item = &'a {t}; fn next(&mut self) -> Option<&'a {t}> {{ self.i += 1; self.v.get(self.i - 1) }} }} impl<'a> IntoIterator for &'a {B} {{ type Item = &'a {t}; type IntoIter = {B}R<'a>; fn into_iter(self) -> {B}R<'a> {{ {B}R {{ i: 0, v: &self.v }} }} }}\n"
                if mask & 4:
                    rs += f"pub struct {B}M<'a> {{ v: &'a mut [{t}] }} impl<'a> Iterator for {B}M<'a> {{ type Item = &'a mut {t}; fn next(&mut self) -> Option<&'a mut {t}> {{ let s = std::mem::take(&mut self.v); let (a, b) = s.split_first_mut()?; self.v = b; Some(a) }} }} impl<'a> IntoIterator for &'a mut {B} {{ type Item = &'a mut {t}; type IntoIter = {B}M<'a>; fn into_iter(self) -> {B}M<'a> {{ {B}M {{ v: &mut self.v }} }} }}\n"
                what = f"IntoIterator for {', '.join(x for k, x in ((1, 'T'), (2, '&T'), (4, '&mut T')) if mask & k)} of {item}{' (Clone)' if cl else ''}"
                cc += f"  for (int n = 0; n <= 4; n++) {{ h::{B} b = h::{B}::new_(n); const h::{B}& cb = b; (void)cb;\n"
                if mask & 2:
                    cc += f"    {{ ev(); int k = 0; for (auto&& p : cb) {{ k++; if ({idv('(*p)')} != k) vmc::viol(\"{what}\", \"{what}: element \" + N(k) + \" of \" + N(n) + \" is \" + N({idv('(*p)')})); }} if (k != n) vmc::viol(\"{what} count\", \"{what}: a const loop visits \" + N(k) + \" of \" + N(n)); }}\n"
                if mask & 6:
                    cc += f"    {{ ev(); int k = 0; for (auto p : b) {{ k++; if ({idv('(*p)')} != k) vmc::viol(\"{what} m\", \"{what}: element \" + N(k) + \" of \" + N(n) + \" is \" + N({idv('(*p)')})); {f'*p = {dict(i32='k+50', Own='h::Own::make(k+50)', S='h::S::make(k+50)')[item]};' if mask & 4 else ''} }} if (k != n) vmc::viol(\"{what} m count\", \"{what}: a loop visits \" + N(k) + \" of \" + N(n));"
                    cc += (f" for (int i = 0; i < n; i++) if (int(b.at(i)) != i + 51) vmc::viol(\"{what} write\", \"{what}: a write through the iterator is lost\");" if mask & 4 else "") + " }\n"
                if mask & 1:
                    off = "+ 50" if mask & 4 else ""
                    cc += f"    {{ ev(); int k = 0; auto it = std::move(b).into_iter(); for (auto&& v : it) {{ k++; if ({idv('v')} != k {off}) vmc::viol(\"{what} v\", \"{what}: element \" + N(k) + \" of \" + N(n) + \" is \" + N({idv('v')})); }} if (k != n) vmc::viol(\"{what} v count\", \"{what}: an owning loop visits \" + N(k) + \" of \" + N(n)); }}\n"
                cc += "  }\n"
    return rs, cc + "}\n"


def check(chk):
    chk.coverage["rule"] = "one case = one slice as seen from both sides, one comparison, one conversion, or one complete history of slice or iterator operations"
    e = E2E(chk)
    d = os.path.join(chk.dir, "e")
    irs, icc, ibody = iterators()
    brs, bcc = bags()
    src = rust() + LEDGER + irs + brs
    inc = ["-I" + os.path.join(VERIF, "harness/cpp")]
    ad = ""
    for n, (_t, c, _mk, _id, m, i) in EL.items():
        ad += f"""struct E_{n} {{ using T = {c}; static const char* name() {{ return "{c}"; }} static T make(uint32_t i) {{ return {m}; }} static uint32_t id(const T& x) {{ return {i}; }}
  static uint64_t hash(SliceRef<const T> s) {{ return h::{n}x::hash(s); }} static SliceRef<const T> sub(SliceRef<const T> s, size_t i, size_t j) {{ return h::{n}x::sub(s, i, j); }} static SliceRef<T> sub_mut(SliceRef<T> s, size_t i, size_t j) {{ return h::{n}x::sub_mut(s, i, j); }} static void put(SliceRef<T> s, size_t i, uint32_t v) {{ h::{n}x::put(s, i, v); }} static SliceRef<const T> fixed(size_t n) {{ return h::{n}x::fixed(n); }} }};
"""
    head = '#include "h.h"\n#include "c21.h"\n'
    dp = 5 if THOROUGH else 4
    parts = ["".join(f"  Slices<E_{n}>::all({dp});\n" for n in list(EL)[a::4]) for a in range(4)]
    tus = [head + ad + f"void part{i}() {{\n{p}}}\n" for i, p in enumerate(parts)]
    text = '  { std::string s = "a\\0bc"; s += char(0xff); std::string_view v = s; SliceRef<const uint8_t> x = s, y = v, z = "lit"; SliceRef<const std::byte> w = v; SliceRef<const char> q = s, r = v; ev(6); if (x.size() != s.size() || (const char*)x.data() != s.data() || y != x || z.size() != 3 || z.data()[0] != 108 || w.size() != s.size() || (const char*)w.data() != s.data() || q.size() != s.size() || q.data() != s.data() || r != q || h::u8_x::hash(x) != h::u8_x::hash(y)) vmc::viol("text", "a slice of the bytes of a string differs from the string"); SliceRef<const uint8_t> n0 = std::string_view(), n1 = "", n2 = std::string(); if (n0.size() || n1.size() || n2.size() || h::u8_x::hash(n0) || h::u8_x::hash(n1)) vmc::viol("empty text", "a slice of the bytes of an empty string is not empty or null in Rust"); }\n'
    tus.append(head + conversions() + "void part4() {\n  conversions();\n  ints<rs_std::usize, uintptr_t>(\"usize\"); ints<rs_std::isize, intptr_t>(\"isize\");\n" + text + "}\n")
    tus.append(head + ITER_CC + icc + "void part5() {\n  int depth = " + ("6" if THOROUGH else "5") + ";\n" + ibody + "}\n")
    tus.append(head + bcc + "void part6() { bag_checks(); }\n")
    main_cc = "#include \"vmc.h\"\n" + "".join(f"void part{i}();\n" for i in range(7)) + "int main(int, char** v) { void (*p[])() = {part0, part1, part2, part3, part4, part5, part6}; p[atoi(v[1])](); return vmc::done(); }\n"
    exe, err = e.build(d, [("h", src)], main_cc, cc_flags=[*inc], extra_cc=tus)
    if not exe:
        chk.violation("build", f"a program that uses slices and iterators as documented does not compile ({err[0]}):\n" + "\n".join(l for l in err[1].splitlines() if "error:" in l)[:1500] + err[1][-2000:])
        return
    chk.log("built")
    for i, r in enumerate(pmap(lambda i: run_exe(exe, [str(i)], timeout=700), range(7))):
        judge_harness(chk, f"c21 part {i}", r)


main(check, "C21", "exploration")
