#!/usr/bin/env python3
"""C10: constants of every supported type with boundary values of every kind at every place a constant can be
declared; type, compile-time value and run-time value in C++ against the bytes Rust has."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import itertools, struct

CC = r'''
#include <cmath>
#include <type_traits>
extern long g_eval; extern int g_bad;
void bad(const char* what, const std::string& want, const std::string& got);
static std::string hx(const void* p, size_t n) { std::string s; char b[4]; for (size_t i = 0; i < n; i++) { snprintf(b, 4, "%02x", ((const unsigned char*)p)[i]); s += b; } return s; }
template <class W, class T> void ck(const char* what, const T& v, const unsigned char* rust, size_t n) {
  g_eval++;
  if (!std::is_same_v<T, W>) return bad(what, "its type", "another type");
  if constexpr (std::is_floating_point_v<T>) { T r; memcpy(&r, rust, sizeof r); if (std::isnan(r) && std::isnan(v)) return; }
  if constexpr (std::is_same_v<T, rs_std::StrRef>) { if (std::string_view((const char*)rust, n) != std::string_view(v)) bad(what, hx(rust, n), hx(v.data(), v.size())); }
  else if (sizeof(T) != n || memcmp(&v, rust, n) != 0) bad(what, hx(rust, n), hx(&v, sizeof v));
}
// the constant in a constant expression, and at run time
#define K(W, WHAT, TAB, ...) { constexpr W c = __VA_ARGS__; static_assert(std::is_same_v<decltype(__VA_ARGS__), const W>); ck<W>(WHAT " (constant expression)", c, TAB.p, TAB.n); ck<W>(WHAT, *launder(&__VA_ARGS__), TAB.p, TAB.n); }
template <class T> const T* launder(const T* p) { const T* volatile q = p; return q; }
struct Tab { const unsigned char* p; size_t n; };
'''
MAIN = r'''
long g_eval; int g_bad;
void bad(const char* what, const std::string& want, const std::string& got) { if (g_bad++ < 60) printf("VIOL %s\t%s: Rust has %s, C++ has %s\n", what, what, want.c_str(), got.c_str()); }
'''
INTS = {"i8": ("int8_t", -1 << 7, (1 << 7) - 1), "i16": ("int16_t", -1 << 15, (1 << 15) - 1), "i32": ("int32_t", -1 << 31, (1 << 31) - 1), "i64": ("int64_t", -1 << 63, (1 << 63) - 1), "isize": ("intptr_t", -1 << 63, (1 << 63) - 1),
        "u8": ("uint8_t", 0, 255), "u16": ("uint16_t", 0, 65535), "u32": ("uint32_t", 0, (1 << 32) - 1), "u64": ("uint64_t", 0, (1 << 64) - 1), "usize": ("uintptr_t", 0, (1 << 64) - 1)}
ALPH = ["a", "1", "\\0", "\\n", "\\\"", "\\\\", "'", "?", "/", "\\u{e9}", "\\u{1f600}", "\\u{7f}", "\\u{1}", "\\u{200b}", "%", "x", "\\r", "{", "\\u{feff}", "*"]


def ivals(t):
    _, lo, hi = INTS[t]
    if hi - lo < 256:
        return list(range(lo, hi + 1))
    v = {lo, lo + 1, hi, hi - 1, 0, 1, 2, 9, 10, 42, 255, 32766, 32767, 32768, 1000003}
    for k in range(0, 64):
        for d in (-1, 0, 1):
            v |= {(1 << k) + d, -(1 << k) + d}
    if t in ("i16", "u16") and THOROUGH:
        v |= set(range(lo, hi + 1, 7))
    return sorted(x for x in v if lo <= x <= hi)


def fvals(bits):
    """bit patterns"""
    eb, mb = (8, 23) if bits == 32 else (11, 52)
    out = []
    pats = [0, 1, (1 << mb) - 1, 0x5555555555555 & ((1 << mb) - 1), 1 << (mb - 1)]
    step = 1 if bits == 32 or THOROUGH else 3
    for e in sorted(set(range(0, 1 << eb, step)) | {0, 1, 2, (1 << eb) - 1, (1 << eb) - 2} | set(range((1 << (eb - 1)) - 8, (1 << (eb - 1)) + 70))):
        for m in pats:
            for s in (0, 1):
                out.append(s << (bits - 1) | e << mb | m)
    fm = "<f" if bits == 32 else "<d"
    for x in [k for k in range(0, 1200)] + [k / 10 for k in range(0, 300)] + [10.0 ** k for k in range(-30, 31)] + [0.1 + 0.2, 1e300 if bits == 64 else 1e30, 123456789.0, 3.14159265358979]:
        for y in (x, -x):
            out.append(int.from_bytes(struct.pack(fm, y), "little"))
    return sorted(set(out))


class Crate:
    def __init__(self, name):
        self.name, self.rs, self.tab, self.cc, self.n = name, ["#![allow(warnings)]"], [], [], 0

    def add(self, what, rty, cty, value, decl, rpath, cpath):
        """decl: 'free', or a function of the declaration text; rpath/cpath: how to name it"""
        i = self.n
        self.n += 1
        self.tab.append((rty, rpath))
        self.cc.append(f'K({cty}, "{what}", {self.name}_tab({i}), {cpath})')

    def finish(self):
        t = []
        for ty, p in self.tab:
            t.append(f"({p}.as_ptr(), {p}.len())" if ty == "&str" else f"(&{p} as *const {ty} as *const u8, size_of::<{ty}>())")
        self.rs.append("mod tabs { use super::*; use std::mem::size_of;\n #[repr(C)] struct Tab(*const u8, usize); unsafe impl Sync for Tab {}\n static T: &[Tab] = &[" + ",\n".join("Tab" + x for x in t) +
                       f"];\n #[unsafe(no_mangle)] extern \"C\" fn {self.name}_tab(i: usize) -> Tab {{ Tab(T[i].0, T[i].1) }} }}")
        return self.name, "\n".join(self.rs)


def check(chk):
    chk.coverage["rule"] = "one case = one constant (type, value, place); each is evaluated in a constant expression and at run time and compared byte by byte with what the compiled Rust crate has"
    chk.assumptions.append("a NaN is required to stay a NaN; its payload is not compared")
    e = E2E(chk)
    crates = []
    # integers, bool, floats: free, in modules and associated, in turn
    c = None
    n = 0

    def place(c, i, rty, val):
        nm = f"C{i}"
        c = crates[-1]
        d = f"pub const {nm}: {rty} = {val};"
        k = i % 6
        if k in (1, 4, 5) and i % 60 > 5 and rty in ("f32", "f64"): k = 2 if k == 1 else 0  # (modules and traits are slower)
        if k == 0: c.rs.append(d); return f"crate::{nm}", f"::{c.name}::{nm}"
        if k == 1: c.rs.append(f"pub mod m{i} {{ {d} }}"); return f"crate::m{i}::{nm}", f"::{c.name}::m{i}::{nm}"
        if k == 2: c.rs.append(f"impl super::St {{ {d} }}".replace("super::", "")); return f"crate::St::{nm}", f"::{c.name}::St::{nm}"
        if k == 3: c.rs.append(f"impl En {{ {d} }}"); return f"crate::En::{nm}", f"::{c.name}::En::{nm}"
        if k == 4: c.rs.append(f"pub mod o{i} {{ pub mod i {{ use super::super::*; impl deep::Dp {{ {d} }} }} }}"); return f"crate::deep::Dp::{nm}", f"::{c.name}::deep::Dp::{nm}"
        c.rs.append(f"pub trait T{i} {{ const {nm}: {rty}; }} impl T{i} for Un {{ const {nm}: {rty} = {val}; }}")
        return f"<crate::Un as crate::T{i}>::{nm}", f"rs_std::impl<::{c.name}::Un, ::{c.name}::T{i}>::{nm}"

    def new(name):
        c = Crate(name)
        c.rs.append("pub struct St { pub v: i32 } #[derive(Clone, Copy)] pub enum En { A, B } #[derive(Clone, Copy)] pub union Un { pub a: u8 } pub mod deep { pub struct Dp(pub u8); }")
        crates.append(c)
        return c

    c = new("ints")
    i = 0
    for t, (ct, lo, hi) in INTS.items():
        for v in ivals(t):
            lit = f"{t}::MIN" if v == lo and lo < 0 else str(v)
            r, q = place(c, i, t, lit); c.add(f"{t} {v}", t, ct, v, None, r, q); i += 1
    for v in ("true", "false"):
        for _ in range(6):
            r, q = place(c, i, "bool", v); c.add(f"bool {v}", "bool", "bool", v, None, r, q); i += 1
    # through aliases, const fns, other constants, operators
    for k, (rt, ct, ex) in enumerate([("Al", "int32_t", "-7"), ("Al2", "uint64_t", "u64::MAX / 3"), ("i64", "int64_t", "cf(3)"), ("usize", "uintptr_t", "\"hello\".len()"), ("u8", "uint8_t", "b'\\\\'"), ("i32", "int32_t", "i32::MIN ^ 1"), ("u16", "uint16_t", "!0"),
                                      ("std::ffi::c_int", "int", "-3"), ("std::ffi::c_uchar", "unsigned char", "200"), ("std::ffi::c_short", "short", "-300"), ("std::ffi::c_uint", "unsigned int", "4000000000"), ("f64", "double", "1.0 / 3.0"), ("f32", "float", "f32::EPSILON"), ("u32", "uint32_t", "'x' as u32"), ("i16", "int16_t", "En2::Q as i16")]):
        for j in range(6):
            if k == 0 and j == 0: c.rs.append("pub type Al = i32; pub mod al { pub type Al2 = u64; } pub use al::Al2; const fn cf(x: i64) -> i64 { x * -1234567891 } #[repr(i16)] enum En2 { P, Q = -321 }")
            d, q = place(c, i, "super::" * 0 + rt, ex) if i % 6 in (0, 2, 3, 5) else (None, None)
            if d is None: i += 1; d, q = place(c, i, rt, ex) if i % 6 in (0, 2, 3, 5) else (None, None)
            if d: c.add(f"{rt} = {ex}".replace("\\", "").replace('"', "'"), rt, ct, 0, None, d, q)
            i += 1
    c = new("flt")
    for bits, t, ct in ((32, "f32", "float"), (64, "f64", "double")):
        for v in fvals(bits):
            if c.n >= 1500: c = new(f"flt{len(crates)}")
            r, q = place(c, i, t, f"{t}::from_bits({v:#x})"); c.add(f"{t} with bits {v:#x}", t, ct, v, None, r, q); i += 1
    for t, ct in (("f32", "float"), ("f64", "double")):
        for nm in ("NAN", "INFINITY", "NEG_INFINITY", "MAX", "MIN", "MIN_POSITIVE", "EPSILON"):
            for _ in range(6):
                r, q = place(c, i, t, f"{t}::{nm}"); c.add(f"{t}::{nm}", t, ct, 0, None, r, q); i += 1
    c = new("strs")
    texts = [""] + ["".join(x) for k in (1, 2) for x in itertools.product(ALPH, repeat=k)]
    al3 = ALPH[:3] + ALPH[4:6] + ALPH[9:10] + ["x", "\\u{1}"] if not THOROUGH else ALPH[:14] + ["x"]
    texts += ["".join(x) for x in itertools.product(al3, repeat=3)]
    texts += ["long " * 400, "\\0" * 40, "//*\\u{e9}*/", "R\\\"(x)\\\"", "\\\\u00e9", "\\\\x41", "\\\\0", "\\\\\\n"]
    for t in texts:
        r, q = place(c, i, "&str", f'"{t}"'); c.add("&str " + t.replace("\\", "\\\\").replace('"', '\\"')[:60] if False else f"&str number {i}: " + t.replace("\\", "/").replace('"', "")[:50], "&str", "rs_std::StrRef", t, None, r, q); i += 1
    for j in range(6):
        r, q = place(c, i, "&'static str", 'concat!("a", 1, "\\0", "b")'); c.add("&str concat", "&str", "rs_std::StrRef", "", None, r, q); i += 1
    # names: reserved words at every place, and constants reached through re-exports
    c = new("nms")
    words = ["int", "class", "namespace", "new", "template", "A", "_x", "private", "long", "double", "operator_", "alignas", "nullptr", "co_await", "requires", "concept", "export", "auto", "signed", "typename"]
    for k, w in enumerate(words):
        esc = w if w in ("A", "_x", "operator_") else w + "_"
        c.rs.append(f"pub const {w}: i32 = {k}; pub struct S{k}(pub u8); impl S{k} {{ pub const {w}: i32 = {k + 100}; }} pub mod m{k} {{ pub const {w}: i32 = {k + 200}; }}")
        for what, r, q in ((f"free constant {w}", f"crate::{w}", f"::nms::{esc}"), (f"associated constant {w}", f"crate::S{k}::{w}", f"::nms::S{k}::{esc}"), (f"constant {w} in a module", f"crate::m{k}::{w}", f"::nms::m{k}::{esc}")):
            c.add(what, "i32", "int32_t", 0, None, r, q)
    # C++ enumerations made of constants
    c = new("enm")
    for t, (ct, lo, hi) in INTS.items():
        if t in ("isize", "usize"): continue
        vs = sorted({lo, lo + 1, 0, 1, hi - 1, hi, 42})
        for style in ("enum class", "enum"):
            N = f"E{t}{len(style)}"
            pub = "pub const V{j}: %s = %s({v});" % (N, N)
            c.rs.append(f'#[doc = "CRUBIT_ANNOTATE: cpp_enum={style}"] #[repr(transparent)] #[derive(Clone, Copy)] pub struct {N}({t}); impl {N} {{ ' +
                        " ".join(f"pub const V{j}: {N} = {N}({t + '::MIN' if v == lo and lo < 0 else v});" if style == "enum class" else f"pub const V{j}_{t}: {N} = {N}({t + '::MIN' if v == lo and lo < 0 else v});" for j, v in enumerate(vs)) + " }")
            for j, v in enumerate(vs):
                nm = f"V{j}" if style == "enum class" else f"V{j}_{t}"
                idx = c.n
                c.n += 1
                c.tab.append((N, f"crate::{N}::{nm}"))
                q = f"::enm::{N}::{nm}" if style == "enum class" else f"::enm::{nm}"
                c.cc.append(f'{{ constexpr auto v = {q}; static_assert(std::is_same_v<std::underlying_type_t<std::remove_const_t<decltype(v)>>, {ct}>); ck<{ct}>("{style} {t} {v}", ({ct})v, enm_tab({idx}).p, enm_tab({idx}).n); }}')
    # types that have no constants in C++: absent, or right
    c = new("uns")
    uns = [("char", "'x'"), ("char", "'\\u{10ffff}'"), ("(i32, u8)", "(1, 2)"), ("[u8; 2]", "[1, 2]"), ("Option<i32>", "Some(4)"), ("u128", "1"), ("i128", "-1"), ("()", "()"), ("&'static [u8]", "&[1]"), ("&'static i32", "&4"), ("*const i32", "std::ptr::null()"),
           ("*const u8", "4 as *const u8"), ("En", "En::B"), ("St", "St { v: 3 }"), ("fn()", "fx"), ("&'static [u8; 3]", "b\"abc\""), ("&'static std::ffi::CStr", "c\"abc\""), ("std::num::NonZeroU8", "std::num::NonZeroU8::MIN"), ("std::cmp::Ordering", "std::cmp::Ordering::Less"),
           ("Result<u8, u8>", "Ok(1)"), ("Option<&'static str>", "Some(\"x\")"), ("&'static &'static str", "&\"x\""), ("deep::Dp", "deep::Dp(1)"), ("String", "String::new()"), ("Vec<i32>", "Vec::new()"), ("std::marker::PhantomData<u8>", "std::marker::PhantomData"), ("extern \"C\" fn()", "fy"), ("std::ops::Range<i32>", "0..3"), ("std::time::Duration", "std::time::Duration::ZERO")]
    c.rs.append("fn fx() {} extern \"C\" fn fy() {}")
    for k, (t, v) in enumerate(uns):
        c.rs.append(f"pub struct X{k}(pub u8); impl X{k} {{ pub const C: {t} = {v}; pub const AFTER: u8 = {k}; }} pub const BEFORE{k}: u8 = {k}; pub const C{k}: {t} = {v}; pub const AFTER{k}: u8 = {k};")
        for q, r in ((f"::uns::X{k}::AFTER", f"X{k}::AFTER"), (f"::uns::BEFORE{k}", f"BEFORE{k}"), (f"::uns::AFTER{k}", f"AFTER{k}")):
            c.add(f"u8 next to a constant of type {t}".replace('"', ""), "u8", "uint8_t", 0, None, "crate::" + r, q)
        want = {"char": f"static_cast<uint32_t>(v) == {120 if v == chr(39) + 'x' + chr(39) else 0x10ffff}u", "*const i32": "v == nullptr", "*const u8": "v == (const uint8_t*)4"}.get(t, "true")
        if t in ("char", "*const i32", "*const u8"):
            c.cc.append(f'[&]<class X>(X*) {{ if constexpr (requires {{ X::C; }}) {{ const auto& v = X::C; g_eval++; if (!({want})) bad("{t} constant", "{v.replace(chr(39), "").replace(chr(92), "/")}", "something else"); }} }}((::uns::X{k}*)nullptr);')
    total = sum(x.n for x in crates)
    chk.count(distinct_nontrivial=total)
    chk.sample({x.name: x.cc[1::max(1, len(x.cc) // 3)] for x in crates})
    tus = []
    runs = []
    for x in crates:
        per = 1500
        for h, a in enumerate(range(0, len(x.cc), per)):
            fn = f"run_{x.name}_{h}"
            runs.append(fn)
            tus.append(f'#include "{x.name}.h"\n' + CC + f'extern "C" Tab {x.name}_tab(size_t);\n' + "".join(f"static void p{j}() {{\n" + "\n".join(x.cc[a + j:min(a + j + 50, a + per)]) + "\n}\n" for j in range(0, min(per, len(x.cc) - a), 50)) +
                       f"void {fn}() {{ " + " ".join(f"p{j}();" for j in range(0, min(per, len(x.cc) - a), 50)) + " }\n")
    mainsrc = "#include <support/rs_std/str_ref.h>\n" + CC + MAIN + "".join(f"void {f}();" for f in runs) + "\nint main() { " + " ".join(f"{f}();" for f in runs) + ' printf("STAT evaluations=%ld\\nDONE\\n", g_eval); }\n'
    pairs = [x.finish() for x in crates]
    exe, err = e.build(os.path.join(chk.dir, "x"), pairs, mainsrc, extra_cc=tus, independent=True)
    if err:
        chk.violation(f"build:{err[0]}", f"bindings of constants do not build ({err[0]}):\n{err[1]}")
        return
    chk.log("built")
    judge_harness(chk, "constants", run_exe(exe, timeout=400))
    # every constant without bindings is named in the header and in the report
    import json
    rep = os.path.join(chk.dir, "rep.json")
    r = e.generate(os.path.join(chk.dir, "x"), "uns", ["--error-report-out", rep], outdir=fresh_dir(os.path.join(chk.dir, "r")))
    if r.rc != 0:
        chk.violation("report", "generation with an error report fails:\n" + r.tail())
        return
    hdr = open(os.path.join(chk.dir, "x", "uns.h")).read()
    names = {x["name"] for x in json.load(open(rep)) if x.get("errors")}
    for k, (t, v) in enumerate(uns):
        for nm, key in ((f"C{k}", f"uns::C{k}"), (f"X{k}::C", f"uns::X{k}::C")):
            chk.count(evaluations=1)
            present = f" C{k}=" in hdr.replace(" =", "=") if "::" not in nm else None
            if present:
                continue
            if f"`{key}`" not in hdr and present is not None or (f"uns::{key}" not in names):
                if present is None and f"`{key}`" not in hdr and f"struct X{k}" in hdr and " C=" in hdr.split(f"]X{k} ")[-1].split("};")[0].replace(" =", "="):
                    continue
                chk.violation(f"unreported {nm}", f"constant {key}: {t} has no bindings, and is {'named' if f'`{key}`' in hdr else 'not named'} in the header and {'listed' if f"uns::{key}" in names else 'not listed'} in the error report")


main(check, "C10", "exploration")
