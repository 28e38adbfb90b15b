#!/usr/bin/env python3
"""C03: size, alignment, offset, type and exposure of every field of every struct, tuple struct, union
and enum over bounded alphabets of field types, representations and visibilities, compared at run time
between the compiled Rust crate and the compiled C++ header; scalar fields are also written on one side
and read on the other."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import itertools

PRELUDE = r'''
#![allow(dead_code, private_interfaces, conflicting_repr_hints)]
pub struct Z;
#[derive(Clone, Copy)] pub struct N { pub a: u8, pub b: u32 }
#[derive(Clone, Copy)] #[repr(C, packed)] pub struct K { pub a: u8, pub b: u32 }
#[derive(Clone, Copy)] #[repr(align(16))] pub struct A16 { pub a: u8 }
#[derive(Clone, Copy)] #[repr(u8)] pub enum E8 { P, Q = 7 }
#[derive(Clone, Copy)] pub struct Unbound<T>(T);
'''
# kind: (rust type, C++ type, public, exposed, scalar)
KINDS = {
    "b1": ("u8", "uint8_t", 1, 1, 1), "b2": ("u16", "uint16_t", 1, 1, 1), "b4": ("u32", "uint32_t", 1, 1, 1), "b8": ("u64", "uint64_t", 1, 1, 1),
    "pv": ("u16", "uint16_t", 0, 0, 0), "pz": ("Z", "", 0, 0, 0), "zs": ("Z", "", 1, 0, 0), "uu": ("()", "", 1, 0, 0), "z0": ("[u32; 0]", "", 1, 0, 0), "ph": ("std::marker::PhantomData<u64>", "", 1, 0, 0), "un": ("Unbound<(u8, u32)>", "", 1, 0, 0),
    "u3": ("Unbound<[u8; 3]>", "", 1, 0, 0), "nn": ("N", "foo::N", 1, 1, 0),
    "kk": ("K", "foo::K", 1, 1, 0), "aa": ("A16", "foo::A16", 1, 1, 0), "ee": ("E8", "foo::E8", 1, 1, 0), "bo": ("bool", "bool", 1, 1, 1),
    "ch": ("char", "rs_std::char_", 1, 1, 0), "f4": ("f32", "float", 1, 1, 0), "f8": ("f64", "double", 1, 1, 0), "i1": ("i8", "int8_t", 1, 1, 1),
    "i4": ("i32", "int32_t", 1, 1, 1), "i8": ("i64", "int64_t", 1, 1, 1), "us": ("usize", "size_t", 1, 1, 1), "pt": ("*const u16", "uint16_t const*", 1, 1, 0),
    "pm": ("*mut N", "foo::N*", 1, 1, 0), "ar": ("[u16; 3]", "std::array<uint16_t, 3>", 1, 1, 0), "a2": ("[[u8; 2]; 2]", "std::array<std::array<uint8_t, 2>, 2>", 1, 1, 0),
    "an": ("[N; 2]", "std::array<foo::N, 2>", 1, 1, 0),
    "pf": ("f64", "double", 0, 0, 0), "w16": ("u128", "", 1, 0, 0),
}
NOPACK = ("aa",)     # an align type inside a packed one is rejected by rustc
REPRS = ["", "C", "C, packed", "packed(2)", "C, packed(2)", "C, align(16)", "align(8)"]
CORE = ["b1", "b2", "b4", "b8", "pv", "un", "zs", "nn", "z0"]


class Rows:
    def __init__(self, tag):
        self.tag, self.rs, self.off, self.cc, self.n = tag, [], [], [], 0

    def add(self, decl, name, fields, shape):
        """fields: (accessor, kind, rust place)"""
        i = self.n
        self.n += 1
        self.rs.append(decl)
        self.off.append(f"&[size_of::<{name}>(), align_of::<{name}>(), " + ", ".join(f"offset_of!({name}, {pl}), size_of::<{KINDS[k][0]}>()" for _a, k, pl in fields) + "]")
        sc = [(j, a, KINDS[k][0], pl) for j, (a, k, pl) in enumerate(fields) if KINDS[k][4]]
        if sc:
            rd = " ".join(f"{j} => (*p).{pl} as u64," for j, _a, _t, pl in sc)
            wr = " ".join(f"{j} => (*p).{pl} = v {'!= 0' if t == 'bool' else 'as ' + t}," for j, _a, t, pl in sc)
            self.rs.append(f"pub fn rd{i}(p: &{name}, k: u32) -> u64 {{ let p = p as *const {name}; unsafe {{ match k {{ {rd} _ => 77 }} }} }} pub fn wr{i}(p: &mut {name}, k: u32, v: u64) {{ let p = p as *mut {name}; unsafe {{ match k {{ {wr} _ => {{}} }} }} }}")
        s = f'static void row{i}() {{ using S = foo::{name}; begin("{shape}"); const size_t* r = lay_{self.tag}({i}); row<S>(r); '
        if sc:
            s += "alignas(S) static unsigned char m[sizeof(S)]; S& s = *reinterpret_cast<S*>(m); auto q = [](uint32_t k) { return foo::rd%d(REF(m, S), k); }; auto w = [](uint32_t k, uint64_t v) { foo::wr%d(REF(m, S), k, v); }; (void)s; (void)q; (void)w; " % (i, i)
        for j, (a, k, _pl) in enumerate(fields):
            _r, cpp, pub, exp, scal = KINDS[k]
            if exp:
                s += f"FIELD(S, {a}, {j}, ({cpp})); "
                if scal:
                    s += f"VALUE(S, {a}, {j}); "
            else:
                s += f"HIDDEN(S, {a}, {j}); "
        self.cc.append(s + "}")

    def rust(self):
        return "\n".join(self.rs) + f"\nmod table {{ use super::*; use std::mem::{{offset_of, size_of, align_of}};\n static T: &[&[usize]] = &[\n" + ",\n".join(self.off) + \
            f"];\n #[unsafe(no_mangle)] extern \"C\" fn lay_{self.tag}(i: usize) -> *const usize {{ T[i].as_ptr() }} }}\n"


CC = r'''
#include <type_traits>
extern long g_rows, g_fields, g_hidden, g_values; extern int g_bad; extern const char* g_cur;
static void begin(const char* s) { g_cur = s; g_rows++; }
static void bad(const char* what, long want, long got) { if (g_bad++ < 40) printf("VIOL %s: %s\t%s: %s: Rust has %ld, C++ has %ld\n", g_cur, what, g_cur, what, want, got); }
template <class S> void row(const size_t* r) { if (sizeof(S) != r[0]) bad("size", r[0], sizeof(S)); if (alignof(S) != r[1]) bad("alignment", r[1], alignof(S)); }
template <class T> struct REFT { void* p; operator T&() const { return *(T*)p; } operator T*() const { return (T*)p; } };
#define REF(M, S) REFT<S>{M}
template <class T> struct un_; template <class T> struct un_<void(T)> { using type = T; };
template <class A, class B> constexpr bool same = std::is_same_v<A, B>;
#define FIELD(S, F, J, T) [&]<class X>(X*) { \
  if constexpr (requires(X& x) { x.F; }) { \
    alignas(X) static unsigned char b[sizeof(X)]; X& x = *reinterpret_cast<X*>(b); g_fields++; \
    long off = (long)(reinterpret_cast<unsigned char*>(std::addressof(x)) - b); (void)off; \
    long o = (long)__builtin_offsetof(X, F); if ((size_t)o != r[2 + 2 * J]) bad("offset of " #F, r[2 + 2 * J], o); \
    if (sizeof(x.F) != r[3 + 2 * J]) bad("size of " #F, r[3 + 2 * J], sizeof(x.F)); \
    if (!same<std::remove_cvref_t<decltype(x.F)>, typename un_<void T>::type>) bad("type of " #F, 0, 1); \
  } else bad("a public field is not exposed: " #F, 1, 0); }((S*)nullptr)
#define HIDDEN(S, F, J) [&]<class X>(X*) { g_hidden++; if constexpr (requires(X& x) { x.F; }) bad("a field that must be hidden is exposed: " #F, 0, 1); }((S*)nullptr)
#define VALUE(S, F, J) { uint64_t pat = 0x8142c3a4b5d6e7f9ull; memset(m, 0, sizeof(m)); using FT = std::remove_cvref_t<decltype(s.F)>; FT v = (FT)pat; s.F = v; g_values++; \
  if (q(J) != (uint64_t)v) bad("value written in C++, read in Rust: " #F, (long)q(J), (long)v); \
  w(J, (uint64_t)0x7b1c2d3e4f506172ull); if (s.F != (FT)0x7b1c2d3e4f506172ull) bad("value written in Rust, read in C++: " #F, (long)(FT)0x7b1c2d3e4f506172ull, (long)s.F); }
'''


def sid(repr_, kinds, form):
    return f"{form}{'#[repr(' + repr_ + ')] ' if repr_ else ''}{{{' '.join(kinds)}}}"


def structs(rows, cases):
    for form, repr_, kinds in cases:
        name = f"S{rows.n}"
        at = f"#[repr({repr_})] " if repr_ else ""
        if form == "tuple":
            decl = f"{at}pub struct {name}(" + ", ".join(("pub " if KINDS[k][2] else "") + KINDS[k][0] for k in kinds) + ");"
            fields = [(f"__field{j}", k, str(j)) for j, k in enumerate(kinds)]
        elif form == "union":
            decl = f"{at}#[derive(Clone, Copy)] pub union {name} {{ " + ", ".join(("pub " if KINDS[k][2] else "") + f"f{j}: {KINDS[k][0]}" for j, k in enumerate(kinds)) + " }"
            fields = [(f"f{j}" if "C" in repr_ else f"f{j}.value", k, f"f{j}") for j, k in enumerate(kinds)]
        else:
            decl = f"{at}pub struct {name} {{ " + ", ".join(("pub " if KINDS[k][2] else "") + f"f{j}: {KINDS[k][0]}" for j, k in enumerate(kinds)) + " }"
            fields = [(f"f{j}", k, f"f{j}") for j, k in enumerate(kinds)]
        rows.add(decl, name, fields, sid(repr_, kinds, form + " "))


def zst(kinds):
    return all(k in ("zs", "uu", "ph", "pz", "z0") for k in kinds)


def cases():
    out = []
    alls = list(KINDS)
    for r in REPRS + ["packed", "transparent"] + (["C, packed(4)", "C, packed(8)", "align(64)"] if THOROUGH else []):
        for n in (1, 2):
            for ks in itertools.product(alls, repeat=n):
                if "packed" in r and set(ks) & set(NOPACK):
                    continue
                if zst(ks) and "align" not in r or r == "transparent" and (zst(ks) or "z0" in ks or sum(not zst([k]) for k in ks) > 1):
                    continue
                if zst(ks):
                    continue
                out.append(("struct", r, ks))
    for r in REPRS:
        for ks in itertools.product(CORE if THOROUGH else CORE[:4] + CORE[4:6], repeat=3):
            out.append(("struct", r, ks))
    if THOROUGH:
        for r in ("", "C", "packed(2)"):
            for ks in itertools.product(["b1", "b2", "b4", "b8", "pv"], repeat=4):
                out.append(("struct", r, ks))
    for r in ("", "C", "packed(2)"):
        for ks in itertools.product(CORE, repeat=2):
            if not zst(ks):
                out.append(("tuple", r, ks))
        for ks in itertools.product(["b1", "b8", "pv", "nn"], repeat=3):
            out.append(("tuple", r, ks))
    # every field type at the end of a run of others, so that mistakes accumulate
    for r in REPRS:
        for s in range(len(alls)):
            ks = tuple(alls[(s + 5 * j) % len(alls)] for j in range(9))
            if not ("packed" in r and set(ks) & set(NOPACK)):
                out.append(("struct", r, ks))
    un = ["b1", "b4", "b8", "pv", "nn", "kk", "ar", "f8", "pt"]
    for r in ("", "C", "C, packed", "C, align(16)"):
        for n in (1, 2):
            out += [("union", r, ks) for ks in itertools.product(un, repeat=n)]
        for ks in itertools.permutations(["b1", "b2", "b8", "pv", "ar"], 3):
            out.append(("union", r, ks))
    return out


# ------------------------------------------------------------------ enums
REPR_E = ["", "C", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "C, align(16)", "align(16)", "C, u8", "C, i16"]


BLOB = ("Unbound<u64>", "[u64; 0]", "()", "u128")


def enums(part, parts):
    """Returns rust source and C++ statements; a value of every variant is made on both sides."""
    rs, cc, n, seen = [], [], 0, 0
    payloads = [[], ["u8"], ["u64"], ["u8", "u32"], ["N"], ["u16", "u8", "u64"], ["bool"], ["K", "u8"], ["f32"], ["A16"], ["Unbound<u64>"], ["u8", "Unbound<u64>", "u8"], ["u8", "[u64; 0]"], ["()", "u16"], ["u128"], ["()"]]

    def one(repr_, variants, shape):
        """variants: (name, discriminant or None, payload types, struct-like)"""
        nonlocal n, seen
        seen += 1
        if seen % parts != part:
            return
        name = f"En{n}"
        at = f"#[repr({repr_})] " if repr_ else ""
        vs, mk, which = [], [], []
        for vi, (v, dsc, pay, sl) in enumerate(variants):
            val = {"u8": "0x81", "u16": "0x8182", "u32": "0x81828384", "u64": "0x8182838485868788", "bool": "true", "f32": "1.5",
                   "N": "N { a: 0x91, b: 0x92939495 }", "K": "K { a: 0x91, b: 0x92939495 }", "A16": "A16 { a: 0x71 }", "Unbound<u64>": "Unbound(0x55)", "[u64; 0]": "[]", "()": "()", "u128": "12345"}
            if not pay:
                vs.append(v + (f" = {dsc}" if dsc is not None else ""))
                mk.append(f"{vi} => {name}::{v},")
                which.append(f"{name}::{v} => {vi},")
            elif sl:
                vs.append(v + " { " + ", ".join(f"f{j}: {t}" for j, t in enumerate(pay)) + " }" + (f" = {dsc}" if dsc is not None else ""))
                mk.append(f"{vi} => {name}::{v} {{ " + ", ".join(f"f{j}: {val[t]}" for j, t in enumerate(pay)) + " },")
                which.append(f"{name}::{v} {{ .. }} => {vi},")
            else:
                vs.append(v + "(" + ", ".join(pay) + ")" + (f" = {dsc}" if dsc is not None else ""))
                mk.append(f"{vi} => {name}::{v}(" + ", ".join(val[t] for t in pay) + "),")
                eq = " && ".join({"N": f"p{j}.a == 0x91 && p{j}.b == 0x92939495", "K": f"({{ p{j}.a }}) == 0x91 && ({{ p{j}.b }}) == 0x92939495", "A16": f"p{j}.a == 0x71", "Unbound<u64>": f"p{j}.0 == 0x55", "[u64; 0]": "true", "()": f"*p{j} == ()"}.get(t, f"*p{j} == {val[t]}") for j, t in enumerate(pay))
                which.append(f"{name}::{v}(" + ", ".join(f"p{j}" for j in range(len(pay))) + f") => if {eq} {{ {vi} }} else {{ 100 + {vi} }},")
        rs.append(f"{at}#[derive(Clone, Copy)] pub enum {name} {{ " + ", ".join(vs) + " }")
        rs.append(f"pub fn mk{n}(k: i32) -> {name} {{ match k {{ " + " ".join(mk) + " _ => panic!() } }")
        rs.append(f"pub fn which{n}(x: &{name}) -> i32 {{ match x {{ " + " ".join(which) + " } }")
        s = f'{{ begin("{shape}"); using E = foo::{name}; row<E>(lay_e({n})); '
        cval = {"u8": "0x81", "u16": "0x8182", "u32": "0x81828384u", "u64": "0x8182838485868788ull", "bool": "true", "f32": "1.5f"}
        for vi, (v, dsc, pay, sl) in enumerate(variants):
            s += f"{{ E e = foo::mk{n}({vi}); g_values++; E f = e; if (foo::which{n}(::ref(f)) != {vi}) bad(\"variant {v} through C++\", {vi}, foo::which{n}(::ref(f))); "
            if repr_.startswith("C"):
                s += f"[&]<class X>(X& x) {{ if constexpr (requires {{ x.tag; }}) {{ g_fields++; if ((int)x.tag != ({dsc if dsc is not None else 'foo::disc%d(%d)' % (n, vi)})) bad(\"tag of {v}\", foo::disc{n}({vi}), (int)x.tag); if (x.tag != X::Tag::{v}) bad(\"enumerator of {v}\", 0, (int)X::Tag::{v}); }} "
                for j, t in enumerate(pay):
                    if t in BLOB:
                        continue
                    f = f"f{j}" if sl else f"__field{j}"
                    w = {"N": f"x.{v}.{f}.a == 0x91 && x.{v}.{f}.b == 0x92939495", "K": f"x.{v}.{f}.a == 0x91 && x.{v}.{f}.b == 0x92939495", "A16": f"x.{v}.{f}.a == 0x71"}.get(t, f"x.{v}.{f} == {cval.get(t)}")
                    s += f"if constexpr (requires {{ x.{v}.{f}; }}) {{ g_fields++; if (!({w})) bad(\"payload {j} of {v}\", 0, 1); }} else bad(\"payload of a repr(C) enum is not exposed\", 1, 0); "
                s += "}(e); "
            s += "} "
            if not sl and not set(pay) & {"A16", "K", "N", *BLOB}:
                s += f"{{ E e = E::Make{v}(" + ", ".join(cval[t] for t in pay) + f"); g_values++; if (foo::which{n}(::ref(e)) != {vi}) bad(\"Make{v}\", {vi}, foo::which{n}(::ref(e))); }} "
        if repr_.startswith("C"):
            ds = " ".join(f"{vi} => {d}," for vi, d in enumerate(discs(variants)))
            rs.append(f"pub fn disc{n}(k: i32) -> i32 {{ match k {{ {ds} _ => 0 }} }}")
        cc.append(s + "}")
        n += 1

    def discs(variants):
        out, cur = [], 0
        for _v, d, _p, _s in variants:
            cur = int(d) if d is not None else cur
            out.append(cur)
            cur += 1
        return out
    for r in REPR_E:
        one(r, [("A", None, [], 0), ("B", None, [], 0)], f"enum repr({r}) A, B")
        one(r, [("A", "5", [], 0), ("B", None, [], 0), ("C", "77", [], 0)], f"enum repr({r}) A = 5, B, C = 77")
        if not r.startswith("u") and r not in ("", "C, u8", "align(16)"):
            one(r, [("A", "-3", [], 0), ("B", None, [], 0), ("C", "100", [], 0)], f"enum repr({r}) A = -3, B, C = 100")
        if r in ("", "isize"):
            one(r, [("A", "-300", [], 0), ("B", "70000", [], 0)], f"enum repr({r}) A = -300, B = 70000")
        mx = {"u8": 255, "i8": -128, "u16": 65535, "i16": -32768, "u32": 4294967295, "i32": -2147483648, "u64": 2**64 - 1, "i64": -2**63, "usize": 2**64 - 1, "isize": -2**63, "C": 2147483647, "": 2**62, "C, u8": 255, "C, i16": -32768}.get(r, 100)
        one(r, [("A", "0", [], 0), ("B", str(mx), [], 0)], f"enum repr({r}) A = 0, B = {mx}")
        one(r, [("A", str(mx), [], 0), ("B", "1", [], 0)], f"enum repr({r}) A = {mx}, B = 1")
        one(r, [("Only", None, [], 0)], f"enum repr({r}) Only") if r not in ("", "align(16)") else None
        for p, q in itertools.product(payloads, repeat=2) if THOROUGH or r in ("", "C", "C, align(16)", "C, u8") else zip(payloads, payloads[3:] + payloads[:3]):
            if not p and not q:
                continue
            one(r, [("A", None, p, 0), ("B", None, [], 0), ("C", None, q, 1), ("D", None, q, 0)], f"enum repr({r}) A({', '.join(p)}), B, C{{{', '.join(q)}}}, D({', '.join(q)})")
    lay = ", ".join(f"[size_of::<En{i}>(), align_of::<En{i}>()]" for i in range(n))
    rs.append(f"mod table {{ use super::*; static T: &[[usize; 2]] = &[{lay}]; #[unsafe(no_mangle)] extern \"C\" fn lay_e(i: usize) -> *const usize {{ T[i].as_ptr() }} }}")
    return "\n".join(rs), cc


MAIN = r'''
#include <cstdio>
long g_rows, g_fields, g_hidden, g_values; int g_bad; const char* g_cur;
%s
int main() { %s printf("STAT evaluations=%%ld\nSTAT distinct_nontrivial=%%ld\nSTAT fields=%%ld\nSTAT hidden_fields=%%ld\nSTAT values=%%ld\nDONE\n", g_rows + g_fields + g_hidden + g_values, g_rows, g_fields, g_hidden, g_values); }
'''


def check(chk):
    chk.coverage["rule"] = "one case = one type (form, representation, sequence of field kinds); sizes, alignments, offsets, types and hidden fields are compared for each"
    e = E2E(chk)
    cs = cases()
    per = 520
    parts = [cs[i::(len(cs) + per - 1) // per] for i in range((len(cs) + per - 1) // per)]
    chk.log(f"{len(cs)} types in {len(parts)} crates")
    chk.sample({"types": [sid(r, k, f + " ") for f, r, k in cs[7::len(cs) // 6]]})

    def struct_part(pi):
        rows = Rows(f"p{pi}")
        structs(rows, parts[pi])
        src = PRELUDE + rows.rust()
        k = 4
        tus = ['#include "foo.h"\n' + CC + f'extern "C" const size_t* lay_p{pi}(size_t);\n' + "\n".join(rows.cc[t::k]) + f"\nvoid all{t}() {{ " + " ".join(f"row{i}();" for i in range(t, rows.n, k)) + " }\n" for t in range(k)]
        return f"p{pi}", src, tus, MAIN % ("".join(f"void all{t}();" for t in range(k)), " ".join(f"all{t}();" for t in range(k)))

    def enum_part(part):
        src, cc = enums(part, 5)
        k = 4
        pre = '#include "foo.h"\n' + CC + 'extern "C" const size_t* lay_e(size_t); template <class T> REFT<T> ref(T& x) { return {&x}; }\n'
        tus = [pre + f"void all{t}() {{ " + "\n".join(cc[t::k]) + " }\n" for t in range(k)]
        chk.count(enums=len(cc))
        return f"enums{part}", PRELUDE + src, tus, MAIN % ("".join(f"void all{t}();" for t in range(k)), " ".join(f"all{t}();" for t in range(k)))

    def run1(f):
        name, src, tus, mainsrc = f[0](f[1])
        exe, err = e.build(os.path.join(chk.dir, name), [("foo", src)], mainsrc, extra_cc=tus, cc_flags=["-Wno-invalid-offsetof", "-O0"])
        if err:
            chk.violation(f"{name}:build:{err[0]}", f"a header of bound types does not build ({err[0]}):\n{err[1]}", {"foo.rs": src})
            return
        judge_harness(chk, name, run_exe(exe))
        chk.log(name, "done")
        shutil.rmtree(os.path.join(chk.dir, name), ignore_errors=True)
    jobs = [(enum_part, i) for i in range(5)] + [(struct_part, i) for i in range(len(parts))]
    pmap(run1, jobs, jobs=4)


main(check, "C03", "exploration")
