#!/usr/bin/env python3
"""C09: every combination of capability traits on every kind of type, every operator trait x operand type,
every (pair of) conversion(s), and text conversion: presence in C++ is decided by the compiler, results by
running them against what the Rust implementation computes."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import itertools, re

CC = r'''
#include <compare>
#include <concepts>
#include <sstream>
#include <iomanip>
#include <type_traits>
extern long g_eval, g_pres; extern int g_bad; extern const char* g_cur;
struct Fail { };
void bad(const char* what, long long want, long long got);
inline void has(const char* what, bool want, bool got) { g_pres++; if (want != got) bad(what, want, got); }
inline void eq(const char* what, long long want, long long got) { g_eval++; if (want != got) bad(what, want, got); }
template <class T> struct RT { T& r; operator T&() const { return r; } operator T*() const { return &r; } };
template <class T> RT<T> ref(T& t) { return {t}; }
// converts to exactly R, never to anything else
template <class R> struct Exact { template <class U> requires std::same_as<std::remove_cvref_t<U>, R> operator U() const; };
template <class R> struct ExactRef { template <class U> requires std::same_as<std::remove_cvref_t<U>, R> operator U&() const; };
template <class T> constexpr bool has_eq = requires(const T& a, const T& b) { a == b; };
template <class T> constexpr bool has_lt = requires(const T& a, const T& b) { a < b; };
template <class T> constexpr int cmp_kind = [] { if constexpr (requires(const T& a, const T& b) { a <=> b; }) {
  using R = decltype(std::declval<const T&>() <=> std::declval<const T&>());
  return std::is_same_v<R, std::strong_ordering> ? 2 : std::is_same_v<R, std::partial_ordering> ? 1 : 3; } else return 0; }();
template <class T> constexpr bool has_text = requires(std::ostream& o, const T& t) { o << t; };
template <class T> void caps(int clone, bool copy, bool dflt, bool drop, bool eqv, int ord) {
  has("copy constructible", clone, std::is_copy_constructible_v<T>);
  has("copy assignable", clone, std::is_copy_assignable_v<T>);
  has("trivially copy constructible", copy, std::is_trivially_copy_constructible_v<T>);
  has("trivially copy assignable", copy, std::is_trivially_copy_assignable_v<T>);
  has("trivially copyable", copy, std::is_trivially_copyable_v<T> && std::is_copy_constructible_v<T>);
  has("default constructible", dflt, std::is_default_constructible_v<T>);
  if (!dflt || drop) has("trivially default constructible", false, std::is_trivially_default_constructible_v<T>);
  has("trivially destructible", !drop, std::is_trivially_destructible_v<T>);
  has("destructible", true, std::is_destructible_v<T>);
  has("move constructible", !drop || dflt || clone, std::is_move_constructible_v<T>);
  has("move assignable", !drop || dflt || clone, std::is_move_assignable_v<T>);
  has("trivially move constructible", !drop, std::is_trivially_move_constructible_v<T>);
  has("trivially move assignable", !drop, std::is_trivially_move_assignable_v<T>);
  has("equality comparable", eqv, has_eq<T>);
  has("less-than comparable", ord != 0, has_lt<T>);
  has("kind of three-way comparison", true, cmp_kind<T> == ord);
}
#define ROW(N) static void r##N()
'''
MAIN_CC = r'''
long g_eval, g_pres; int g_bad; const char* g_cur;
void bad(const char* what, long long want, long long got) { if (g_bad++ < 60) printf("VIOL %s: %s\t%s: %s: Rust says %lld, C++ says %lld\n", g_cur, what, g_cur, what, want, got); }
'''

# ------------------------------------------------------------------ part 1: capability matrix
# kind: (declaration with % derives, expression making value v, expression reading it, can derive Default/PartialEq/.., drop glue)
TK = {
    "struct": ("{D} pub struct {N} {{ pub v: i32 }}", "{N} {{ v }}", "x.v", True, False),
    "tuple struct": ("{D} pub struct {N}(pub i32);", "{N}(v)", "x.0", True, False),
    "private field": ("{D} pub struct {N} {{ v: i32 }}", "{N} {{ v }}", "x.v", True, False),
    "repr(C)": ("{D} #[repr(C)] pub struct {N} {{ pub v: i32, pub w: u8 }}", "{N} {{ v, w: 1 }}", "x.v", True, False),
    "transparent": ("{D} #[repr(transparent)] pub struct {N} {{ pub v: i32 }}", "{N} {{ v }}", "x.v", True, False),
    "over-aligned": ("{D} #[repr(align(32))] pub struct {N} {{ pub v: i32 }}", "{N} {{ v }}", "x.v", True, False),
    "enum": ("{D} pub enum {N} {{ {F} A(i32), B {{ x: u8 }}, {Z} }}", "{N}::A(v)", "match x {{ {N}::A(v) => *v, {N}::B {{ .. }} => -1, {N}::Z => 0 }}", True, False),
    "plain enum": ("{D} #[repr(i32)] pub enum {N} {{ A = 1, B = 2, {Z} = 0, C = 10002 }}", "match v {{ 1 => {N}::A, 2 => {N}::B, 10002 => {N}::C, _ => {N}::Z }}",
                   "match x {{ {N}::A => 1, {N}::B => 2, {N}::C => 10002, {N}::Z => 0 }}", True, False),
    "union": ("{D} pub union {N} {{ pub v: i32, pub w: u16 }}", "{N} {{ v }}", "unsafe {{ x.v }}", False, False),
    "drop glue": ("{D} pub struct {N} {{ pub v: i32, s: String }}", "{N} {{ v, s: String::new() }}", "x.v", True, True),
    "Drop": ("{D} pub struct {N} {{ pub v: i32 }} impl Drop for {N} {{ fn drop(&mut self) {{}} }}", "{N} {{ v }}", "x.v", True, True),
    "enum with drop glue": ("{D} pub enum {N} {{ A(i32), B(String), {Z} }}", "{N}::A(v)", "match x {{ {N}::A(v) => *v, {N}::B(_) => -1, {N}::Z => 0 }}", True, True),
}
CLONES = ["none", "derive", "hand", "clone_from", "copy", "copy hand"]
DEFAULTS = ["none", "derive", "hand"]
# PartialEq mode, PartialOrd mode, Ord mode
ORDS = [("n", "n", "n"), ("d", "n", "n"), ("h", "n", "n"), ("d", "d", "n"), ("h", "h", "n"), ("d", "d", "d"), ("h", "h", "h"), ("d", "h", "n"), ("h", "d", "n"), ("d", "h", "h")]
WRAP = ["{}", "const _: () = {{ {} }};", "mod m{N} {{ use super::*; {} }}"]


def caps_types():
    out = []
    for k, (_decl, _mk, _rd, deriv, glue) in TK.items():
        for c, d, o in itertools.product(CLONES, DEFAULTS, ORDS):
            if glue and c.startswith("copy"):
                continue
            if k == "union" and (c in ("derive", "copy", "hand", "clone_from") and c == "derive" or d == "derive" or "d" in o):
                continue
            out.append((k, c, d, o))
    if not THOROUGH:   # quick: all pairs of (clone, default), (clone, order), (default, order) per kind
        out = [t for i, t in enumerate(out) if t[1] == "none" or t[2] == "none" or t[3] == ("n", "n", "n") or (CLONES.index(t[1]) + DEFAULTS.index(t[2]) + ORDS.index(t[3])) % 3 == 0]
    return out


def caps_row(i, t, crate):
    k, c, d, o = t
    decl, mk, rd, deriv, glue = TK[k]
    N = f"C{i}"
    der = []
    hand = []
    rdx = lambda e: "({ let x = " + e + "; " + rd.format(N=N) + " })"
    mkx = lambda e: "({ let v: i32 = " + e + "; " + mk.format(N=N) + " })"
    if c == "derive": der.append("Clone")
    elif c == "copy": der += ["Clone", "Copy"]
    elif c != "none":
        f = " fn clone_from(&mut self, o: &Self) { let v: i32 = " + rdx("o") + " + 20000; *self = " + mkx("v") + "; }" if c == "clone_from" else ""
        hand.append(f"impl Clone for {N} {{ fn clone(&self) -> Self {{ {mkx(rdx('self') + ' + 10000')} }}{f} }}")
        if c == "copy hand": hand.append(f"impl Copy for {N} {{}}")
    if d == "derive": der.append("Default")
    elif d == "hand": hand.append(f"impl Default for {N} {{ fn default() -> Self {{ {mkx('2')} }} }}")
    pe, po, od = o
    if pe == "d": der.append("PartialEq")
    elif pe == "h": hand.append(f"impl PartialEq for {N} {{ fn eq(&self, o: &Self) -> bool {{ {rdx('self')} == {rdx('o')} + 1 }} }}")
    if po == "d": der.append("PartialOrd")
    elif po == "h":
        hand.append(f"impl PartialOrd for {N} {{ fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {{ let (a, b) = ({rdx('self')}, {rdx('o')}); if a == 2 && b == 2 {{ None }} else {{ (a * 2).partial_cmp(&b) }} }} }}")
    if od != "n":
        if pe == "d" and od == "d": der.append("Eq")
        else: hand.append(f"impl Eq for {N} {{}}")
        if od == "d": der.append("Ord")
        else: hand.append(f"impl Ord for {N} {{ fn cmp(&self, o: &Self) -> std::cmp::Ordering {{ (3 * {rdx('self')}).cmp(&{rdx('o')}) }} }}")
    D = "#[derive(%s)]" % ", ".join(der) if der else ""
    Z = "#[default] Z" if d == "derive" else "Z"
    rs = [decl.format(D=D, N=N, F="", Z=Z)] if "{Z}" in decl else [decl.format(D=D, N=N, F="")]
    rs += [WRAP[(i + j) % 3].format(h, N=f"{i}_{j}") if k != "private field" or (i + j) % 3 < 2 else h for j, h in enumerate(hand)]
    rs.append(f"pub fn mk{i}(v: i32) -> {N} {{ {mk.format(N=N)} }} #[unsafe(no_mangle)] extern \"C\" fn v{i}(x: *const {N}) -> i32 {{ let x = unsafe {{ &*x }}; {rd.format(N=N)} }}")
    ors = ""
    if pe != "n": ors += f"#[unsafe(no_mangle)] extern \"C\" fn e{i}(a: *const {N}, b: *const {N}) -> i32 {{ unsafe {{ (*a == *b) as i32 }} }}"
    if po != "n":
        body = f"match (*a).partial_cmp(&*b) {{ None => 2, Some(o) => o as i32 }}" if od == "n" else "(*a).cmp(&*b) as i32"
        ors += f"#[unsafe(no_mangle)] extern \"C\" fn o{i}(a: *const {N}, b: *const {N}) -> i32 {{ unsafe {{ {body} }} }}"
    rs.append(ors)
    q = f"::{crate}::"
    T = q + N
    ordk = 0 if po == "n" else 1 if od == "n" else 2
    cc = [f'extern "C" int v{i}(const void*); extern "C" int e{i}(const void*, const void*); extern "C" int o{i}(const void*, const void*);',
          f'ROW({i}) {{ using T = {T}; g_cur = "{k}; Clone: {c}; Default: {d}; PartialEq/PartialOrd/Ord: {"/".join(o)}"; caps<T>({int(c != "none")}, {int(c.startswith("copy"))}, {int(d != "none")}, {int(glue)}, {int(pe != "n")}, {ordk});']
    body = []
    if c != "none":
        inc = {"derive": (0, 0), "copy": (0, 0), "copy hand": (0, 0), "hand": (10000, 10000), "clone_from": (10000, 20000)}[c]
        body.append("if constexpr (std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T>) {" +
                    f"const T a({q}mk{i}(2)); T b(a); eq(\"value of a copy\", {'2' if inc[0] == 0 else '10002'}, v{i}(&b)); T d({q}mk{i}(1)); d = a; eq(\"value after copy assignment\", {2 + inc[1] if k != 'plain enum' or inc[1] != 20000 else 0}, v{i}(&d)); eq(\"source of a copy\", 2, v{i}(&a)); }}")
    if d != "none":
        want = 2 if d == "hand" else 0
        body.append(f"if constexpr (std::is_default_constructible_v<T>) {{ T a; eq(\"default value\", {want}, v{i}(&a)); T b{{}}; eq(\"default value\", {want}, v{i}(&b)); T* c = new T(); eq(\"default value\", {want}, v{i}(c)); delete c; }}")
    vals = [0, 1, 2]
    if pe != "n":
        body.append(f"if constexpr (has_eq<T>) for (int x : {{0, 1, 2}}) for (int y : {{0, 1, 2}}) {{ const T a({q}mk{i}(x)); T b({q}mk{i}(y)); eq(\"==\", e{i}(&a, &b), a == b); eq(\"!=\", !e{i}(&a, &b), a != b); }}")
    if po != "n":
        body.append(f"if constexpr (has_lt<T>) for (int x : {{0, 1, 2}}) for (int y : {{0, 1, 2}}) {{ const T a({q}mk{i}(x)); T b({q}mk{i}(y)); int w = o{i}(&a, &b); auto g = a <=> b; eq(\"<=>\", w, g < 0 ? -1 : g > 0 ? 1 : g == 0 ? 0 : 2); eq(\"<\", w == -1, a < b); eq(\">\", w == 1, a > b); eq(\"<=\", w == -1 || w == 0, a <= b); eq(\">=\", w == 0 || w == 1, a >= b); }}")
    cc.append(" ".join(body) + " }")
    return "\n".join(rs), "\n".join(cc)


# ------------------------------------------------------------------ part 2: operators
OPS = [("Add", "add", "+", 1), ("Sub", "sub", "-", 2), ("Mul", "mul", "*", 3), ("Div", "div", "/", 4), ("Rem", "rem", "%", 5),
       ("BitAnd", "bitand", "&", 6), ("BitOr", "bitor", "|", 7), ("BitXor", "bitxor", "^", 8), ("Shl", "shl", "<<", 9), ("Shr", "shr", ">>", 10)]
UN = [("Neg", "neg", "-", 11), ("Not", "not", "!", 12)]
# rhs: rust type, rust value of it, C++ type, C++ argument, C++ constructor class (Exact / ExactRef)
RH = {
    "i32": ("i32", "o as i64", "int32_t", "(int32_t)7", 7), "u8": ("u8", "o as i64", "uint8_t", "(uint8_t)8", 8), "f64": ("f64", "o as i64", "double", "9.0", 9),
    "bool": ("bool", "o as i64", "bool", "true", 1), "char": ("char", "o as i64", "rs_std::char_", "rs_std::char_(u'A')", 65),
    "u64": ("u64", "o as i64", "uint64_t", "(uint64_t)11", 11), "Oth": ("Oth", "o.w as i64", "Q::Oth", "Q::Oth(21)", 21), "&Oth": ("&Oth", "o.w as i64", "Q::Oth", "oth", 22),
    "&mut Oth": ("&mut Oth", "o.w as i64", "Q::Oth", "oth", 22),
    "Own": ("Own", "o.b[0] as i64", "Q::Own", "Q::mk_own(31)", 31), "&Own": ("&Own", "o.b[0] as i64", "Q::Own", "own", 32),
    "&str": ("&str", "o.len() as i64", "rs_std::StrRef", "rs_std::StrRef(\"abcd\")", 4), "arr": ("[u8; 2]", "o[1] as i64", "(std::array<uint8_t, 2>)", "std::array<uint8_t, 2>{1, 41}", 41),
    "sl": ("&[i32]", "o[1] as i64", "rs_std::SliceRef<const int32_t>", "rs_std::SliceRef<const int32_t>(std::span<const int32_t>(sl, 2))", 52),
    "opt": ("Option<i32>", "o.unwrap() as i64", "std::optional<int32_t>", "std::optional<int32_t>(61)", 61),
    "ptr": ("*const i32", "unsafe { *o as i64 }", "const int32_t*", "(const int32_t*)(sl + 1)", 52),
}
LH = {   # lhs: declaration, constructor, reader, arithmetic operators available by value
    "copy": ("#[derive(Clone, Copy)] pub struct {N} {{ pub v: i64 }}", "{N} {{ v }}", "self.v", True),
    "movable": ("#[derive(Default)] pub struct {N} {{ s: Vec<i64> }}", "{N} {{ s: vec![v] }}", "self.s[0]", True),
    "clone": ("#[derive(Clone)] pub struct {N} {{ s: Vec<i64> }}", "{N} {{ s: vec![v] }}", "self.s[0]", True),
    "unmovable": ("pub struct {N} {{ s: Vec<i64> }}", "{N} {{ s: vec![v] }}", "self.s[0]", False),
    "enum": ("#[derive(Clone, Copy)] pub enum {N} {{ A(i64), B }}", "{N}::A(v)", "match self {{ {N}::A(v) => v.clone(), _ => -1 }}", True),
}
OUT = {  # output type: rust expression from n, C++ reading
    "i64": ("i64", "n", "r"), "Oth": ("Oth", "Oth { w: n as i32 }", "r.w"), "Own": ("Own", "mk_own(n as i32)", "Q::own_of(r)"),
    "opt": ("Option<i64>", "Some(n)", "*r"), "str": ("String", "n.to_string()", "atoll(std::string(r.as_str().data(), r.as_str().size()).c_str())"), "bool": ("bool", "n % 2 == 1", "r ? 1 : 0"),
}


def op_rows():
    """(lhs kind, [(trait, method, symbol, code, rhs kind, output)], [assign likewise])"""
    rows = []
    outs = list(OUT)
    n = 0
    for (lh, rh) in itertools.product(LH, RH):
        for j, op in enumerate(OPS):
            rows.append((lh, [op + (rh, outs[n % len(outs)])], [], [])); n += 1
            rows.append((lh, [], [op + (rh,)], []))
    for lh in LH:
        for u in UN:
            for o in outs:
                rows.append((lh, [], [], [u + (o,)]))
        # an operator with every pair of operand types
        for a, b in itertools.combinations([r for r in RH], 2):
            if {a, b} == {"Oth", "&Oth"} or {a, b} == {"Own", "&Own"} or {a, b} <= {"Oth", "&Oth", "&mut Oth"}:
                continue
            rows.append((lh, [OPS[n % 10] + (a, "i64"), OPS[n % 10] + (b, "bool")], [OPS[n % 10] + (a,), OPS[n % 10] + (b,)], [])); n += 1
        # every pair of operators with one operand type
        for a, b in itertools.combinations(OPS, 2):
            rows.append((lh, [a + ("i32", "i64")], [b + ("i32",)], [])); rows.append((lh, [a + ("i32", "i64"), b + ("&Oth", "opt")], [a + ("&Oth",), b + ("i32",)], [UN[n % 2] + ("i64",)])); n += 1
        rows.append((lh, [op + ("i32", "i64") for op in OPS], [op + ("i32",) for op in OPS], [u + ("i64",) for u in UN]))
        rows.append((lh, [], [], [u + ("i64",) for u in UN]))
    return rows


def op_row(i, t, crate):
    lh, bins, asg, uns = t
    decl, mk, rd, byval = LH[lh]
    N = f"O{i}"
    rs = [decl.format(N=N), f"pub fn mo{i}(v: i64) -> {N} {{ {mk.format(N=N)} }} #[unsafe(no_mangle)] extern \"C\" fn w{i}(x: *const {N}) -> i64 {{ unsafe {{ &*x }}.get() }} impl {N} {{ fn get(&self) -> i64 {{ {rd.format(N=N)} }} }}"]
    for (tr, me, sy, code, rh, out) in bins:
        rt, rv, *_ = RH[rh]; ot, oe, _ = OUT[out]
        rs.append(f"impl std::ops::{tr}<{rt}> for {N} {{ type Output = {ot}; fn {me}(self, o: {rt}) -> {ot} {{ let n: i64 = {code} * 10000 + self.get() * 100 + {rv}; {oe} }} }}")
    for (tr, me, sy, code, rh) in asg:
        rt, rv, *_ = RH[rh]
        rs.append(f"impl std::ops::{tr}Assign<{rt}> for {N} {{ fn {me}_assign(&mut self, o: {rt}) {{ let v: i64 = {code} * 20000 + self.get() * 100 + {rv}; *self = {mk.format(N=N)}; }} }}")
    for (tr, me, sy, code, out) in uns:
        ot, oe, _ = OUT[out]
        rs.append(f"impl std::ops::{tr} for {N} {{ type Output = {ot}; fn {me}(self) -> {ot} {{ let n: i64 = {code} * 10000 + self.get(); {oe} }} }}")
    cc = [f'extern "C" int64_t w{i}(const void*);', f'ROW({i}) {{ using T = Q::{N}; g_cur = "{lh} type; ' + ", ".join([f"{b[0]}<{b[4]}> -> {b[5]}" for b in bins] + [f"{b[0]}Assign<{b[4]}>" for b in asg] + [f"{u[0]} -> {u[4]}" for u in uns]) + '";']
    usable = byval
    bset = {(b[2], b[4]) for b in bins}
    aset = {(b[2], b[4]) for b in asg}
    uset = {u[2] for u in uns}
    used = {b[2] for b in bins[:2]} | {b[2] for b in asg[:2]}
    probe = [r for r in RH if not r.startswith("&mut")]
    pr = []
    for op in OPS:
        for rh in (probe if op[2] in used else ["i32"]):
            ct = RH[rh][2]
            # by value and by shared reference are one C++ operand type
            same = [r for r in RH if RH[r][2] == ct]
            if rh == "i32" and ((op[2], "opt") in bset or (op[2], "opt") in aset):
                continue          # optional<int32_t> takes the probe too
            wb = any((op[2], r) in bset for r in same) and usable
            wa = any((op[2], r) in aset for r in same)
            ex = "ExactRef" if any((op[2], "&mut Oth") in s for s in (bset, aset)) and ct == "Q::Oth" else "Exact"
            pr.append(f"P(\"{op[2]} {rh}\", {int(wb)}, ({op[2]}), {ex}, ({ct})) PA(\"{op[2]}= {rh}\", {int(wa)}, ({op[2]}=), {ex}, ({ct}))")
    for u in UN:
        pr.append(f"has(\"unary {u[2]}\", {int(u[2] in uset and usable)}, [&]<class X>(X*) {{ return requires(X x) {{ {u[2]}std::move(x); }}; }}((T*)nullptr));")
    cc.append("\n".join(pr))
    for (tr, me, sy, code, rh, out) in bins:
        if not usable: continue
        arg, rvv = RH[rh][3], RH[rh][4]
        n = code * 10000 + 500 + rvv
        want = n if out != "bool" else n % 2
        cc.append(f"{{ PREP T a(Q::mo{i}(5)); auto&& r = std::move(a) {sy} {arg}; eq(\"{sy} {rh}\", {want}, (long long)({OUT[out][2]})); }}")
    for (tr, me, sy, code, rh) in asg:
        if not byval and rh in ("Own",): pass
        arg, rvv = RH[rh][3], RH[rh][4]
        cc.append(f"{{ PREP T a(Q::mo{i}(5)); a {sy}= {arg}; eq(\"{sy}= {rh}\", {code * 20000 + 500 + rvv}, w{i}(&a)); }}")
    for (tr, me, sy, code, out) in uns:
        if not usable: continue
        n = code * 10000 + 5
        want = n if out != "bool" else n % 2
        cc.append(f"{{ T a(Q::mo{i}(5)); auto&& r = {sy}std::move(a); eq(\"unary {sy}\", {want}, (long long)({OUT[out][2]})); }}")
    cc.append("}")
    return "\n".join(rs), "\n".join(cc)


OPS_RS = r'''
#[derive(Clone, Copy)] pub struct Oth { pub w: i32 }
impl Oth { }
#[derive(Default)] pub struct Own { b: Vec<i32> }
pub fn mk_own(v: i32) -> Own { Own { b: vec![v] } } pub fn mk_oth(v: i32) -> Oth { Oth { w: v } } pub fn own_of(o: &Own) -> i32 { o.b[0] }
impl From<i32> for Oth { fn from(w: i32) -> Oth { Oth { w } } }
'''
OPS_CC = r'''
template <class T> struct un_; template <class T> struct un_<void(T)> { using type = T; };
#define P(W, WANT, OP, EX, CT) has(W, WANT, [&]<class X>(X*) { return requires(X x, EX<typename un_<void CT>::type> r) { std::move(x) UNP OP r; }; }((T*)nullptr));
#define PA(W, WANT, OP, EX, CT) has(W, WANT, [&]<class X>(X*) { return requires(X x, EX<typename un_<void CT>::type> r) { x UNP OP r; }; }((T*)nullptr));
#define UNP(...) __VA_ARGS__
#define PREP Q::Oth oth(22); (void)oth; Q::Own own(Q::mk_own(32)); (void)own; static const int32_t sl[2] = {51, 52}; (void)sl;
'''

# ------------------------------------------------------------------ part 3: conversions
# source/target: rust type, C++ type, rust: number of a value o, rust: make from number n, C++ make from 5, C++ read r
CV = {
    "i8": ("i8", "int8_t", "o as i64", "n as i8", "(int8_t)5", "r"), "i16": ("i16", "int16_t", "o as i64", "n as i16", "(int16_t)5", "r"),
    "i32": ("i32", "int32_t", "o as i64", "n as i32", "(int32_t)5", "r"), "i64": ("i64", "int64_t", "o as i64", "n", "(int64_t)5", "r"), "isize": ("isize", "intptr_t", "o as i64", "n as isize", "(intptr_t)5", "r"),
    "u8": ("u8", "uint8_t", "o as i64", "n as u8", "(uint8_t)5", "r"), "u32": ("u32", "uint32_t", "o as i64", "n as u32", "(uint32_t)5", "r"),
    "u64": ("u64", "uint64_t", "o as i64", "n as u64", "(uint64_t)5", "r"), "usize": ("usize", "uintptr_t", "o as i64", "n as usize", "(uintptr_t)5", "r"),
    "bool": ("bool", "bool", "o as i64 + 4", "n == 5", "true", "r + 4"), "f32": ("f32", "float", "o as i64", "n as f32", "5.0f", "r"), "f64": ("f64", "double", "o as i64", "n as f64", "5.0", "r"),
    "char": ("char", "rs_std::char_", "o as i64", "n as u8 as char", "*rs_std::char_::from_u32(5)", "uint32_t(r)"),
    "Oth": ("Oth", "Q::Oth", "o.w as i64", "Oth { w: n as i32 }", "Q::mk_oth(5)", "r.w"), "Own": ("Own", "Q::Own", "o.b[0] as i64", "mk_own(n as i32)", "Q::mk_own(5)", "Q::own_of(r)"),
    "String": ("String", "rs::alloc::string::String", "o.len() as i64", "\"x\".repeat(n as usize)", "Q::mk_str(5)", "r.as_str().size()"),
    "&str": ("&'static str", "rs_std::StrRef", "o.len() as i64", "&\"abcdefgh\"[..n as usize]", "rs_std::StrRef(\"abcde\")", "r.size()"),
    "arr": ("[u8; 2]", "(std::array<uint8_t, 2>)", "o[0] as i64 + o[1] as i64", "[n as u8 - 1, 1]", "std::array<uint8_t, 2>{2, 3}", "r[0] + r[1]"),
    "au64": ("[u64; 1]", "(std::array<uint64_t, 1>)", "o[0] as i64", "[n as u64]", "std::array<uint64_t, 1>{5}", "r[0]"), "ausize": ("[usize; 1]", "(std::array<uintptr_t, 1>)", "o[0] as i64", "[n as usize]", "std::array<uintptr_t, 1>{5}", "r[0]"),
    "tup": ("(i32, u8)", "(std::tuple<int32_t, uint8_t>)", "o.0 as i64 + o.1 as i64", "(n as i32 - 1, 1)", "std::tuple<int32_t, uint8_t>(2, 3)", "std::get<0>(r) + std::get<1>(r)"),
    "opt": ("Option<i32>", "std::optional<int32_t>", "o.unwrap() as i64", "Some(n as i32)", "std::optional<int32_t>(5)", "*r"),
    "ptr": ("*const i32", "const int32_t*", "unsafe { *o as i64 }", "unsafe { NUM.as_ptr().add(n as usize) }", "(const int32_t*)&five", "*r"),
    "vec": ("Vec<i32>", "rs_std::Vec<int32_t>", "o.len() as i64", "vec![0; n as usize]", "Q::mk_vec(5)", "r.size()"),
}
PREF = {"i32": "isize", "i64": "isize", "u32": "usize", "u64": "usize", "au64": "ausize"}


def cv_rows():
    rows = []
    ks = list(CV)
    for lh in ("copy", "movable", "clone", "unmovable", "enum"):
        for k in ks:
            rows += [(lh, [k], [], [], []), (lh, [], [k], [], []), (lh, [], [], [k], []), (lh, [], [], [], [k])]
        prs = list(itertools.combinations(ks, 2)) if THOROUGH or lh in ("copy", "movable") else [p for p in itertools.combinations(ks, 2) if {p[0], p[1]} & set(PREF)]
        for a, b in prs:
            rows.append((lh, [a, b], [a, b], [], []))            # From<a>, From<b> for T and From<T> for a and b
            rows.append((lh, [a], [b], [], []) if lh != "copy" else (lh, [], [], [a], [b]))
        rows.append((lh, ks, [], [], [])); rows.append((lh, [], ks, [], []))
        for x in (["i32", "i64", "isize"], ["u32", "u64", "usize"], ["u8", "u32", "u64"]):
            rows.append((lh, x, x, [], [])); rows.append((lh, list(reversed(x)), list(reversed(x)), [], []))
    return rows


def cv_present(ks, k):
    return k in ks and not (k in PREF and PREF[k] in ks)


def cv_row(i, t, crate):
    lh, frm, to, into, ffrom = t     # From<k> for T; From<T> for k; Into<k> for T; Into<T> for k
    decl, mk, rd, byval = LH[lh]
    N = f"V{i}"
    rs = [decl.format(N=N), f"pub fn mv{i}(v: i64) -> {N} {{ {mk.format(N=N)} }} #[unsafe(no_mangle)] extern \"C\" fn w{i}(x: *const {N}) -> i64 {{ unsafe {{ &*x }}.get() }} impl {N} {{ fn get(&self) -> i64 {{ {rd.format(N=N)} }} }}"]
    ix = {k: j for j, k in enumerate(CV)}
    for k in frm:
        rs.append(f"impl From<{CV[k][0]}> for {N} {{ fn from(o: {CV[k][0]}) -> Self {{ let v: i64 = {ix[k]} * 1000 + {CV[k][2]}; {mk.format(N=N)} }} }}")
    for k in ffrom:
        rs.append(f"impl Into<{N}> for {CV[k][0]} {{ fn into(self) -> {N} {{ let o = self; let v: i64 = {ix[k]} * 1000 + {CV[k][2]}; {mk.format(N=N)} }} }}")
    for k in to:
        rs.append(f"impl From<{N}> for {CV[k][0]} {{ fn from(x: {N}) -> Self {{ let n: i64 = x.get(); {CV[k][3]} }} }}")
    for k in into:
        rs.append(f"impl Into<{CV[k][0]}> for {N} {{ fn into(self) -> {CV[k][0]} {{ let n: i64 = self.get(); {CV[k][3]} }} }}")
    cc = [f'extern "C" int64_t w{i}(const void*);', f'ROW({i}) {{ using T = Q::{N}; static const int32_t five = 5; (void)five; g_cur = "{lh} type; ' +
          "; ".join(f"{nm} {', '.join(x)}" for nm, x in (("From<..> for T:", frm), ("From<T> for", to), ("Into<..> for T:", into), ("Into<T> for", ffrom)) if x) + '";']
    ins, outs = frm + ffrom, to + into
    for k in CV:
        ct = CV[k][1]
        cts = ct[1:-1] if ct.startswith("(") else ct
        w = cv_present(ins, k)
        # another present source type with the same C++ type (isize and i64) answers for this one too
        w |= any(cv_present(ins, j) and alias(j) == alias(k) for j in CV)
        wo = (cv_present(outs, k) or any(cv_present(outs, j) and alias(j) == alias(k) for j in CV)) and byval
        if not (k == "i32" and "opt" in ins):     # optional<int32_t> takes the probe too
            cc.append(f"CVI(\"construct from {k}\", {int(w)}, ({ct}))")
        cc.append(f"CVO(\"convert to {k}\", {int(wo)}, ({ct}))")
        if cv_present(ins, k):
            cc.append(f"if constexpr (cvi<T, {cts}>) {{ T a({CV[k][4]}); eq(\"constructed from {k}\", {ix[k] * 1000 + 5}, w{i}(&a)); }}")
        if cv_present(outs, k) and byval:
            cc.append(f"if constexpr (cvo<T, {cts}>) {{ T a(Q::mv{i}(5)); {cts} r = static_cast<{cts}>(std::move(a)); eq(\"converted to {k}\", 5, (long long)({CV[k][5]})); }}")
    cc.append("}")
    return "\n".join(rs), "\n".join(cc)


def alias(k):
    return {"isize": "i64", "usize": "u64", "ausize": "au64"}.get(k, k)


CV_RS = OPS_RS + '''
static NUM: [i32; 8] = [0, 1, 2, 3, 4, 5, 6, 7];
pub fn mk_str(n: usize) -> String { "x".repeat(n) } pub fn mk_vec(n: usize) -> Vec<i32> { vec![0; n] }
'''
CV_CC = r'''
template <class T> struct un_; template <class T> struct un_<void(T)> { using type = T; };
template <class T, class X> constexpr bool cvi = requires(Exact<X> x) { T(x); };
template <class T, class X> constexpr bool cvo = requires(T t) { { std::move(t).operator X() } -> std::same_as<X>; };
#define CVI(W, WANT, CT) has(W, WANT, cvi<T, typename un_<void CT>::type>);
#define CVO(W, WANT, CT) has(W, WANT, cvo<T, typename un_<void CT>::type>);
'''

# ------------------------------------------------------------------ part 4: comparisons with other types, indexing, text
def misc():
    rs, cc = [], []
    i = 0
    rhs = {"i32": ("i32", "*o as i64", "int32_t", "(int32_t)%d"), "f64": ("f64", "*o as i64", "double", "(double)%d"), "Oth": ("Oth", "o.w as i64", "Q::Oth", "Q::mk_oth(%d)"), "Own": ("Own", "o.b[0] as i64", "Q::Own", "Q::mk_own(%d)"),
           "&str": ("&str", "o.len() as i64", "rs_std::StrRef", "rs_std::StrRef(std::string_view(\"aaaaaaaaa\", %d))"), "bool": ("bool", "*o as i64", "bool", "bool(%d)")}
    # every pair (PartialEq set, PartialOrd set) of right-hand types, PartialOrd only where PartialEq exists
    names = list(rhs)
    for a in range(1 << len(names)):
        sub = [n for j, n in enumerate(names) if a >> j & 1]
        if len(sub) > (3 if THOROUGH else 2) and len(sub) != len(names): continue
        for b in range(1 << len(sub)):
            po = [n for j, n in enumerate(sub) if b >> j & 1]
            N = f"M{i}"
            rs.append(f"pub struct {N} {{ pub v: i64 }} pub fn mm{i}(v: i64) -> {N} {{ {N} {{ v }} }}")
            for n in sub: rs.append(f"impl PartialEq<{rhs[n][0]}> for {N} {{ fn eq(&self, o: &{rhs[n][0]}) -> bool {{ self.v == {rhs[n][1]} + 1 }} }}")
            for n in po: rs.append(f"impl PartialOrd<{rhs[n][0]}> for {N} {{ fn partial_cmp(&self, o: &{rhs[n][0]}) -> Option<std::cmp::Ordering> {{ let w = {rhs[n][1]}; if w == 1 && self.v == 1 {{ None }} else {{ (self.v * 2).partial_cmp(&w) }} }} }}")
            s = f'ROW({i}) {{ using T = Q::{N}; g_cur = "PartialEq<{"|".join(sub)}>, PartialOrd<{"|".join(po)}>"; has("equality with itself", false, has_eq<T>); has("order with itself", false, has_lt<T>); '
            for n in names:
                rt, rv, ct, mkc = rhs[n]
                s += f'has("== {n}", {int(n in sub)}, [&]<class X>(X*) {{ return requires(const X& x, Exact<{ct}> r) {{ x == r; }}; }}((T*)nullptr)); has("< {n}", {int(n in po)}, [&]<class X>(X*) {{ return requires(const X& x, Exact<{ct}> r) {{ x < r; }}; }}((T*)nullptr)); '
                vals = "0, 1" if n == "bool" else "0, 1, 2, 3"
                if n == "&str": continue   # `&&str` operands are only checked for presence
                if n in sub:
                    s += f'for (int v : {{0, 1, 2}}) for (int w : {{{vals}}}) {{ const T a(Q::mm{i}(v)); const auto& o = {mkc % 0 if False else mkc.replace("%d", "w")}; eq("== {n}", v == w + 1, a == o); eq("!= {n}", v != w + 1, a != o); eq("reversed ==", v == w + 1, o == a); }} '
                if n in po:
                    s += f'for (int v : {{0, 1, 2}}) for (int w : {{{vals}}}) {{ const T a(Q::mm{i}(v)); const auto& o = {mkc.replace("%d", "w")}; bool un = w == 1 && v == 1; eq("< {n}", !un && 2 * v < w, a < o); eq("> {n}", !un && 2 * v > w, a > o); eq("<= {n}", !un && 2 * v <= w, a <= o); eq(">= {n}", !un && 2 * v >= w, a >= o); eq("reversed <", !un && w < 2 * v, o < a); }} '
            cc.append(s + "}")
            i += 1
    # indexing
    idx = {"usize": ("usize", "i", "uintptr_t", "(uintptr_t)2"), "u64": ("u64", "i as usize", "uint64_t", "(uint64_t)2"), "u32": ("u32", "i as usize", "uint32_t", "(uint32_t)2"), "i32": ("i32", "i as usize", "int32_t", "(int32_t)2"),
           "u8": ("u8", "i as usize", "uint8_t", "(uint8_t)2"), "&str": ("&str", "i.len()", "rs_std::StrRef", "rs_std::StrRef(\"ab\")"), "Oth": ("Oth", "i.w as usize", "Q::Oth", "Q::mk_oth(2)"), "tup": ("(u8, u8)", "(i.0 + i.1) as usize", "(std::tuple<uint8_t, uint8_t>)", "std::tuple<uint8_t, uint8_t>(1, 1)")}
    combos = [(a, m) for k in (1, 2) for a in itertools.combinations(idx, k) for m in (0, 1)]
    for a, m in combos:
        N = f"M{i}"
        rs.append(f"pub struct {N} {{ d: [i32; 32] }} pub fn mm{i}(v: i32) -> {N} {{ let mut d = [0; 32]; for j in 0..32 {{ d[j] = v + j as i32 }} {N} {{ d }} }}")
        js = {k: j for j, k in enumerate(idx)}
        for k in a:
            rs.append(f"impl std::ops::Index<{idx[k][0]}> for {N} {{ type Output = i32; fn index(&self, i: {idx[k][0]}) -> &i32 {{ &self.d[{js[k]} * 3 + {idx[k][1]} ] }} }}")
            if m: rs.append(f"impl std::ops::IndexMut<{idx[k][0]}> for {N} {{ fn index_mut(&mut self, i: {idx[k][0]}) -> &mut i32 {{ &mut self.d[{js[k]} * 3 + {idx[k][1]} + 1] }} }}")
        pres = [k for k in a if not (k in ("u32", "u64") and "usize" in a)]
        s = f'ROW({i}) {{ using T = Q::{N}; g_cur = "Index<{"|".join(a)}>{" with IndexMut" if m else ""}"; '
        al = {"usize": "u64"}
        for k in idx:
            rt, rv, ct, arg = idx[k]
            w = any(al.get(p, p) == al.get(k, k) for p in pres)
            s += f'has("const [{k}]", {int(w)}, [&]<class X>(X*) {{ return requires(const X& x, Exact<typename un_<void({ct})>::type> r) {{ {{ x[r] }} -> std::same_as<const int32_t&>; }}; }}((T*)nullptr)); '
            s += f'has("[{k}] gives a mutable reference", {int(w and m)}, [&]<class X>(X*) {{ return requires(X& x, Exact<typename un_<void({ct})>::type> r) {{ {{ x[r] }} -> std::same_as<int32_t&>; }}; }}((T*)nullptr)); '
            if k in pres:
                s += f'{{ T a(Q::mm{i}(100)); const T& c = a; eq("const [{k}]", {100 + js[k] * 3 + 2}, c[{arg}]); eq("[{k}]", {100 + js[k] * 3 + 2 + m}, a[{arg}]); '
                if m: s += f'a[{arg}] = 7; eq("write through [{k}]", 7, a[{arg}]); '
                s += "} "
        cc.append(s + "}"); i += 1
    # text
    texts = ["", "x", "hello world", "\\u{e9}\\u{1f600}", "a\\0b", "line\\nline\\t\\\"q\\\"", "%s %d {}", "z" * 3000]
    for lh in LH:
        for how in ("none", "Display", "Debug", "Display+Debug", "Display in pieces", "ToString via Display of a field"):
            N = f"M{i}"
            rs.append(LH[lh][0].format(N=N) + f" pub fn mm{i}(v: i64) -> {N} {{ {LH[lh][1].format(N=N)} }} impl {N} {{ fn get(&self) -> i64 {{ {LH[lh][2].format(N=N)} }} }}")
            if "Debug" in how: rs.append(f"impl std::fmt::Debug for {N} {{ fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {{ f.write_str(\"debug\") }} }}")
            if how in ("Display", "Display+Debug"): rs.append(f"impl std::fmt::Display for {N} {{ fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {{ f.write_str(TEXTS[self.get() as usize]) }} }}")
            if how == "Display in pieces": rs.append(f"impl std::fmt::Display for {N} {{ fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ for c in TEXTS[self.get() as usize].chars() {{ write!(f, \"{{}}\", c)? }} Ok(()) }} }}")
            if how.startswith("ToString"): rs.append(f"impl std::fmt::Display for {N} {{ fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {{ std::fmt::Display::fmt(TEXTS[self.get() as usize], f) }} }}")
            w = int("Display" in how)
            s = f'ROW({i}) {{ using T = Q::{N}; g_cur = "text, {lh} type, {how}"; has("operator<<", {w}, has_text<T>); has("AbslStringify", {w}, [&]<class X>(X*) {{ return requires(Sink& k, const X& x) {{ AbslStringify(k, x); }}; }}((T*)nullptr)); '
            if w:
                s += f'for (int v = 0; v < {len(texts)}; v++) {{ const T a(Q::mm{i}(v)); std::string_view want(text_data(v), text_len(v)); std::ostringstream o; std::ostream& r = o << a; eq("operator<< returns the stream", 1, &r == &o); eq("text of operator<<", 1, o.str() == want); o << 1; eq("text after it", 1, o.str() == std::string(want) + "1"); Sink k; AbslStringify(k, a); eq("text of AbslStringify", 1, k.s == want); }} '
            cc.append(s + "}"); i += 1
    rs.append("static TEXTS: [&str; %d] = [%s];\n#[unsafe(no_mangle)] extern \"C\" fn text_data(i: usize) -> *const u8 { TEXTS[i].as_ptr() } #[unsafe(no_mangle)] extern \"C\" fn text_len(i: usize) -> usize { TEXTS[i].len() }" % (len(texts), ", ".join(f'"{t}"' for t in texts)))
    return rs, cc


MISC_CC = r'''
template <class T> struct un_; template <class T> struct un_<void(T)> { using type = T; };
struct Sink { std::string s; void Append(std::string_view v) { s.append(v); } void Append(size_t n, char c) { s.append(n, c); } };
extern "C" const char* text_data(size_t); extern "C" size_t text_len(size_t);
'''


def check(chk):
    chk.coverage["rule"] = "one case = one type with one set of trait implementations; evaluations are the presence questions put to the compiler plus the operations executed"
    chk.assumptions.append("operators that exist in C++ only by rewriting (== and < with operands reversed) are not counted as extra operations")
    e = E2E(chk)
    parts = []
    ct = caps_types()
    nc = 4
    for t in range(nc):
        rows = [caps_row(j, x, f"cap{t}") for j, x in enumerate(ct) if j % nc == t]
        parts.append((f"cap{t}", "\n".join(r for r, _ in rows), CC, [c for _, c in rows]))
    orow = op_rows()
    no = 4
    for t in range(no):
        rows = [op_row(j, x, f"ops{t}") for j, x in enumerate(orow) if j % no == t]
        parts.append((f"ops{t}", OPS_RS + "\n".join(r for r, _ in rows), CC + OPS_CC, [c for _, c in rows]))
    vrow = cv_rows()
    nv = 4
    for t in range(nv):
        rows = [cv_row(len(orow) + j, x, f"cnv{t}") for j, x in enumerate(vrow) if j % nv == t]
        parts.append((f"cnv{t}", CV_RS + "\n".join(r for r, _ in rows), CC + CV_CC, [c for _, c in rows]))
    mrs, mcc = misc()
    parts.append(("msc", OPS_RS + "\n".join(mrs), CC + MISC_CC, mcc))
    total = len(ct) + len(orow) + len(vrow) + len(mcc)
    chk.count(distinct_nontrivial=total)
    chk.sample({"capabilities": [" / ".join(map(str, x)) for x in ct[7::len(ct) // 5]], "operators": [str(x) for x in orow[11::len(orow) // 4]], "conversions": [str(x) for x in vrow[9::len(vrow) // 4]]})
    crates, tus = [], []
    pat = re.compile(r"^ROW\((\d+)\)", re.M)
    for name, rs, pre, ccs in parts:
        crates.append((name, "#![allow(warnings)]\n" + rs))
        for h in range(2):
            part = ccs[h::2]
            body = "\n".join(part)
            tus.append(f'#include "{name}.h"\n' + pre + f"namespace Q = ::{name};\nnamespace {{\n" .replace("namespace {\n", "") + body + f"\nvoid run_{name}_{h}() {{ " + " ".join(f"r{n}();" for n in pat.findall(body)) + " }\n")
    mainsrc = "".join(f'#include "{n}.h"\n' for n, *_ in parts[:0]) + CC.replace("#define ROW(N) static void r##N()", "") + MAIN_CC + "".join(f"void run_{n}_{h}();" for n, *_ in parts for h in range(2)) + \
        "\nint main(int argc, char** argv) { int p = argc > 1 ? atoi(argv[1]) : 0; switch (p) {" + "".join(f"case {j}: run_{n}_0(); run_{n}_1(); break; " for j, (n, *_) in enumerate(parts)) + \
        "} printf(\"STAT evaluations=%ld\\nSTAT presence_checked=%ld\\nSTAT operations_executed=%ld\\nDONE\\n\", g_eval + g_pres, g_pres, g_eval); }\n"
    exe, err = e.build(os.path.join(chk.dir, "x"), crates, mainsrc, extra_cc=tus, independent=True)
    if err:
        chk.violation(f"build:{err[0]}", f"bindings of types with these traits do not build ({err[0]}):\n{err[1]}")
        return
    chk.log("built")
    for (n, *_), r in zip(parts, pmap(lambda j: run_exe(exe, [str(j)], timeout=400), range(len(parts)))):
        judge_harness(chk, n, r)


main(check, "C09", "exploration")
