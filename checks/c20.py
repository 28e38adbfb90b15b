#!/usr/bin/env python3
"""C20: every byte string of the bounds through StrRef, every code point through char_, consteval construction decided
by the compiler, executed with real generated bindings (harness/cpp/c20.h)."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import itertools

RUST = """#![allow(warnings)]
pub fn hash(s: &str) -> u64 { let mut h = s.len() as u64; for b in s.as_bytes() { h = h.wrapping_mul(31).wrapping_add(*b as u64); } if std::str::from_utf8(s.as_bytes()).is_err() || s.chars().map(|c| c.len_utf8()).sum::<usize>() != s.len() { h = !0; } h }
pub fn is_null(s: &str) -> bool { std::hint::black_box(s.as_ptr() as usize) == 0 }
pub fn sub<'a>(s: &'a str, i: usize, j: usize) -> &'a str { &s[i..j] }
pub fn eq(a: &str, b: &str) -> bool { a == b }
pub fn slt(a: &str, b: &str) -> bool { a < b }
pub fn code(c: char) -> u32 { let c = std::hint::black_box(c); c as u32 }
pub fn make(c: u32) -> char { char::from_u32(c).unwrap() }
pub fn lt(a: char, b: char) -> bool { a < b }
"""


def consteval_tu():
    """literals: accepted in a constant expression exactly when valid"""
    alpha = ["41", "7f", "80", "8f", "90", "9f", "a0", "bf", "c0", "c2", "df", "e0", "e1", "ed", "ee", "ef", "f0", "f1", "f4", "f5", "ff"]
    lits = []
    for n in (0, 1, 2):
        lits += list(itertools.product(alpha, repeat=n))
    lits += list(itertools.product([a for a in alpha if a >= "e0"][:7], ["7f", "80", "8f", "90", "9f", "a0", "bf", "c0"], ["80", "bf", "41", "c2"]))
    lits += list(itertools.product(["f0", "f1", "f4", "f5"], ["7f", "80", "8f", "90", "bf", "c0"], ["80", "bf", "7f"], ["80", "bf", "c0"]))
    lits += [("41",) + x for x in lits[-60:]] + [("e2", "82", "ac", y) for y in alpha] + [("00",), ("00", "80"), ("41", "00", "c3", "a9")]
    def ok(b):
        try:
            bytes(int(x, 16) for x in b).decode("utf-8", "strict")
            return True
        except UnicodeDecodeError:
            return False
    out = ["template <size_t N> struct Lit { char b[N]; constexpr Lit(const char (&s)[N]) { for (size_t i = 0; i < N; i++) b[i] = s[i]; } constexpr string_view v() const { return string_view(b, N - 1); } };",
           "template <auto> struct Use {};",
           "template <Lit L> concept Takes = requires { typename Use<StrRef(L.v()).size()>; };",
           "template <Lit L> concept TakesPtr = requires { typename Use<StrRef(static_cast<const char*>(L.b)).size()>; };",
           "template <auto C> concept TakesChar = requires { typename Use<static_cast<uint32_t>(rs_std::char_{C})>; };",
           "template <Lit L> constexpr bool same() { if constexpr (Takes<L>) { constexpr StrRef s(L.v()); return s.to_string_view() == L.v() && s.size() == L.v().size(); } else return true; }",
           "template <auto C> constexpr uint32_t val() { if constexpr (TakesChar<C>) return static_cast<uint32_t>(rs_std::char_{C}); else return 0xdead0000; }",
           "static void literals() {"]
    for b in lits:
        t = '"' + "".join(f"\\x{x}\" \"" for x in b) + '"'
        want = "true" if ok(b) else "false"
        ptr = f", TakesPtr<{t}>" if "00" not in b else f", {want}"
        out.append(f"  lit({want}, Takes<{t}>{ptr}, same<{t}>(), \"{' '.join(b)}\");")
    chars = [(f"char({i if i < 128 else i - 256})", i < 128, i) for i in range(256)] + [(f"char8_t({i})", True, i) for i in range(256)]
    near = lambda xs, hi: sorted({x + d for x in xs for d in (-2, -1, 0, 1, 2) if 0 <= x + d <= hi})
    sc = lambda c: c < 0xd800 or 0xdfff < c < 0x110000
    chars += [(f"char16_t({i})", sc(i), i) for i in near([0, 0x41, 0x7f, 0xff, 0x7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffe, 0xffff, 0xd900, 0xde00], 0xffff)]
    chars += [(f"char32_t({i})", sc(i), i) for i in near([0, 0x41, 0x7f, 0xff, 0x7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x1fffff, 0x7fffffff, 0xffffffff, 0x10d800], 0xffffffff)]
    for t, want, i in chars:
        out.append(f"  chr({'true' if want else 'false'}, TakesChar<{t}>, {i}u, val<{t}>(), \"{t}\");")
    out.append("}")
    return "\n".join(out), len(lits) + len(chars)


FNS = """
static void lit(bool want, bool got, bool ptr, bool same, const char* what) {
  evals++; accepted++;
  if (got != want || ptr != want) vmc::viol(string("literal ") + what, string("a StrRef from a literal of the bytes ") + what + (got != want ? " (view)" : " (pointer)") + (want ? " does not compile" : " compiles"));
  if (!same) vmc::viol(string("literal value ") + what, string("the StrRef of the literal ") + what + " has other bytes");
}
static void chr(bool want, bool got, uint32_t c, uint32_t val, const char* what) {
  evals++; accepted++;
  if (got != want) vmc::viol(string("char literal ") + what, string("char_ from ") + what + (want ? " does not compile" : " compiles"));
  else if (want && val != c) vmc::viol(string("char literal value ") + what, string("char_ from ") + what + " is " + U(val));
}
"""
MAIN = """
int main(int argc, char** argv) {
  string m = argv[1];
  if (m == "strings") strings(atoi(argv[2]), atoi(argv[3]));
  if (m == "chars") { chars(strtoull(argv[2], 0, 0), strtoull(argv[3], 0, 0), atoi(argv[4])); }
  if (m == "rest") { char_ops(); pairs(); literals(); }
  vmc::stat("evaluations", evals);
  vmc::stat("distinct_nontrivial", accepted);
  return vmc::done();
}
"""


def check(chk):
    chk.coverage["rule"] = "one case = one byte string, code unit, pair of strings or literal; the accepted ones (which are then compared on both sides) are counted as non-trivial"
    e = E2E(chk)
    d = fresh_dir(os.path.join(chk.dir, "e"))
    tu, n = consteval_tu()
    cc = '#include "h.h"\n#include "c20.h"\n' + FNS + tu + MAIN
    exe, err = e.build(d, [("h", RUST)], cc, cc_flags=["-O1", "-I" + os.path.join(VERIF, "harness/cpp")], pch=False, rust_flags=["-Copt-level=1"])
    if not exe:
        chk.violation("build", f"a program that uses StrRef and char_ as documented does not compile ({err[0]}):\n" + err[1][-3000:])
        return
    chk.log("built")
    jobs = [["rest"], ["chars", "0", "0x60000", "1"], ["chars", "0x60000", "0xb0000", "1"], ["chars", "0xb0000", "0x111000", "1"]]
    jobs += [["strings", str(i * 16), str(i * 16 + 16)] for i in range(14)] + [["strings", str(i), str(i + 2)] for i in range(0xe0, 256, 2)]
    step = 1 << 28
    jobs += [["chars", str(i * step), str((i + 1) * step), "0"] for i in range(16)]
    for j, r in zip(jobs, pmap(lambda j: run_exe(exe, j, timeout=700), jobs)):
        judge_harness(chk, "c20 " + " ".join(j), r)
    chk.sample([f"literal {i}" for i in ("41 c3 a9", "ed a0 80", "f4 90 80 80")] + ["char32_t(0xd7ff)", "pair 'a\\0' / 'a' compared with ==, !=, <, <=, >, >= as StrRef, view and C string"])


main(check, "C20", "exploration")
