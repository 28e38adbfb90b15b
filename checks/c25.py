#!/usr/bin/env python3
"""C25: histories over rs::Movable, crubit::Slot and crubit::MemSwap, for C++ types with every mix of operations
(harness/cpp/c25.cc) and for generated bindings of Rust types with every mix of Drop, Default, Clone, Copy."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

SHAPES = {"Dn": "", "Dd": "d", "Dc": "c", "Dcd": "cd", "Pn": "n", "Pd": "nd", "Pc": "nc", "Cp": "ncC", "Wide": "dw", "Vd": "dv", "Ed": "de"}

RUST = """#![allow(warnings)]
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
static LIVE: AtomicI64 = AtomicI64::new(0);
static TWICE: AtomicI64 = AtomicI64::new(0);
static TOK: std::sync::Mutex<std::collections::BTreeSet<u64>> = std::sync::Mutex::new(std::collections::BTreeSet::new());
static NEXT: AtomicI64 = AtomicI64::new(1);
fn born() -> u64 { let t = NEXT.fetch_add(1, SeqCst) as u64; TOK.lock().unwrap().insert(t); LIVE.fetch_add(1, SeqCst); t }
fn died(t: u64) { if TOK.lock().unwrap().remove(&t) { LIVE.fetch_sub(1, SeqCst); } else { TWICE.fetch_add(1, SeqCst); } }
pub fn live() -> i64 { LIVE.load(SeqCst) }
pub fn twice() -> i64 { TWICE.swap(0, SeqCst) }
pub fn reset() { TOK.lock().unwrap().clear(); LIVE.store(0, SeqCst); TWICE.store(0, SeqCst); }
"""


def shape(n, f):
    w = ", pad: [u64; 13]" if "w" in f else ", v: Vec<u8>" if "v" in f else ""
    wi = ", pad: [7; 13]" if "w" in f else ", v: vec![7; 3]" if "v" in f else ""
    if "e" in f:
        s = f"pub enum {n} {{ A(i32, u64), B {{ id: i32, t: u64 }} }} impl {n} {{ pub fn make(id: i32) -> {n} {{ if id % 2 == 0 {{ {n}::A(id, born()) }} else {{ {n}::B {{ id, t: born() }} }} }} pub fn id(&self) -> i32 {{ match self {{ {n}::A(i, _) => *i, {n}::B {{ id, .. }} => *id }} }} pub fn set(&mut self, v: i32) {{ match self {{ {n}::A(i, _) => *i = v, {n}::B {{ id, .. }} => *id = v }} }} }}"
        s += f" impl Drop for {n} {{ fn drop(&mut self) {{ died(match self {{ {n}::A(_, t) => *t, {n}::B {{ t, .. }} => *t }}) }} }}"
    else:
        tok = "0" if "n" in f else "born()"
        s = ("#[derive(Clone, Copy)] " if "C" in f else "") + f"pub struct {n} {{ id: i32, t: u64{w} }} impl {n} {{ pub fn make(id: i32) -> {n} {{ {n} {{ id, t: {tok}{wi} }} }} pub fn id(&self) -> i32 {{ self.id }} pub fn set(&mut self, v: i32) {{ self.id = v; }} }}"
        if "n" not in f:
            s += f" impl Drop for {n} {{ fn drop(&mut self) {{ died(self.t) }} }}"
    if "d" in f: s += f" impl Default for {n} {{ fn default() -> {n} {{ {n}::make(0) }} }}"
    if "c" in f and "C" not in f: s += f" impl Clone for {n} {{ fn clone(&self) -> {n} {{ {n}::make(self.id()) }} }}"
    return s


CC = """#include "h.h"
#include <cstdio>
#include "c25.h"
template <typename X, const char* N, int kOwns, int kMoved> struct Ad {
  using T = X;
  static constexpr int kDefault = 0;
  static constexpr bool kArray = false, kTake = true;
  static std::string name() { return N; }
  static T* make(void* p, int id) { return new (p) T(T::make(id)); }
  static int id(const T& t) { return t.id(); }
  static void set(T& t, int v) { t.set(v); }
  static int moved(int m) { return kMoved == 0 ? 0 : m; }
  static long live() { long n = h::twice(); return n ? -1000 * n : h::live(); }
  static int counted(int) { return kOwns; }
  static void reset() { h::reset(); }
};
"""


def check(chk):
    chk.coverage["rule"] = "one case = a complete history of wrapper, slot or swap operations on one value type; histories cut at an operation whose precondition fails are evaluations only"
    e = E2E(chk)
    d = fresh_dir(os.path.join(chk.dir, "rust"))
    src = RUST + "\n".join(shape(n, f) for n, f in SHAPES.items()) + "\n"
    dd, td = (5, 7) if THOROUGH else (4, 6)
    cc, body = CC, ""
    for n, f in SHAPES.items():
        # a move from a type with Default leaves the default; a type without drop glue is copied by a move
        moved = 0 if "d" in f and "n" not in f else 1
        cc += f'static const char n_{n}[] = "Rust {n}";\n'
        body += f"  {{ using A = Ad<h::{n}, n_{n}, {0 if 'n' in f else 1}, {moved}>; c25::movable<A>({dd}, 2); c25::movable<A>({dd} - 1, 3); c25::slot<A>({td}); c25::memswap<A>(3); }}\n"
    cc += "int main() {\n" + body + "  return vmc::done();\n}\n"
    mixed(chk, "c25", san="address,undefined")
    exe, err = e.build(d, [("h", src)], cc, cc_flags=["-I" + os.path.join(VERIF, "harness/cpp")])
    if not exe:
        chk.violation("rust bindings", "bindings of a crate of plain types or the use of Movable and Slot with them does not compile:\n" + err[1][-3000:])
        return
    judge_harness(chk, "c25-rust", run_exe(exe, timeout=600))


main(check, "C25", "exploration")
