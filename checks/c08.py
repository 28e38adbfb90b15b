#!/usr/bin/env python3
"""C08: every list of parameter kinds up to a length, every placement of their memory in a small arena;
the call must abort before the Rust body runs exactly when a mutable range meets another range."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import itertools

# kind: (rust type, role m=mutable s=shared n=not checked, element size, fixed count or None for slices, C++ argument from place p)
KINDS = {
    "m": ("&mut u8", "m", 1, 1, "*P(p)"),
    "s": ("&u8", "s", 1, 1, "*P(p)"),
    "M": ("&mut [u8; 2]", "m", 2, 1, "*(std::array<uint8_t, 2>*)P(p)"),
    "A": ("&[u8; 2]", "s", 2, 1, "*(std::array<uint8_t, 2>*)P(p)"),
    "X": ("&mut S3", "m", 3, 1, "::ref(*(al::S3*)P(p))"),
    "x": ("&S3", "s", 3, 1, "::ref(*(al::S3*)P(p))"),
    "L": ("&mut [u8]", "m", 1, None, "rs_std::SliceRef<uint8_t>(std::span<uint8_t>(P(p), p.n))"),
    "l": ("&[u8]", "s", 1, None, "rs_std::SliceRef<const uint8_t>(std::span<const uint8_t>(P(p), p.n))"),
    "K": ("&mut [u8]", "m", 1, None, "al::mk_mut(P(p), p.n)"),      # as Rust made it: empty ones keep their address
    "k": ("&[u8]", "s", 1, None, "al::mk_shared(P(p), p.n)"),
    "W": ("&mut [[u8; 2]]", "m", 2, None, "rs_std::SliceRef<std::array<uint8_t, 2>>(std::span<std::array<uint8_t, 2>>((std::array<uint8_t, 2>*)P(p), p.n))"),
    "w": ("&[[u8; 2]]", "s", 2, None, "rs_std::SliceRef<const std::array<uint8_t, 2>>(std::span<const std::array<uint8_t, 2>>((std::array<uint8_t, 2>*)P(p), p.n))"),
    "Z": ("&mut [u8; 0]", "m", 0, 1, "al::mk_zero(P(p))"),
    "z": ("&[u8; 0]", "s", 0, 1, "*(std::array<uint8_t, 0>*)P(p)"),
    "T": ("&str", "s", 1, None, "rs_std::StrRef::FromUtf8Unchecked(std::string_view((char*)P(p), p.n))"),
    "v": ("u8", "n", 1, 0, "(uint8_t)1"),
    "p": ("*mut u8", "n", 1, 1, "P(p)"),
    "c": ("&std::cell::Cell<u8>", "n", 1, 1, "::ref(*(C*)P(p))"),
    # self, only in first position
    "1": ("&mut self", "m", 3, 1, ""),
    "2": ("&self", "s", 3, 1, ""),
    "3": ("self", "n", 3, 0, ""),
}
DROP = ("c",)


def sigs():
    k1 = [k for k in KINDS if k not in "123" and k not in DROP]
    out = [(k,) for k in k1 + ["1", "2"]]
    out += list(itertools.product(k1 + ["1", "2", "3"], k1))
    k3 = ["m", "s", "M", "A", "K", "l", "W", "T", "p"] if not THOROUGH else ["m", "s", "M", "A", "X", "K", "l", "k", "W", "T", "Z", "p"]
    out += list(itertools.product(k3 + ["1", "2"], k3, k3))
    k4 = ["m", "s", "K", "k", "v"] if not THOROUGH else ["m", "s", "K", "k", "A", "v"]
    out += list(itertools.product(k4 + ["1", "2"], k4, k4, k4))
    k5 = ["m", "K", "k"]
    out += list(itertools.product(k5, repeat=5))
    out += list(itertools.product(["K", "k"], repeat=6))
    return out


def arena(n):
    """bytes of the arena for n parameters"""
    return {1: 8, 2: 8, 3: 5, 4: 4, 5: 3, 6: 2}[n] if not THOROUGH else {1: 8, 2: 8, 3: 6, 4: 4, 5: 3, 6: 2}[n]


MAIN_PRE = r'''
#include "al.h"
#include <csetjmp>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
struct Pl { int at, n; };
struct Kd { char c, role; int size, count; };
extern unsigned char g_arena[32]; extern sigjmp_buf g_j;
template <class T> struct RT { T& r; operator T&() const { return r; } operator T*() const { return &r; } };
template <class T> RT<T> ref(T& t) { return {t}; }
static inline unsigned char* P(const Pl& p) { return g_arena + 8 + p.at; }
void run(const char* sig, int k, const Kd* kd, int arena, void (*f)(const Pl*));
'''
MAIN = r'''
alignas(16) unsigned char g_arena[32]; sigjmp_buf g_j;
extern "C" { extern uint32_t AL_RAN; extern uint32_t AL_SUM; }
static long g_eval, g_sigs, g_abort, g_through; static int g_bad;
static void on_sig(int) { siglongjmp(g_j, 1); }
void run(const char* sig, int k, const Kd* kd, int arena, void (*f)(const Pl*)) {
  g_sigs++;
  std::vector<Pl> opts[8];
  for (int i = 0; i < k; i++) {
    if (kd[i].count == 0) opts[i].push_back({0, 0});
    else if (kd[i].count == 1) for (int a = 0; a + kd[i].size <= arena; a++) opts[i].push_back({a, 1});
    else for (int a = 0; a <= arena; a++) for (int n = 0; a + n * kd[i].size <= arena; n++) opts[i].push_back({a, n});
  }
  if (opts[0].empty()) return;
  for (int i = 0; i < k; i++) if (opts[i].empty()) return;
  int ix[8] = {0}; Pl pl[8];
  for (;;) {
    for (int i = 0; i < k; i++) pl[i] = opts[i][ix[i]];
    bool want = false;
    for (int i = 0; i < k; i++) if (kd[i].role == 'm') for (int j = 0; j < k; j++) if (j != i && kd[j].role != 'n') {
      int a = pl[i].at, b = a + pl[i].n * kd[i].size, c = pl[j].at, d = c + pl[j].n * kd[j].size;
      for (int x = a; x < b; x++) if (x >= c && x < d) want = true;   // a byte that belongs to both
    }
    g_eval++;
    AL_RAN = 0;
    bool got;
    if (sigsetjmp(g_j, 0)) got = true; else { f(pl); got = false; }
    (got ? g_abort : g_through)++;
    if (got != want || AL_RAN != (want ? 0u : 1u)) {
      if (g_bad++ < 30) {
        printf("VIOL %s", sig);
        for (int i = 0; i < k; i++) printf(" %c@%d+%d", kd[i].c, pl[i].at, pl[i].n * kd[i].size);
        printf("\tparameters (%s) at", sig);
        for (int i = 0; i < k; i++) printf(" [%d,%d)", pl[i].at, pl[i].at + pl[i].n * kd[i].size);
        printf(": expected %s, %s, body ran %u times\n", want ? "an abort" : "no abort", got ? "aborted" : "returned", AL_RAN);
      }
    }
    int i = 0;
    while (i < k && ++ix[i] == (int)opts[i].size()) ix[i++] = 0;
    if (i == k) break;
  }
}
// The helper itself, for every number of ranges, with the same oracle.
using crubit::internal::PtrData;
template <size_t M, size_t N> static void direct(int A) {
  std::vector<PtrData> rs;
  for (int a = 0; a <= A; a++) for (int b = a + 1; b <= A; b++) rs.push_back({uintptr_t(1000 + a), uintptr_t(1000 + b)});
  rs.push_back({0, 0});   // what an empty slice or string gives
  int ix[M + N] = {0};
  for (;;) {
    std::array<PtrData, M> m; std::array<PtrData, N> n;
    for (size_t i = 0; i < M; i++) m[i] = rs[ix[i]];
    for (size_t i = 0; i < N; i++) n[i] = rs[ix[M + i]];
    bool want = false;
    for (size_t i = 0; i < M; i++) for (size_t j = 0; j < M + N; j++) if (j != i) {
      PtrData q = j < M ? m[j] : n[j - M];
      for (uintptr_t x = m[i].start; x < m[i].end; x++) if (x >= q.start && x < q.end) want = true;
    }
    std::array<PtrData, M> m2 = m; std::array<PtrData, N> n2 = n;
    g_eval++;
    bool got = crubit::internal::HasMutableAliasing(std::move(m2), std::move(n2));
    bool ab; m2 = m; n2 = n;
    if (sigsetjmp(g_j, 0)) ab = true; else { crubit::internal::CheckNoMutableAliasing(std::move(m2), std::move(n2)); ab = false; }
    if (got != want || ab != want) if (g_bad++ < 30) {
      printf("VIOL helper %zu mutable %zu shared", M, N);
      for (auto& p : m) printf(" m[%d,%d)", (int)p.start - 1000, (int)p.end - 1000);
      for (auto& p : n) printf(" s[%d,%d)", (int)p.start - 1000, (int)p.end - 1000);
      printf("\tHasMutableAliasing %d, CheckNoMutableAliasing aborts %d, expected %d\n", got, ab, want);
    }
    size_t i = 0;
    while (i < M + N && ++ix[i] == (int)rs.size()) ix[i++] = 0;
    if (i == M + N) break;
  }
}
'''


def cc_sig(i, ks):
    kd = ", ".join("{'%s', '%s', %d, %d}" % (k, KINDS[k][1], KINDS[k][2], -1 if KINDS[k][3] is None else KINDS[k][3]) for k in ks)
    args = [f"[&]() -> decltype(auto) {{ const Pl& p = q[{j}]; return ({KINDS[k][4]}); }}()" for j, k in enumerate(ks) if k not in "123"]
    if ks[0] == "3":
        call = f"al::S3 me = al::mk_s3(); me.f{i}({', '.join(args)});"
    elif ks[0] in "12":
        call = f"((al::S3*)P(q[0]))->f{i}({', '.join(args)});"
    else:
        call = f"al::f{i}({', '.join(args)});"
    return f'static void c{i}() {{ static const Kd kd[] = {{{kd}}}; run("{", ".join(KINDS[k][0] for k in ks)}", {len(ks)}, kd, {arena(len(ks))}, [](const Pl* q) {{ (void)q; {call} }}); }}'


def check(chk):
    chk.coverage["rule"] = "one case = one list of parameter kinds; evaluations are the placements of their memory, plus the placements given to the helper itself"
    chk.assumptions += ["calls are aborted by SIGILL/SIGTRAP/SIGABRT, which the driver turns into a jump; a few calls run in a process of their own instead",
                        "shared references to zero-sized types and to types with interior mutability may alias by documented design"]
    e = E2E(chk)
    ss = sigs()
    rows = list(enumerate(ss))
    fns, meths = [], []
    for i, ks in rows:
        ps = [KINDS[k][0] if k in "123" else f"a{j}: {KINDS[k][0]}" for j, k in enumerate(ks)]
        body = "{ ran(); }"
        (meths if ks[0] in "123" else fns).append(f"pub fn f{i}({', '.join(ps)}) {body}")
    src = "#![allow(warnings)]\n#[unsafe(no_mangle)] static mut AL_RAN: u32 = 0;\nfn ran() { unsafe { AL_RAN += 1; } }\n" \
          "#[derive(Clone, Copy)] #[repr(C)] pub struct S3 { pub a: u8, pub b: u8, pub c: u8 }\npub fn mk_s3() -> S3 { S3 { a: 1, b: 2, c: 3 } }\n" \
          + "\n".join(fns) + "\nimpl S3 {\n" + "\n".join(meths) + "\n}\n" + EXTRA_RS
    chk.count(distinct_nontrivial=len(ss))
    chk.sample({"signatures": [", ".join(KINDS[k][0] for k in ks) for ks in ss[5::len(ss) // 8]]})
    K = 8
    tus = [MAIN_PRE + "\n".join(cc_sig(i, ks) for i, ks in rows[t::K]) + f"\nvoid all{t}() {{ " + " ".join(f"c{i}();" for i, _ in rows[t::K]) + " }\n" for t in range(K)]
    hi = 3 if THOROUGH else 2
    d = "".join(f"direct<{m}, {n}>({4 if m + n < 4 else 3 if m + n < 5 else 2});" for m in range(0, 6) for n in range(0, 6) if 0 < m + n <= (6 if THOROUGH else 5))
    d += "direct<5, 1>(2); direct<1, 5>(2); direct<4, 2>(2); direct<2, 4>(2);" if not THOROUGH else "direct<1, 6>(2); direct<6, 1>(2); direct<4, 3>(2); direct<3, 4>(2);"
    mainsrc = MAIN_PRE + MAIN + "".join(f"void all{t}();" for t in range(K)) + EXTRA_CC + r'''
int main(int argc, char** argv) {
  if (argc > 1 && argv[1][0] == 'x') { extra_abort(atoi(argv[1] + 1)); printf("CONTINUED\n"); return 0; }
  int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
  struct sigaction sa{}; sa.sa_handler = on_sig; sa.sa_flags = SA_NODEFER;
  for (int s : {SIGILL, SIGTRAP, SIGABRT}) sigaction(s, &sa, nullptr);
  for (int i = 0; i < 32; i++) g_arena[i] = 'a';
  extra();
  switch (argc > 1 ? atoi(argv[1]) : 0) {
''' + "".join(f"case {t}: all{t}(); break; " for t in range(K)) + " case " + str(K) + ": " + d + r''' }
  printf("STAT evaluations=%ld\nSTAT aborted=%ld\nSTAT went_through=%ld\nSTAT signatures=%ld\nDONE\n", g_eval, g_abort, g_through, g_sigs);
}
'''
    exe, err = e.build(os.path.join(chk.dir, "al"), [("al", src)], mainsrc, extra_cc=tus)
    if err:
        chk.violation(f"build:{err[0]}", f"bindings of functions taking references do not build ({err[0]}):\n{err[1]}")
        return
    chk.log("built")
    for t, r in zip(range(K + 1), pmap(lambda t: run_exe(exe, [str(t)], timeout=800), range(K + 1))):
        judge_harness(chk, f"part {t}", r)
    for x in range(NX):
        r = run_exe(exe, [f"x{x}"])
        chk.count(evaluations=1, whole_processes=1)
        if r.rc >= 0 or "CONTINUED" in r.out:
            chk.violation(f"process {x}", f"overlapping call {x} in a process of its own: exit {r.rc}, output {r.out[-200:]!r}; expected the process to end by a signal")


# other ways references reach a function: references to references, generic instances, trait methods, async, results tied to an argument
EXTRA_RS = r'''
pub unsafe fn mk_mut(p: *mut u8, n: usize) -> &'static mut [u8] { unsafe { std::slice::from_raw_parts_mut(p, n) } }
pub unsafe fn mk_zero(p: *mut u8) -> &'static mut [u8; 0] { unsafe { &mut *(p as *mut [u8; 0]) } }
pub unsafe fn mk_shared(p: *const u8, n: usize) -> &'static [u8] { unsafe { std::slice::from_raw_parts(p, n) } }
pub trait Tr { fn tm(&mut self, o: &S3) -> u8; fn ts(&self, o: &mut S3) -> u8; }
impl Tr for S3 { fn tm(&mut self, o: &S3) -> u8 { ran(); 1 } fn ts(&self, o: &mut S3) -> u8 { ran(); 1 } }
pub fn tied<'a>(x: &'a mut S3, y: &S3) -> &'a mut S3 { ran(); x }
pub fn tied2<'a>(x: &'a mut S3, y: &'a S3) -> &'a S3 { ran(); y }
impl S3 { pub fn tself<'a>(&'a mut self, y: &S3) -> &'a mut S3 { ran(); self } }
impl PartialEq for S3 { fn eq(&self, o: &S3) -> bool { ran(); true } }
impl PartialOrd for S3 { fn partial_cmp(&self, o: &S3) -> Option<std::cmp::Ordering> { ran(); Some(std::cmp::Ordering::Equal) } }
impl std::ops::AddAssign<&S3> for S3 { fn add_assign(&mut self, o: &S3) { ran(); } }
#[derive(Default)] #[repr(C)] pub struct Own { pub a: u8, pub b: Vec<u8> }
impl Clone for Own { fn clone(&self) -> Own { Own { a: self.a, b: self.b.clone() } } fn clone_from(&mut self, o: &Own) { *self = o.clone(); } }
impl Own { pub fn absorb(&mut self, o: &Own) { ran(); } pub fn swap(&mut self, o: &mut Own) { ran(); } pub fn take(&mut self, o: Own) { ran(); } }
pub mod inner { use super::*; pub fn deep(x: &mut S3, y: &S3) { super::ran(); } }
pub fn opt_ref(x: &mut S3, n: u32, y: &S3, z: f64) -> u32 { ran(); n }
'''
EXTRA_CC = r'''
#define TRY(N, WANT, CALL) { g_eval++; AL_RAN = 0; volatile bool got = false; if (sigsetjmp(g_j, 0)) got = true; else { CALL; } (got ? g_abort : g_through)++; \
  if (got != (WANT) || AL_RAN != ((WANT) ? 0u : 1u)) printf("VIOL %s\t%s: expected %s, %s, body ran %u times\n", N, N, (WANT) ? "an abort" : "no abort", got ? "aborted" : "returned", AL_RAN); }
static void extra() {
  for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) {
    al::S3 &a = *(al::S3*)(g_arena + i), &b = *(al::S3*)(g_arena + j);
    bool w = i < j + 3 && j < i + 3;
    TRY("trait &mut self, &other", w, (rs_std::impl<al::S3, al::Tr>::tm(::ref(a), ::ref(b))));
    TRY("trait &self, &mut other", w, (rs_std::impl<al::S3, al::Tr>::ts(::ref(a), ::ref(b))));
    TRY("tied result", w, (al::tied(::ref(a), ::ref(b))));
    TRY("tied result of the other", w, (al::tied2(::ref(a), ::ref(b))));
    TRY("tied self", w, (a.tself(::ref(b))));
    TRY("function in a module", w, (al::inner::deep(::ref(a), ::ref(b))));
    TRY("between other parameters", w, (al::opt_ref(::ref(a), 1, ::ref(b), 2.0)));
    TRY("shared == shared", false, ((void)(a == b)));
  }
  { al::Own x, y; TRY("absorb self", true, (x.absorb(::ref(x)))); TRY("absorb other", false, (x.absorb(::ref(y))));
    TRY("swap self", true, (x.swap(::ref(x)))); TRY("swap other", false, (x.swap(::ref(y)))); }
}
static void extra_abort(int k) {
  al::S3& a = *(al::S3*)(g_arena); al::S3& b = *(al::S3*)(g_arena + 2);
  switch (k) {
    case 0: al::tied(::ref(a), ::ref(b)); break;
    case 1: a.tself(::ref(a)); break;
    case 2: { al::Own x; x.absorb(::ref(x)); break; }
    case 3: al::inner::deep(::ref(b), ::ref(a)); break;
  }
}
'''
NX = 4

main(check, "C08", "exploration")
