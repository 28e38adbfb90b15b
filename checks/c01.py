#!/usr/bin/env python3
"""C01: every value of every supported type arrives unchanged in both directions, in every
parameter position and combination of ABI classes, through every kind of bound function."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import e2etypes as E
import itertools


def cq(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


class Prog:
    """One crate plus C++ calls into it; calls are spread over several translation units."""

    def __init__(self, n_tu):
        self.rs = ["#![allow(non_snake_case)]", E.USERTYPES]
        self.cc = [[] for _ in range(n_tu)]
        self.k = 0
        self.calls = 0

    def block(self, lines):
        self.cc[self.k % len(self.cc)].append("{ " + " ".join(lines) + " }")
        self.k += 1

    def call(self, label, expr, want_log, want_ret=None, ref=False):
        self.calls += 1
        e = f"dr({expr})" if ref else expr
        if want_ret is None:
            return f"{expr}; chk({cq(label + ' log')}, take(), {cq(want_log)});"
        return f"chk({cq(label + ' ret')}, canon({e}), {cq(want_ret)}); chk({cq(label + ' log')}, take(), {cq(want_log)});"


DR = "template <class T> const T& dr(const T& x) { return x; } template <class T> const T& dr(T* x) { return *x; }\n"


def unary(p, types):
    for t in types:
        n = t.name
        p.rs.append(f"pub fn id_{n}(x: {t.rs}) -> {t.rs} {{ log(format!(\"{{}};\", x.c())); x }}")
        p.rs.append(f"pub fn sink_{n}(x: {t.rs}) {{ log(format!(\"{{}};\", x.c())); }}")
        p.block([p.call(f"id_{n}/{i}", f"foo::id_{n}({v})", c + ";", c, t.cls == "ref") for i, (v, c) in enumerate(t.vals)]
                + [p.call(f"sink_{n}/{i}", f"foo::sink_{n}({v})", c + ";") for i, (v, c) in enumerate(t.vals)])
        if t.cc:
            p.rs.append(f"pub fn rf_{n}(x: &{t.rs}) {{ log(format!(\"{{}};\", x.c())); }}")
            p.rs.append(f"pub fn mu_{n}(x: &mut {t.rs}, y: {t.rs}) -> {t.rs} {{ log(format!(\"{{}},{{}};\", x.c(), y.c())); std::mem::replace(x, y) }}")
            ls = []
            for i, (v, c) in enumerate(t.vals):
                w, cw = t.vals[(i + 1) % len(t.vals)]
                if t.byref:
                    ls.append(f"{{ auto v = {v}; " + p.call(f"rf_{n}/{i}", f"foo::rf_{n}(v)", c + ";") + " }")
                    ls.append(f"{{ auto v = {v}; " + p.call(f"mu_{n}/{i}", f"foo::mu_{n}(v, {w})", f"{c},{cw};", c)
                              + f" chk(\"mu_{n}/{i} visible\", canon(v), {cq(cw)}); }}")
            p.block(ls)


def nary(p, combos, tag):
    """combos: tuples of types. f(a0..an) returns the last (or first) argument by value."""
    for ci, ts in enumerate(combos):
        name = f"{tag}{ci}"
        ri = ci % len(ts)
        ps = ", ".join(f"a{i}: {t.rs}" for i, t in enumerate(ts))
        fmt = ",".join("{}" for _ in ts)
        args = ", ".join(f"a{i}.c()" for i in range(len(ts)))
        p.rs.append(f"pub fn {name}({ps}) -> {ts[ri].rs} {{ log(format!(\"{fmt};\", {args})); a{ri} }}")
        vals = [t.vals[(ci + i) % len(t.vals)] for i, t in enumerate(ts)]
        p.block([p.call(f"{name}({','.join(t.rs for t in ts)})->{ts[ri].rs}", f"foo::{name}({', '.join(v for v, _ in vals)})",
                        ",".join(c for _, c in vals) + ";", vals[ri][1], ts[ri].cls == "ref")])


def methods(p, types):
    """Every receiver kind and every way of reaching a function, for each type as argument and result."""
    p.rs.append('''#[derive(Default)] pub struct Me { pub n: i32 }
impl Me { pub fn mk(n: i32) -> Me { Me { n } } }
pub trait Tr { }
''')
    byval, byref, bymut, stat, tr, tri = [], [], [], [], [], []
    for t in types:
        n = t.name
        stat.append(f"pub fn st_{n}(x: {t.rs}) -> {t.rs} {{ log(format!(\"{{}};\", x.c())); x }}")
        byref.append(f"pub fn re_{n}(&self, x: {t.rs}) -> {t.rs} {{ log(format!(\"{{}},{{}};\", self.n, x.c())); x }}")
        bymut.append(f"pub fn mu_{n}(&mut self, x: {t.rs}, y: u8) -> {t.rs} {{ log(format!(\"{{}},{{}},{{}};\", self.n, x.c(), y)); self.n += 1; x }}")
        byval.append(f"pub fn va_{n}(self, x: {t.rs}) -> {t.rs} {{ log(format!(\"{{}},{{}};\", self.n, x.c())); x }}")
        tr.append(f"fn tm_{n}(&self, x: {t.rs}) -> {t.rs}; fn ts_{n}(x: {t.rs}) -> {t.rs};")
        tri.append(f"fn tm_{n}(&self, x: {t.rs}) -> {t.rs} {{ log(format!(\"{{}},{{}};\", self.n, x.c())); x }}"
                   f"fn ts_{n}(x: {t.rs}) -> {t.rs} {{ log(format!(\"{{}};\", x.c())); x }}")
        ls = []
        for i, (v, c) in enumerate(t.vals):
            ref = t.cls == "ref"
            ls += ["{ auto m = foo::Me::mk(-77);",
                   p.call(f"Me::st_{n}/{i}", f"foo::Me::st_{n}({v})", c + ";", c, ref),
                   p.call(f"Me::re_{n}/{i}", f"m.re_{n}({v})", "-77," + c + ";", c, ref),
                   p.call(f"Me::mu_{n}/{i}", f"m.mu_{n}({v}, 200)", "-77," + c + ",200;", c, ref),
                   p.call(f"Tr::tm_{n}/{i}", f"rs_std::impl<foo::Me, foo::Tra>::tm_{n}(m, {v})", "-76," + c + ";", c, ref),
                   p.call(f"Tr::ts_{n}/{i}", f"rs_std::impl<foo::Me, foo::Tra>::ts_{n}({v})", c + ";", c, ref),
                   p.call(f"Me::va_{n}/{i}", f"std::move(m).va_{n}({v})", "-76," + c + ";", c, ref), "}"]
        p.block(ls)
    p.rs.append("impl Me {\n" + "\n".join(stat + byref + bymut + byval) + "\n}")
    p.rs.append("pub trait Tra {\n" + "\n".join(tr) + "\n}\nimpl Tra for Me {\n" + "\n".join(tri) + "\n}")


def forms(p, types):
    """Nested modules, extern "C" (mangled and not), unsafe, const and generic-free aliases."""
    for t in types:
        n = t.name
        body = f"{{ vsup::log(format!(\"{{}},{{}};\", b, x.c())); x }}"
        p.rs.append(f"pub mod m_{n} {{ use super::*; pub mod inner {{ use super::*; pub fn f(b: u8, x: {t.rs}) -> {t.rs} {body} }} }}")
        p.rs.append(f"pub unsafe fn us_{n}(b: u8, x: {t.rs}) -> {t.rs} {body}")
        p.rs.append(f"pub type Al_{n} = {t.rs}; pub fn al_{n}(b: u8, x: Al_{n}) -> Al_{n} {body}")
        p.rs.append(f"mod priv_{n} {{ use super::*; pub fn reex_{n}(b: u8, x: {t.rs}) -> {t.rs} {body} }} pub use priv_{n}::reex_{n};")
        calls = [f"m_{n}::inner::f", f"us_{n}", f"al_{n}", f"reex_{n}"]
        if t.cabi:
            p.rs.append(f"pub extern \"C\" fn ec_{n}(b: u8, x: {t.rs}) -> {t.rs} {body}")
            p.rs.append(f"#[unsafe(no_mangle)] pub extern \"C\" fn nm_{n}(b: u8, x: {t.rs}) -> {t.rs} {body}")
            p.rs.append(f"#[unsafe(export_name = \"exported name {n}\")] pub extern \"C\" fn en_{n}(b: u8, x: {t.rs}) -> {t.rs} {body}"
                        if False else f"#[unsafe(export_name = \"exported_{n}_x\")] pub extern \"C\" fn en_{n}(b: u8, x: {t.rs}) -> {t.rs} {body}")
            calls += [f"ec_{n}", f"nm_{n}", f"en_{n}"]
        for i, (v, c) in enumerate(t.vals):
            p.block([p.call(f"{f}/{i}", f"foo::{f}(131, {v})", f"131,{c};", c, t.cls == "ref") for f in calls])


GENERIC_RS = r'''
pub fn g_asref(a: impl AsRef<str>, k: u8) { log(format!("{},{};", a.as_ref().c(), k)); }
pub fn g_bytes(k: u8, a: impl AsRef<[u8]>) { log(format!("{},{};", a.as_ref().c(), k)); }
pub fn g_into<T: Into<i32>>(a: T) -> i32 { let x = a.into(); log(format!("{};", x)); x }
pub fn fld(a: &Big, b: &mut Big) { log(format!("{},{};", a.c(), b.c())); b.a = a.a ^ 1; b.b = -a.b; b.c = a.c + 1; b.d = a.d + 1; b.e = -a.e; }
pub fn slm(a: &mut [i32], k: i32) { log(format!("{};", a.c())); for x in a.iter_mut() { *x = x.wrapping_mul(k); } }
pub fn slsub(a: &[i32], from: usize, to: usize) -> &[i32] { &a[from..to] }
pub fn slmsub(a: &mut [i32], from: usize, to: usize) -> &mut [i32] { &mut a[from..to] }
pub fn strsub(a: &str, from: usize, to: usize) -> &str { &a[from..to] }
pub fn refpick<'a>(a: &'a i32, b: &'a i32, second: bool) -> &'a i32 { if second { b } else { a } }
pub fn mutpick<'a>(a: &'a mut i32, b: &'a mut i32, second: bool) -> &'a mut i32 { if second { b } else { a } }
pub fn own_ret(a: u8, x: i64, y: f32) -> Own { log(format!("{},{},{};", a, x, y.c())); Own::mk(x) }
pub fn own_set(a: &mut Own, b: &Own) { let v = b.get(); *a = Own::mk(v ^ 1); }
pub struct Holder { pub arr: [u16; 4], pub big: Big, v: Vec<i32> }
impl Holder { pub fn mk() -> Holder { Holder { arr: [1, 2, 3, 4], big: Big { a: 1, b: 2, c: 3, d: 4, e: 5.0 }, v: vec![7, 8, 9] } }
  pub fn big(&self) -> &Big { &self.big } pub fn big_mut(&mut self) -> &mut Big { &mut self.big }
  pub fn arr(&self) -> &[u16] { &self.arr } pub fn at(&mut self, i: usize) -> &mut i32 { &mut self.v[i] } pub fn v(&self) -> &[i32] { &self.v } pub fn vv(&self) -> &Vec<i32> { &self.v }
  pub fn first(&self) -> Option<&i32> { self.v.first() } pub fn opt_at(&self, i: usize) -> Option<&i32> { self.v.get(i) }
  pub fn text(&self) -> String { format!("{},{},{}", self.arr.c(), self.big.c(), self.v.c()) } }
impl Canon for Holder { fn c(&self) -> String { self.text() } }
pub extern "C" fn app(f: extern "C" fn(i32) -> i32, x: i32) -> i32 { f(x) }
pub fn app2(f: extern "C" fn(u8, f64, i64) -> f64, x: u8, y: f64, z: i64) -> f64 { f(x, y, z) }
'''
GENERIC_CC = r'''
extern "C" int32_t vsq(int32_t x) { return x * x; }
extern "C" double vmix(uint8_t a, double b, int64_t c) { return a * 2 + b * 3 + (double)c * 5; }
static int32_t& mr(int32_t& x) { return x; } static int32_t& mr(int32_t* x) { return *x; }
void generic() {
  auto L = [](const char* w, std::string want) { chk(w, take(), want); };
  foo::g_asref(sr("q\xc3\xa9", 3), 200); L("asref", "s71c3a9,200;");
  foo::g_bytes(9, rs_std::SliceRef<const uint8_t>(G8)); L("bytes", "[1,2,3,4],9;");
  chk("into", canon(foo::g_into(int32_t(-2147483647))), "-2147483647"); L("into", "-2147483647;");
  { auto a = foo::Big::mk(10, -20, 30, 40, 2.0), b = foo::Big::mk(1, 2, 3, 4, 5.0); foo::fld(a, b); L("fld", canon(foo::Big::mk(10, -20, 30, 40, 2.0)) + "," + canon(foo::Big::mk(1, 2, 3, 4, 5.0)) + ";");
    chk("fld.out", canon(b), canon(foo::Big::mk(11, 20, 31, 41, -2.0))); chk("fld.in", canon(a), canon(foo::Big::mk(10, -20, 30, 40, 2.0))); }
  for (size_t n = 0; n <= 5; n++) { std::vector<int32_t> v; std::string w = "[", w2 = "["; for (size_t i = 0; i < n; i++) { v.push_back(3 * (int)i - 4); w += (i ? "," : "") + std::to_string(3 * (int)i - 4); w2 += (i ? "," : "") + std::to_string(-2 * (3 * (int)i - 4)); }
    rs_std::SliceRef<int32_t> s(v); foo::slm(s, -2); L("slm", w + "];"); chk("slm.out", canon(rs_std::SliceRef<const int32_t>(v)), w2 + "]");
    for (size_t a = 0; a <= n; a++) for (size_t b = a; b <= n; b++) { rs_std::SliceRef<const int32_t> c(v); auto r = foo::slsub(c, a, b); chk("slsub.len", canon(r.size()), canon(b - a)); if (b > a) chk("slsub.ptr", canon((const void*)r.data() == (const void*)(v.data() + a)), "true");
      auto r2 = foo::slmsub(s, a, b); chk("slmsub.len", canon(r2.size()), canon(b - a)); if (b > a) chk("slmsub.ptr", canon((void*)r2.data() == (void*)(v.data() + a)), "true");
      std::string str(n, 'x'); auto q = foo::strsub(sr(str.data(), n), a, b); chk("strsub", canon(q.size()), canon(b - a)); if (b > a) chk("strsub.ptr", canon((void*)q.data() == (void*)(str.data() + a)), "true"); } }
  { int32_t a = 1, b = 2; const int32_t &ca = a, &cb = b; for (int s = 0; s < 2; s++) { auto&& r = foo::refpick(ref(ca), ref(cb), s); chk("refpick", canon((uintptr_t)&dr(r)), canon((uintptr_t)(s ? &b : &a)));
      auto&& m = foo::mutpick(ref(a), ref(b), s); mr(m) += 10; } chk("mutpick", canon(a) + canon(b), "1112"); }
  { auto h = foo::Holder::mk(); chk("holder", canon(h.text()), canon(mkstr("[1,2,3,4],Big{1,2,3,4,d4014000000000000},[7,8,9]", 48))); h.arr[2] = 65535; h.big.c = 99;
    chk("holder.big", canon(dr(h.big())), "Big{1,2,99,4,d4014000000000000}"); }
  { auto o = foo::own_ret(7, INT64_MIN, -0.0f); L("own_ret", "7,-9223372036854775808,f80000000;"); chk("own", canon(o), "Own-9223372036854775808"); auto o2 = foo::Own::mk(6); foo::own_set(o2, o); chk("own2", canon(o2), "Own-9223372036854775807"); }
  chk("app", canon(foo::app(vsq, -12)), "144"); chk("app2", canon(foo::app2(vmix, 200, 0.5, -7)), canon(200 * 2 + 1.5 - 35.0)); chk("app3", canon(foo::app(foo::fp_inc, 41)), "42");
}
'''
GENERIC_RS = GENERIC_RS.replace("pub big: Big, v", "pub bg: Big, v").replace("{ arr: [1, 2, 3, 4], big:", "{ arr: [1, 2, 3, 4], bg:").replace("&self.big }", "&self.bg }").replace("&mut self.big }", "&mut self.bg }").replace("self.big.c()", "self.bg.c()").replace("pub arr: [u16; 4]", "pub ar: [u16; 4]").replace("{ arr: [1", "{ ar: [1").replace("&self.arr }", "&self.ar }").replace("self.arr.c()", "self.ar.c()")
GENERIC_CC = GENERIC_CC.replace("h.arr[2]", "h.ar[2]").replace("h.big.c = 99", "h.bg.c = 99").replace('canon(dr(h.big())), "Big{1,2,99,4,d4014000000000000}");', r'''canon(dr(h.big())), "Big{1,2,99,4,d4014000000000000}");
    { auto&& bm = h.big_mut(); auto* q = &const_cast<foo::Big&>(dr(bm)); q->e = 1.0; chk("holder.bigmut", canon(h.bg), "Big{1,2,99,4,d3ff0000000000000}"); }
    chk("holder.arr", canon(h.arr()), "[1,2,65535,4]"); for (size_t i = 0; i < 3; i++) { auto&& m = h.at(i); mr(m) = 100 + (int)i; } chk("holder.v", canon(h.v()), "[100,101,102]"); chk("holder.vv", canon(dr(h.vv())), "[100,101,102]");
    chk("holder.first", canon(h.first()), "S(100)"); for (size_t i = 0; i < 5; i++) chk("holder.opt", canon(h.opt_at(i)), i < 3 ? "S(10" + std::to_string(i) + ")" : "N");''')


def emit(p, generic=False, rounds=1):
    mains = []
    pre = E.CCPRE + DR
    shared = pre
    tus = []
    for i, blocks in enumerate(p.cc):
        fs = []
        # small functions compile faster than one huge one
        for j in range(0, len(blocks), 20):
            fs.append(f"static void tu{i}_{j}() {{\n" + "\n".join(blocks[j:j + 20]) + "\n}")
        body = "\n".join(fs) + f"\nvoid tu{i}(long& e, long& f) {{ " + " ".join(f"tu{i}_{j}();" for j in range(0, len(blocks), 20)) \
               + (" generic();" if generic and i == 0 else "") + " e += g_evals; f += g_fail; }\n"
        tus.append(shared + (GENERIC_CC if generic and i == 0 else "") + body)
    main = "#include <cstdio>\n" + "".join(f"void tu{i}(long&, long&);\n" for i in range(len(tus))) + \
        "int main() { long e = 0, f = 0; " + " ".join(f"tu{i}(e, f);" for i in range(len(tus))) + \
        ' printf("EVALS %ld FAIL %ld\\n", e, f); return f ? 1 : 0; }\n'
    return main, tus


def run_prog(chk, e2e, name, p, generic=False):
    main, tus = emit(p, generic)
    src = "\n".join(p.rs)
    d = os.path.join(chk.dir, name)
    exe, err = e2e.build(d, [("vsup", E.VSUP), ("foo", src)], main, extra_cc=tus)
    if err:
        chk.violation(f"{name}:build:{err[0]}", f"a program of supported signatures does not build ({err[0]}):\n{err[1]}",
                      {"foo.rs": src})
        return
    r = run_exe(exe)
    chk.log(f"{name}: ran: {r.out.strip().splitlines()[-1:]}")
    import re
    m = re.search(r"EVALS (\d+) FAIL (\d+)", r.out)
    if m:
        chk.count(evaluations=int(m.group(1)), distinct_nontrivial=int(m.group(1)))
    chk.count(programs=1, calls=p.calls)
    if r.rc != 0 or not m:
        chk.violation(f"{name}:run", f"exit {r.rc}\n" + r.out[:6000] + r.err[:2000], {"foo.rs": src, "x.cc": "\n".join(tus)[:100000]})


def check(chk):
    e2e = E2E(chk)
    T = {t.name: t for t in E.table()}
    alltypes = list(T.values())
    reps = {}
    for t in alltypes:
        reps.setdefault(t.cls, t)
    reps = list(reps.values())
    p = Prog(8)
    unary(p, alltypes)
    forms(p, alltypes if THOROUGH else reps)
    p.rs.append(GENERIC_RS)
    run_prog(chk, e2e, "unary", p, generic=True)
    p = Prog(8)
    methods(p, alltypes if THOROUGH else reps)
    run_prog(chk, e2e, "methods", p)
    pairs = list(itertools.product(alltypes if THOROUGH else reps, repeat=2))
    step = 700
    for i in range(0, len(pairs), step):
        p = Prog(8)
        nary(p, pairs[i:i + step], "b")
        if i == 0:
            small = [T[n] for n in ("u8", "f64", "u64", "P4", "Big", "Dd", "str")]
            trip = list(itertools.product(small if THOROUGH else small[:4], repeat=3))
            nary(p, trip, "t")
            for k in (4, 5, 6, 7, 8, 9, 12):
                nary(p, [tuple(reps[(s + j * (1 + s % 3)) % len(reps)] for j in range(k)) for s in range(len(reps))], f"n{k}_")
            # same class many times: registers run out and arguments spill to the stack
            for c in reps:
                nary(p, [tuple([c] * k) for k in (3, 7, 9)], "s_" + c.name + "_")
        run_prog(chk, e2e, f"pairs{i // step}", p)
    chk.coverage["rule"] = "one case = one generated call with its expected argument log and result; calls enumerate every value of every type, every parameter position and every tuple of ABI classes"
    chk.coverage["types"] = len(alltypes)
    chk.coverage["abi_classes"] = len(reps)
    chk.sample({"signature": "b(Pay, Option<i32>) -> Option<i32>", "oracle": "canonical text logged by Rust and recomputed in C++ from the returned value"})


main(check, "C01", "exploration")
