#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

NAMES = ["X", "x", "X ", " X", "XX", "Y", "XY", "YX", "X_", "", "a::X", "b::X", "::X", "a::b::X", "ab::X", "a::bX", "A<int>", "A<int >",
         "A<unsigned int>", "A<char>", "é", "e\u0301", "e", "\u4e2d", "\u4e2d\u6587", "\\\"", "'", "{}", "X\\n", "X\\0", "(X)", "X,Y", "X, Y", "\U0001F600"]
THREE = 'abA'


def names():
    import itertools
    out = list(NAMES)
    n = 4 if THOROUGH else 3
    for k in range(1, n + 1):
        out += ["".join(p) for p in itertools.product("ab" if k > 2 else THREE, repeat=k)]
    seen = []
    return [x for x in out if not (x in seen or seen.append(x))]


# ---- the structural universe: (Rust spelling, what it is in C++ or None, unpin, sized, whether &mut needs Unpin)
class Ty:
    def __init__(self, rs, cpp, unpin, sized=True, vec=None):
        self.rs, self.cpp, self.unpin, self.sized, self.vec = rs, cpp, unpin, sized, vec


def bases():
    for n in ("N0", "N1"):
        yield Ty(f"{n}a", n, False)        # forward declarations
        yield Ty(f"{n}b", n, False)
        yield Ty(f"{n}c", n, True)         # complete, movable
        yield Ty(f"{n}p", n, False)        # complete, pinned
    yield Ty("Undefined", None, True)      # no C++ name at all
    yield Ty("u64", None, True)


def wraps(t, unstable, ks=None):
    c = t.cpp

    def w(k, f):
        return None if c is None else f
    out = [("&", f"&'static {t.rs}", w(0, f"const({c})&"), True),
           ("&mut", f"&'static mut {t.rs}", w(0, f"({c})&") if t.unpin else None, True),
           ("Pin&", f"Pin<&'static {t.rs}>", w(0, f"const({c})&"), True),
           ("Pin&mut", f"Pin<&'static mut {t.rs}>", w(0, f"({c})&"), True),
           ("*const", f"*const {t.rs}", w(0, f"const({c})*"), True),
           ("*mut", f"*mut {t.rs}", w(0, f"({c})*"), True),
           # the references of the cref crate are C++ references only with the unstable feature
           ("CRef", f"CRef<'static, {t.rs}>", w(0, f"const({c})&") if unstable else None, True),
           ("CMut", f"CMut<'static, {t.rs}>", w(0, f"({c})&") if unstable else None, True)]
    for k, rs, cpp, unpin in out:
        if ks is None or k in ks:
            yield Ty(rs, cpp, unpin)
    if t.sized:
        if ks is None or "arr" in ks:
            yield Ty(f"[{t.rs}; 2]", w(0, f"({c})[2]"), t.unpin)
            yield Ty(f"[{t.rs}; 3]", w(0, f"({c})[3]"), t.unpin)
        if ks is None or "[]" in ks:
            yield Ty(f"[{t.rs}]", w(0, f"({c})[]"), t.unpin, sized=False)
    if ks is None or "Vec" in ks:
        # Vec itself has no C++ name, but Vec<&T> casts to Vec<&U>
        yield Ty(f"Vec<&'static {t.rs}>", None, True, vec=c)


def universe(unstable):
    b = list(bases())
    d1 = [x for t in b for x in wraps(t, unstable)]
    few = [t for t in b if t.rs in ("N0a", "N0b", "N0c", "N1a", "N0p", "u64")] if not THOROUGH else [t for t in b if t.rs[:2] != "Un"]
    inner = [x for t in few for x in wraps(t, unstable, {"&", "*mut", "[]"} if not THOROUGH else {"&", "*mut", "Pin&mut", "arr", "[]", "CRef", "&mut"})]
    d2 = [x for t in inner if t.vec is None and not t.rs.startswith("Vec") for x in wraps(t, unstable, {"&", "&mut", "CRef", "Vec"} if t.rs in ("[N0a]", "&'static N0c", "*mut N0p", "*mut N0b") or THOROUGH else {"*const"})]
    out, seen = [], set()
    for t in b + d1 + d2:
        if t.rs not in seen:
            seen.add(t.rs)
            out.append(t)
    return out


def castable(t, u):
    if not (t.sized and u.sized):
        return False
    if t.vec is not None or u.vec is not None:
        return t.vec is not None and t.vec == u.vec
    return t.cpp is not None and t.cpp == u.cpp


def rust_str(s):
    return s


def source(unstable, chk):
    import random
    us = universe(unstable)
    out = []
    for n, s in (("N0", "a::N0"), ("N1", "a::N1")):
        out.append(f'type S{n} = symbol!("{s}");\nforward_declare!({n}a = symbol!("{s}"));\nforward_declare!(pub {n}b = symbol!("{s}"));\n'
                   f'pub struct {n}c(u64); unsafe_define!(symbol!("{s}"), {n}c);\npub struct {n}p(u64); impl !Unpin for {n}p {{}} unsafe_define!(symbol!("{s}"), {n}p);')
    out.append("pub struct Undefined(u64);")
    sized = [t for t in us if t.sized]
    for i, t in enumerate(sized):
        out.append(f"type T{i} = {t.rs};")
    fns = []
    names_ = [t.rs for t in sized]
    out.append("static NAMES: [&str; %d] = [%s];" % (len(sized), ", ".join('"%s"' % n for n in names_)))
    casts = 0
    exp = []
    for i, t in enumerate(sized):
        cells = []
        for j, u in enumerate(sized):
            e = castable(t, u)
            casts += e
            exp.append("1" if e else "0")
            cells.append(f"(Pair::<T{i},T{j}>::CO, Pair::<T{i},T{j}>::go)" if e else f"(Pair::<T{i},T{j}>::CO, no)")
        fns.append(f"fn row{i}() -> [(bool, fn(&'static str, &'static str) -> u64); {len(sized)}] {{ [{', '.join(cells)}] }}")
    out += fns
    out.append('static EXP: &[u8] = b"' + "".join(exp) + '";')
    out.append("fn no(_: &'static str, _: &'static str) -> u64 { 0 }")
    # names
    ns = names()
    out.append("mod names { use super::*; pub fn run() -> u64 { let mut n = 0;")
    for i, s in enumerate(ns):
        out.append(f'forward_declare!(F{i} = symbol!("{s}")); struct C{i}; unsafe_define!(symbol!("{s}"), C{i});')
    out.append(f"let same: [[bool; {len(ns)}]; {len(ns)}] = [")
    for i in range(len(ns)):
        out.append("[" + ", ".join(f"Pair::<&'static F{i}, &'static {'F' if (i + j) % 2 else 'C'}{j}>::CO" for j in range(len(ns))) + "],")
    out.append("];")
    out.append(f'let ns: [&str; {len(ns)}] = [' + ", ".join(f'"{s}"' for s in ns) + "];")
    out.append('for i in 0..ns.len() { for j in 0..ns.len() { n += 1; if same[i][j] != (i == j) { viol(if i == j { "same-name-rejected" } else { "different-names-cast" }, format!("{:?} and {:?}", ns[i], ns[j])); } } } n } }')
    # which types have a C++ name, marker traits of incomplete types
    out.append("fn markers() -> u64 { let mut n = 0;")
    out.append("trait No2 { const SEND: bool = false; const SYNC: bool = false; const UNPIN: bool = false; const COMPLETE: bool = false; } struct M<T: ?Sized>(std::marker::PhantomData<*const T>); impl<T: ?Sized> No2 for M<T> {}")
    out.append("impl<T: ?Sized + Send> M<T> { const SEND: bool = true; } impl<T: ?Sized + Sync> M<T> { const SYNC: bool = true; } impl<T: ?Sized + Unpin> M<T> { const UNPIN: bool = true; } impl<T: Complete> M<T> { const COMPLETE: bool = true; }")
    for t in ("N0a", "N0b"):
        out.append(f'n += 1; if M::<{t}>::SEND || M::<{t}>::SYNC || M::<{t}>::UNPIN || M::<{t}>::COMPLETE {{ viol("incomplete-type-traits", "{t} is Send, Sync, Unpin or Complete"); }}')
    out.append('n += 1; if !M::<N0c>::COMPLETE { viol("complete", "a defined Unpin type is not Complete"); }')
    for k in ("CRef", "CMut"):
        for t in ("u64", "N0p", "std::rc::Rc<u8>"):
            out.append(f"""n += 1; if M::<{k}<'static, {t}>>::SEND || M::<{k}<'static, {t}>>::SYNC || !M::<{k}<'static, {t}>>::UNPIN {{ viol("reference-traits", "{k}<{t}> is Send or Sync or not Unpin"); }}""")
    out.append("n }")
    # upcasts
    out.append(UPCASTS)
    cls = ["B0", "B1", "Mid", "D", "DU", "Lone"]
    off = {("Mid", "B0"): 0, ("Mid", "B1"): 8, ("D", "Mid"): 16, ("D", "B0"): 16, ("D", "B1"): 24, ("DU", "Lone"): 24, ("DU", "B0"): 8}
    for c in cls:
        off[(c, c)] = 0
    unpin = {"DU", "Lone"}
    out.append("fn upcasts() -> u64 { let mut n = 0;")
    kinds = {"r": "&'static {}", "m": "&'static mut {}", "p": "Pin<&'static mut {}>", "q": "Pin<&'static {}>"}
    for d in cls:
        for b in cls:
            for kd in kinds:
                for kb in kinds:
                    inh = (d, b) in off
                    ok = inh and ((kd, kb) in (("r", "r"), ("p", "p")) or ((kd, kb) == ("m", "p") and d in unpin)
                                  or ((kd, kb) == ("m", "m") and d in unpin and b in unpin))
                    T, U = kinds[kd].format(d), kinds[kb].format(b)
                    what = f"{T} to {U}"
                    out.append(f'n += 1; if Pair::<{T}, {U}>::UP != {str(ok).lower()} {{ viol("upcast-relation", "{what}: expected {ok}"); }}')
                    if ok:
                        out.append(f'Pair::<{T}, {U}>::go_up("{what}", {off[(d, b)]});')
            if (d, b) in off:
                o = off[(d, b)]
                out.append(f'for a in [4096usize, 65536] {{ n += 1; let c: *const {b} = unsafe {{ (a as *const {d}).unsafe_upcast() }}; let m: *mut {b} = unsafe {{ (a as *mut {d}).unsafe_upcast() }}; '
                           f'let e = unsafe {{ <{d} as oops::Inherits<{b}>>::upcast_ptr_mut(a as *mut {d}) }}; if c as usize != a + {o} || m as usize != a + {o} || e as usize != a + {o} {{ viol("upcast-pointer", "{d} to {b}"); }} }}')
    out.append("n }")
    out.append("fn universe() -> u64 { let mut n = 0;")
    out.append(f"let rows: [fn() -> [(bool, fn(&'static str, &'static str) -> u64); {len(sized)}]; {len(sized)}] = [{', '.join(f'row{i}' for i in range(len(sized)))}];")
    out.append(f"""for i in 0..{len(sized)} {{ let row = rows[i](); for j in 0..{len(sized)} {{ n += 1; let e = EXP[i * {len(sized)} + j] == b'1';
        if row[j].0 != e {{ viol(if e {{ "compatible-types-rejected" }} else {{ "incompatible-types-cast" }}, format!("{{}} to {{}}", NAMES[i], NAMES[j])); }}
        if row[j].0 && e {{ row[j].1(NAMES[i], NAMES[j]); }} }} }}
        n += names::run(); n += markers(); n += upcasts(); stat("types", {len(sized)}); stat("expected_casts", {casts}); stat("names", {len(ns)}); n }}""")
    return "\n".join(out)


UPCASTS = """
use oops::{Inherits, UnsafeUpcast};
#[repr(C)] pub struct B0(u64); impl !Unpin for B0 {}
#[repr(C)] pub struct B1(u64); impl !Unpin for B1 {}
#[repr(C)] pub struct Lone(u64);
#[repr(C)] pub struct Mid { b0: B0, b1: B1 }
#[repr(C)] pub struct D { x: [u64; 2], mid: Mid }
#[repr(C)] pub struct DU { x: u64, b0: B0, y: u64, lone: Lone } impl Unpin for DU {}
macro_rules! inh { ($d:ty, $b:ty, $($f:tt)+) => { unsafe impl Inherits<$b> for $d { unsafe fn upcast_ptr(d: *const Self) -> *const $b { unsafe { &raw const (*d).$($f)+ } } } } }
inh!(Mid, B0, b0); inh!(Mid, B1, b1); inh!(D, Mid, mid); inh!(D, B0, mid.b0); inh!(D, B1, mid.b1); inh!(DU, B0, b0); inh!(DU, Lone, lone);
"""

LIFETIMES = [("&'{l} {t}", "N0a"), ("&'{l} {t}", "N0c"), ("&'{l} mut {t}", "N0c"), ("Pin<&'{l} {t}>", "N0a"), ("Pin<&'{l} {t}>", "N0p"), ("Pin<&'{l} mut {t}>", "N0a"),
             ("Pin<&'{l} mut {t}>", "N0p"), ("CRef<'{l}, {t}>", "N0p"), ("CMut<'{l}, {t}>", "N0p"), ("CRef<'{l}, {t}>", "N0a"), ("CMut<'{l}, {t}>", "N0c")]


def lifetimes(chk, unstable):
    """Every pair of reference kinds that cast into one another, with the lifetime kept, shortened and lengthened:
    lengthening never compiles. One compilation; its borrow check errors are attributed to lines."""
    lines = ["#![feature(negative_impls)] #![allow(dead_code, unused)]", "use cref::*; use forward_declare::*; use std::pin::Pin;"]
    lines += ['forward_declare!(N0a = symbol!("a::N0")); struct N0c(u64); unsafe_define!(symbol!("a::N0"), N0c); struct N0p(u64); impl !Unpin for N0p {} unsafe_define!(symbol!("a::N0"), N0p);']
    expect = {}

    def cls(k):
        return "mut" if ("mut" in k or "CMut" in k) else "const"
    i = 0
    for ka, ta in LIFETIMES:
        for kb, tb in LIFETIMES:
            if cls(ka) != cls(kb) or (not unstable and "C" in (ka[0], kb[0])):
                continue
            for la, lb, ok in (("a", "a", True), ("a", "b", True), ("b", "a", False), ("static", "a", True), ("a", "static", False)):
                A, B = ka.format(l=la, t=ta), kb.format(l=lb, t=tb)
                for meth in ("cpp_coerce", "cpp_cast"):
                    i += 1
                    lines.append(f"fn f{i}<'a: 'b, 'b>(x: {A}) -> {B} {{ {'CppCoerce' if meth == 'cpp_coerce' else 'CppCast'}::{meth}(x) }}")
                    expect[len(lines)] = (ok, f"{meth} of {A} to {B} ('a outlives 'b)")
            if cls(ka) == "const" and ka[0] == "&" and kb[0] == "&":
                for la, lb, ok in (("a", "a", True), ("b", "a", False), ("a", "static", False)):
                    i += 1
                    A, B = ka.format(l=la, t=ta), kb.format(l=lb, t=tb)
                    lines.append(f"fn f{i}<'a: 'b, 'b>(x: Vec<{A}>) -> Vec<{B}> {{ CppCoerce::cpp_coerce(x) }}")
                    expect[len(lines)] = (ok, f"cpp_coerce of Vec<{A}> to Vec<{B}> ('a outlives 'b)")
                # nested lifetimes
                for la, lb, ok in (("a", "a", True), ("b", "a", False)):
                    i += 1
                    A, B = f"&'b mut {ka.format(l=la, t=ta)}", f"&'b mut {kb.format(l=lb, t=tb)}"
                    lines.append(f"fn f{i}<'a: 'b, 'b>(x: {A}) -> {B} {{ CppCoerce::cpp_coerce(x) }}")
                    expect[len(lines)] = (ok, f"cpp_coerce of {A} to {B}")
    src = write(os.path.join(chk.dir, f"lifetimes{int(unstable)}.rs"), "\n".join(lines))
    deps = os.path.join(TARGET, "debug", "deps")
    import glob
    name = "forward_declare" if unstable else "forward_declare_stable"
    find = lambda n: max(glob.glob(os.path.join(deps, f"lib{n}-*.rmeta")) + glob.glob(os.path.join(TARGET, "debug", "build", n, "*", "out", f"lib{n}-*.rmeta")), key=os.path.getmtime)
    lib, cr = find(name), find("cref")
    dirs = {os.path.dirname(x) for x in glob.glob(os.path.join(TARGET, "debug", "build", "*", "*", "out", "lib*"))} | {deps}
    r = run(["rustc", "--edition=2024", "--crate-type=lib", "--emit=metadata", "--error-format=json", "--out-dir", chk.dir, src, *(f"-Ldependency={x}" for x in sorted(dirs)),
             "--extern", f"forward_declare={lib}", "--extern", f"cref={cr}"], timeout=300)
    bad = set()
    for l in r.err.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m["level"] != "error":
            continue
        prim = [s["line_start"] for s in m["spans"] if s["is_primary"]]
        if m.get("code") and m["code"]["code"] not in ("E0521", "E0597", "E0716", None):
            chk.violation("lifetime-cast-program", f"unexpected error {m['rendered'][:800]}")
            return
        if any(x not in expect for x in prim):
            raise EngineError("lifetime program: " + m["rendered"][:1500])
        bad.update(prim)
    for ln, (ok, what) in expect.items():
        chk.count(evaluations=1)
        chk.distinct(f"lifetime {unstable} {ln}")
        if (ln not in bad) != ok:
            chk.violation("lifetime-cast", f"{what}: {'rejected' if ok else 'accepted'} by the compiler ({'unstable' if unstable else 'stable'} representation)")
    chk.count(lifetime_casts=len(expect))


def check(chk):
    chk.coverage["rule"] = "one case = an ordered pair of types (or names, or reference kinds with lifetimes) whose castability is decided, or a chain of reference conversions"
    for crate_dir, b, unstable in (("support", "c37", True), ("support/stable", "c37_stable", False)):
        src = write(os.path.join(chk.dir, f"universe_{b}.rs"), source(unstable, chk))
        n0 = chk.coverage.get("evaluations", 0)
        harness(chk, crate_dir, b, env={"VERIF_C37_SRC": src})
        chk.count(distinct_nontrivial=chk.coverage.get("evaluations", 0) - n0)
        lifetimes(chk, unstable)
    chk.sample("Pin<&'static mut N0a> to CMut<'static, N0p>: one C++ type, so they cast, with the same address")
    chk.sample("names \"a::X\" and \"ab::X\": never interchangeable")


main(check, "C37", "exploration")
