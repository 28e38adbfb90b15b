#!/usr/bin/env python3
"""C04: all dependency graphs between small sets of items x kinds of dependency x orders x module placements x
crates; the compilers decide whether the bindings are well formed, and what is left out may depend only on the
kind of dependency, not on order or company."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import itertools, re, threading

# kind -> (where, text); {S} the item that depends, {X} what it depends on, {u} a unique suffix
EDGES = {
    "f_val": ("field", "pub f{u}: {X}"), "f_priv": ("field", "f{u}: {X}"), "f_arr": ("field", "pub f{u}: [{X}; 2]"), "f_tup": ("field", "pub f{u}: ({X}, u8)"),
    "f_opt": ("field", "pub f{u}: Option<{X}>"), "f_res": ("field", "pub f{u}: Result<{X}, u8>"),
    "f_ptr": ("field", "pub f{u}: *const {X}"), "f_mut": ("field", "pub f{u}: *mut {X}"), "f_ref": ("field", "pub f{u}: &'static {X}"), "f_optref": ("field", "pub f{u}: Option<&'static {X}>"),
    "f_optptr": ("field", "pub f{u}: Option<*const {X}>"), "f_vec": ("field", "pub f{u}: Vec<{X}>"), "f_slice": ("field", "pub f{u}: &'static [{X}]"), "f_fn": ("field", "pub f{u}: extern \"C\" fn(&{X})"),
    "f_box": ("field", "pub f{u}: Box<{X}>"), "f_ptup": ("field", "pub f{u}: (*const {X}, u8)"), "f_pptr": ("field", "pub f{u}: *const *const {X}"), "f_parr": ("field", "pub f{u}: [*const {X}; 2]"),
    "f_tslice": ("field", "pub f{u}: (&'static [{X}], u8)"), "f_oslice": ("field", "pub f{u}: Option<&'static [{X}]>"), "f_aslice": ("field", "pub f{u}: [&'static [{X}]; 2]"), "f_vslice": ("field", "pub f{u}: Vec<&'static [{X}]>"), "f_pslice": ("field", "pub f{u}: *mut [{X}]"),
    "f_refopt": ("field", "pub f{u}: &'static Option<{X}>"), "f_sliceopt": ("field", "pub f{u}: &'static [Option<{X}>]"), "f_vecopt": ("field", "pub f{u}: Vec<Option<{X}>>"), "f_optvec": ("field", "pub f{u}: Option<Vec<{X}>>"), "f_reftup": ("field", "pub f{u}: &'static ({X}, u8)"), "f_slarr": ("field", "pub f{u}: &'static [[{X}; 2]]"), "f_resvec": ("field", "pub f{u}: Result<Vec<{X}>, &'static {X}>"), "f_fnopt": ("field", "pub f{u}: extern \"C\" fn(&Option<{X}>) -> *const {X}"),
    "m_val": ("method", "pub fn m{u}(&self, x: {X}) {{ }}"), "m_ret": ("method", "pub fn m{u}(&self) -> {X} {{ loop {{}} }}"), "m_ref": ("method", "pub fn m{u}(&self, x: &{X}) {{ }}"),
    "m_mut": ("method", "pub fn m{u}(&mut self, x: &mut {X}) {{ }}"), "m_rref": ("method", "pub fn m{u}<'a>(&self, x: &'a {X}) -> &'a {X} {{ x }}"), "m_ptr": ("method", "pub fn m{u}(&self, x: *mut {X}) -> *const {X} {{ x }}"),
    "m_opt": ("method", "pub fn m{u}(self) -> Option<{X}> {{ None }}"), "m_optarg": ("method", "pub fn m{u}(x: Option<{X}>) {{ }}"), "m_optref": ("method", "pub fn m{u}(x: &Option<{X}>) {{ }}"),
    "m_optp": ("method", "pub fn m{u}(x: &{X}) -> Option<&{X}> {{ None }}"),
    "m_res": ("method", "pub fn m{u}(&self) -> Result<{X}, i32> {{ Err(1) }}"), "m_reserr": ("method", "pub fn m{u}(&self) -> Result<u8, {X}> {{ Ok(1) }}"), "m_vec": ("method", "pub fn m{u}(&self) -> Vec<{X}> {{ vec![] }}"),
    "m_vecarg": ("method", "pub fn m{u}(&self, v: Vec<{X}>, w: &Vec<{X}>) {{ }}"), "m_slice": ("method", "pub fn m{u}(&self, x: &[{X}]) {{ }}"), "m_tup": ("method", "pub fn m{u}(&self) -> ({X}, {S}) {{ loop {{}} }}"),
    "m_arr": ("method", "pub fn m{u}(&self, x: [{X}; 3]) -> [{X}; 2] {{ loop {{}} }}"), "m_fn": ("method", "pub fn m{u}(&self, f: extern \"C\" fn({X}) -> {X}) {{ }}"), "m_async": ("method", "pub async fn m{u}(x: u8) -> {X} {{ loop {{}} }}"),
    "m_nest": ("method", "pub fn m{u}(&self) -> Option<({X}, Option<{X}>)> {{ None }}"),
    "free": ("item", "pub fn {N}{u}(s: {S}, x: {X}) -> Option<{X}> {{ None }}"), "freeref": ("item", "pub fn {N}{u}<'a>(s: &'a {S}, x: &'a mut {X}) -> &'a {S} {{ s }}"),
    "alias": ("item", "pub type {N}{u} = {X}; impl {S} {{ pub fn m{u}(x: {N}{u}) -> {N}{u} {{ x }} }}"), "aliasopt": ("item", "pub type {N}{u} = Option<{X}>; impl {S} {{ pub fn m{u}(x: &{N}{u}) {{ }} }}"),
    "reexp": ("item", "pub mod {N}{u} {{ pub use super::{X} as Other; }} impl {S} {{ pub fn m{u}(x: {N}{u}::Other) {{ }} }}"),
    "from": ("item", "impl From<{X}> for {S} {{ fn from(x: {X}) -> {S} {{ loop {{}} }} }}"), "into": ("item", "impl From<{S}> for {X} {{ fn from(x: {S}) -> {X} {{ loop {{}} }} }}"),
    "eq": ("item", "impl PartialEq<{X}> for {S} {{ fn eq(&self, o: &{X}) -> bool {{ true }} }}"), "add": ("item", "impl std::ops::Add<{X}> for {S} {{ type Output = {X}; fn add(self, o: {X}) -> {X} {{ o }} }}"),
    "addas": ("item", "impl std::ops::AddAssign<&{X}> for {S} {{ fn add_assign(&mut self, o: &{X}) {{ }} }}"), "fromref": ("item", "impl<'a> From<&'a {X}> for {S} {{ fn from(x: &'a {X}) -> {S} {{ loop {{}} }} }}"),
    "tuplef": ("item", "pub struct {N}{u}(pub {S}, pub {X}); impl Default for {N}{u} {{ fn default() -> Self {{ loop {{}} }} }} impl {S} {{ pub fn m{u}(x: {N}{u}) -> {N}{u} {{ x }} }}"),
    "trait": ("item", "pub trait {N}{u} {{ fn tm(&self, x: {X}) -> {S}; fn ts(x: &{X}); }} impl {N}{u} for {S} {{ fn tm(&self, x: {X}) -> {S} {{ loop {{}} }} fn ts(x: &{X}) {{}} }}"),
    "const": ("item", "impl {S} {{ pub const C{u}: usize = core::mem::size_of::<{X}>(); }}"),
    "impltr": ("method", "pub fn m{u}(&self, f: impl Into<{X}>) {{ }}"),
}
BYVALUE = {"f_val", "f_priv", "f_arr", "f_tup", "f_opt", "f_res"}
# kinds whose bindings differ when every generic type gets its own C++ class
SPEC = {"f_val", "f_tup", "f_opt", "f_res", "f_ptr", "f_ptup", "f_slice", "f_tslice", "f_oslice", "f_refopt", "f_sliceopt", "f_vecopt", "f_optvec", "f_reftup", "f_slarr", "f_resvec", "m_opt", "m_optarg", "m_res", "m_reserr", "m_tup", "m_arr", "m_nest", "m_vec", "tuplef", "from", "aliasopt", "free"}
FLAVORS = {
    "struct": "{d} pub struct {X} {{ pub a: i32, {f} }} impl {X} {{ {m} }}",
    "tuple": "{d} pub struct {X}(pub i32, {t}); impl {X} {{ {m} }}",
    "drop": "{d} pub struct {X} {{ pub a: String, {f} }} impl Drop for {X} {{ fn drop(&mut self) {{}} }} impl {X} {{ {m} }}",
    "enum": "pub enum {X} {{ P, Q(u8), R {{ v: u16, {g} }} }} impl {X} {{ {m} }}",
    "enumc": "#[repr(C)] pub enum {X} {{ P, Q(u8), R {{ v: u16, {g} }} }} impl {X} {{ {m} }}",
    "union": "#[repr(C)] pub union {X} {{ pub a: u32, pub b: [u8; 8] }} impl {X} {{ {m} }}",
    "lifetime": "{d} pub struct {X}Gen<'a> {{ pub p: &'a i32, {f} }} pub type {X} = {X}Gen<'static>; impl {X}Gen<'static> {{ {m} }}",
}
DEFAULT = "impl Default for {X} {{ fn default() -> {X} {{ loop {{}} }} }}"
NAMES = ("Aa", "Mm", "Zz")


class Mod:
    """one arrangement: nodes [(flavor, place)], edges [(src, dst, kind)], order = permutation giving names"""

    def __init__(self, nodes, edges, order, what, names=NAMES):
        self.nodes, self.edges, self.order, self.what = nodes, edges, order, what
        self.errors, self.dep = None, None
        self.names = [names[order[i]] for i in range(len(nodes))]
        self.uid = [f"{i}" for i in range(len(edges))]

    def source(self):
        n = self.names
        place = ["{}", "n::{}", "n::o::{}"]
        out = {"": [], "n": [], "n::o": []}
        path = [p for _f, p in self.nodes]
        sup = {"": "", "n": "super::", "n::o": "super::super::"}

        def ref(frm, to):   # path of a node's name as seen from a place
            return sup[frm] + (path[to] + "::" if path[to] else "") + n[to]
        order = sorted(range(len(n)), key=lambda i: self.order[i])
        for i in order:
            fl, p = self.nodes[i]
            f, m, items = [], [], []
            for u, (s, d, k) in zip(self.uid, self.edges):
                if s != i:
                    continue
                where, text = EDGES[k]
                t = text.format(S=n[s], X=ref(p, d), u=u, N=("a" if self.order[s] % 2 == 0 else "z")) if not k == "reexp" else \
                    text.format(S=n[s], X="", u=u, N="a" if self.order[s] % 2 == 0 else "z").replace("super:: as", "super::" + ref(p, d) + " as")
                {"field": f, "method": m, "item": items}[where].append(t)
            g = [x.replace("pub ", "") for x in f]
            t = [re.sub(r"f\d+: ", "", x) for x in f]
            out[p].append(FLAVORS[fl].format(X=n[i], d="", f=", ".join(f), g=", ".join(g), t=", ".join(t), m=" ".join(m)) + (" " + DEFAULT.format(X=n[i]) if True else "") + " " + " ".join(items))
        s = " ".join(out[""])
        if out["n"] or out["n::o"]:
            s += " pub mod n { " + " ".join(out["n"]) + (" pub mod o { " + " ".join(out["n::o"]) + " }" if out["n::o"] else "") + " }"
        return s

    def uses(self, ns):
        out = []
        for i, (fl, p) in enumerate(self.nodes):
            t = f"{ns}::" + (p + "::" if p else "") + self.names[i]
            out.append(f"static_assert(sizeof({t}) > 0);")
            for u, (s, d, k) in zip(self.uid, self.edges):
                if s == i:
                    out.append(f"USE({t}, m{u})")
        return " ".join(out)


USE = r'''
#include <type_traits>
template <class T> constexpr void sz() { if constexpr (!std::is_void_v<T> && !std::is_function_v<std::remove_pointer_t<std::remove_reference_t<T>>>) static_assert(sizeof(std::remove_reference_t<T>) > 0); }
template <class R, class... P> constexpr bool sig(R (*)(P...)) { sz<R>(); (sz<P>(), ...); return true; }
template <class R, class C, class... P> constexpr bool sig(R (C::*)(P...)) { sz<R>(); (sz<P>(), ...); return true; }
template <class R, class C, class... P> constexpr bool sig(R (C::*)(P...) const) { sz<R>(); (sz<P>(), ...); return true; }
template <class R, class C, class... P> constexpr bool sig(R (C::*)(P...) &&) { sz<R>(); (sz<P>(), ...); return true; }
#define USE(T, M) static_assert([]<class X>(X*) { if constexpr (requires { &X::M; }) return sig(&X::M); else return true; }((T*)nullptr));
'''
COMMENT = re.compile(r"// Error generating bindings for (.*?) `([^`]*)` defined at [^:]*(?::\d+)*?[^ ]*: ?(.*)")


def norm_errors(header, crate, mods):
    """module number -> set of (edge suffix, reason) with names replaced by roles"""
    out = {i: set() for i in range(len(mods))}
    text = re.sub(r"\n\s*// {1,}", " ", header) if False else header
    for m in re.finditer(r"Error generating bindings for ([^`]*) `([^`]*)` defined at\s*((?:\n?\s*//\s*)?[^;]*;l=\d+): ?([^\n]*)", header):
        mm = re.search(r"(?:^|[ <&(])m(\d+)::(.*)", m.group(2))
        if not mm or int(mm.group(1)) >= len(mods):
            continue
        i = int(mm.group(1))
        it = m.group(2)
        out[i].add((m.group(1), it, m.group(4)))
    return out


def role(mod, i, text):
    for k, nm in enumerate(mod.names):
        text = re.sub(r"\b%s(Gen)?\b" % nm, f"<{k}>", text)
    text = text.replace(f"m{i}::", "")
    return re.sub(r"\b[az](\d)", r"N\1", text)


class DepMod(Mod):
    """one dependency on a type of another crate"""

    def __init__(self, f1, f2, k):
        super().__init__([(f1, "")], [(0, 0, k)], (0,), f"{f1} 0-{k}->dep::{f2}")
        self.dep = f2

    def source(self):
        k, X = self.edges[0][2], f"dep::D{self.dep}"
        where, text = EDGES[k]
        t = text.format(S="Aa", X=X, u="0", N="a") if k != "reexp" else text.format(S="Aa", X=X, u="0", N="a").replace("super::", "")
        f = t if where == "field" else ""
        return FLAVORS[self.nodes[0][0]].format(X="Aa", d="", f=f, g=f.replace("pub ", ""), t=re.sub(r"f\d+: ", "", f), m=t if where == "method" else "") + " " + DEFAULT.format(X="Aa") + " " + (t if where == "item" else "")


class Runner:
    def __init__(self, chk, e, args, tag):
        self.chk, self.e, self.args, self.tag, self.n, self.lock = chk, e, args, tag, 0, threading.Lock()
        self.errs = {}

    def attempt(self, mods):
        """None when the crate of these arrangements goes through, else (stage, text)"""
        with self.lock:
            self.n += 1
            name = f"b{self.tag}{self.n}"
        d = fresh_dir(os.path.join(self.chk.dir, name))
        src = "#![allow(warnings)]\n" + "\n".join(f"pub mod m{i} {{ {m.source()} }}" for i, m in enumerate(mods)) + "\n"
        e = self.e
        deps = ["dep"] if any(m.dep for m in mods) else []
        for f in ("libdep.rlib", "dep.h") if deps else ():
            shutil.copy(os.path.join(self.chk.dir, "dep" + self.tag, f), d)
        e.rust_lib(d, name, src, externs=[(x, f"{d}/lib{x}.rlib") for x in deps])
        r = e.generate(d, name, self.args, deps)
        if r.rc != 0:
            return "generation", r.tail(1500)
        main = f'#include "{name}.h"\n#include "{name}.h"\n' + USE + "\n".join(m.uses(f"::{name}::m{i}") for i, m in enumerate(mods)) + "\nint here;\n"
        write(os.path.join(d, "u.cc"), main)
        rs = run(["rustc", "--crate-type=lib", f"--crate-name={name}_cc", "--edition=2021", "-Awarnings", "--cap-lints=allow", "-Cdebuginfo=0", "--emit=metadata", "-o", os.path.join(d, "i.rmeta"), f"-Ldependency={d}", f"-Ldependency={e.root}",
                  *sum((["--extern", f"{n}={p}"] for n, p in e.support_externs() + [(x, os.path.join(d, f"lib{x}.rlib")) for x in [name] + deps]), []), os.path.join(d, "i.rs")], cwd=d, timeout=300) if write(os.path.join(d, "i.rs"), f'#![allow(warnings)] extern crate alloc; extern crate core; #[path="{name}_impl.rs"] mod x;\n') else None
        if rs.rc != 0:
            return "Rust half", rs.tail(1500)
        r = e.cc(d, os.path.join(d, "u.cc"), os.path.join(d, "u.o"), pch=self.n % 8 != 1)
        if r.rc != 0:
            return "C++ compile", "\n".join(l for l in r.err.splitlines() if "error:" in l)[:1500]
        write(os.path.join(d, "v.cc"), f'#include "{name}.h"\nint there;\n')
        if self.n % 8 == 1:
            r = e.cc(d, os.path.join(d, "v.cc"), os.path.join(d, "v.o"), pch=False)
            r2 = run(["ld", "-r", "-o", "w.o", "u.o", "v.o"], cwd=d)
            if r.rc != 0 or r2.rc != 0:
                return "second translation unit", r.tail(800) + r2.tail(800)
        with open(os.path.join(d, name + ".h")) as f:
            hdr = f.read()
        for i, es in norm_errors(hdr, name, mods).items():
            mods[i].errors = {tuple(role(mods[i], i, x) for x in t) for t in es}
        shutil.rmtree(d, ignore_errors=True)
        return None

    def batch(self, mods):
        if self.chk.violations and len(self.chk.violations) >= int(os.environ.get("VMAX", "12")):
            return True
        r = self.attempt(mods)
        if r is None:
            return False
        if len(mods) == 1:
            m = mods[0]
            m.errors = None
            self.chk.violation(f"{self.tag}:{m.what}", f"{r[0]} fails for\n{m.source()}\noptions {list(self.args)}\n{r[1]}")
            return True
        h = len(mods) // 2
        a, b = self.batch(mods[:h]), self.batch(mods[h:])
        if not a and not b:
            # goes wrong only in company: a smallest part that still fails
            step = max(1, len(mods) // 4)
            while step:
                i = 0
                while i < len(mods) and len(mods) > 2:
                    rest = mods[:i] + mods[i + step:]
                    if rest and (r2 := self.attempt(rest)):
                        mods, r = rest, r2
                    else:
                        i += step
                step //= 2
            self.chk.violation(f"{self.tag}:together {' / '.join(m.what for m in mods)[:300]}", f"{r[0]} fails for\n" + "\n".join(f"pub mod m{i} {{ {m.source()} }}" for i, m in enumerate(mods)) + f"\noptions {list(self.args)}\n{r[1]}")
        return True


def check(chk):
    chk.coverage["rule"] = "one case = one arrangement of items (dependency kinds, order, placement) per feature set: generated, both halves compiled, every member function's types complete, and what is left out compared with what the dependency kinds alone leave out"
    e = E2E(chk)
    E = list(EDGES)
    mods = []

    def acyclic(edges, n):
        val = {i: {d for s, d, k in edges if s == i and k in BYVALUE | {"tuplef"} - {"tuplef"}} for i in range(n)}
        def reach(a, seen):
            for b in val[a]:
                if b in seen or b == seen[0] or reach(b, seen + [b]): return True
            return False
        return not any(reach(i, [i]) for i in range(n))

    def add(nodes, edges, order, names=NAMES):
        if not acyclic(edges, len(nodes)):
            return
        if any(k == "f_sliceopt" and nodes[s][0] == "tuple" for s, _d, k in edges):
            return  # see below
        if "union" in [f for f, _ in nodes] and any(EDGES[k][0] == "field" and nodes[s][0] == "union" for s, _d, k in edges):
            return
        # the same trait implementation twice
        impls = set()
        for s, d, k in edges:
            if k in ("from", "into"):
                key = (s, d) if k == "from" else (d, s)
                if key in impls or s == d: return
                impls.add(key)
            elif k == "fromref" and s == d and False:
                return
        what = f"{'+'.join(f'{f}@{p}' if p else f for f, p in nodes)} {' '.join(f'{s}-{k}->{d}' for s, d, k in edges)} order {order}"
        mods.append(Mod(nodes, edges, order, what, names))
    S = ("struct", "")
    # single dependency, every flavor pair, both orders; and on itself
    for k in E:
        for fl in FLAVORS:
            add([(fl, "")], [(0, 0, k)], (0,))
        for f1 in FLAVORS:
            for f2 in FLAVORS:
                if not THOROUGH and "struct" not in (f1, f2): continue
                for o in ((0, 1), (1, 0)):
                    add([(f1, ""), (f2, "")], [(0, 1, k)], o)
        # module placement
        for p1, p2 in itertools.product(("", "n", "n::o"), repeat=2):
            if p1 == p2: continue
            if k in ("reexp",) : continue
            for o in ((0, 1), (1, 0)):
                add([("struct", p1), ("struct", p2)], [(0, 1, k)], o)
                if THOROUGH: add([("enumc", p1), ("drop", p2)], [(0, 1, k), (1, 0, "m_opt")], o)
    # two dependencies: mutual, doubled, and self + other
    for k1 in E:
        for k2 in E:
            if {k1, k2} == {"f_optref", "f_optptr"}: continue  # one C++ type for two Rust types: see below
            for o in ((0, 1), (1, 0)):
                if o == (0, 1): add([S, S], [(0, 1, k1), (1, 0, k2)], o)  # (the other order with k1 and k2 exchanged is the same)
                if THOROUGH or o == (1, 0) and k1 in SPEC and k2 in SPEC:
                    add([S, S], [(0, 1, k1), (1, 1, k2)], o)
                if THOROUGH and k1 <= k2:
                    add([("drop", ""), ("enum", "")], [(0, 1, k1), (0, 1, k2)], o)
                    add([("enumc", ""), ("tuple", "")], [(0, 1, k1), (1, 0, k2)], o)
    # three items
    R = ["f_val", "f_opt", "f_ptr", "f_vec", "m_opt", "m_tup", "m_ref", "from", "free", "tuplef"] if THOROUGH else ["f_val", "f_opt", "f_ptr", "m_opt", "m_tup", "from"]
    for k1, k2, k3 in itertools.product(R, repeat=3):
        for o in itertools.permutations(range(3)):
            add([S] * 3, [(0, 1, k1), (1, 2, k2), (2, 0, k3)], o)
            if k3 == R[0] or THOROUGH:
                add([S] * 3, [(0, 1, k1), (1, 2, k2), (0, 2, k3)], o)
    chk.log(f"{len(mods)} arrangements")
    chk.count(distinct_nontrivial=len(mods))
    chk.sample([mods[i].what for i in range(0, len(mods), max(1, len(mods) // 12))])
    if os.environ.get("VF"): mods = [m for m in mods if re.search(os.environ["VF"], m.what)]
    modes = [("d", ())] + [("s", ("--default-features=supported,layout_compat_tuple,always_specialize_generics_in_cpp_api_from_rust",))]
    for tag, args in modes:
        rn = Runner(chk, e, args, tag)
        ms = mods if tag == "d" or THOROUGH else [m for m in mods if len(m.edges) == 1 or all(k in SPEC for _s, _d, k in m.edges) and len(m.edges) == 2 and m.edges[1][1] == 0]
        for m in ms: m.errors = None
        # a crate whose types the others use
        dd = fresh_dir(os.path.join(chk.dir, "dep" + tag))
        e.rust_lib(dd, "dep", "#![allow(warnings)]\n" + "\n".join(FLAVORS[f].format(X="D" + f, d="", f="pub b: u8" if f in ("struct", "drop", "lifetime") else "", g="", t="u8", m="") + " " + DEFAULT.format(X="D" + f) for f in FLAVORS) + "\n")
        r = e.generate(dd, "dep", args)
        if r.rc != 0:
            chk.violation(tag + ":dep", "generation fails:\n" + r.tail(1500))
            continue
        ms = ms + [DepMod(f1, f2, k) for f1 in (FLAVORS if THOROUGH else ("struct", "enumc")) for f2 in FLAVORS for k in E if k != "f_optptr"  # (with f_optref: see below)
                   if not (f1 == "union" and EDGES[k][0] == "field") and not (f1 == "tuple" and k == "f_sliceopt")]
        B = 64
        pmap(rn.batch, [ms[i:i + B] for i in range(0, len(ms), B)])
        chk.count(evaluations=len(ms))
        chk.log(f"mode {tag}: {rn.n} crates")
        # two Rust types that could become one C++ type
        d2 = []
        for w, (a, b) in itertools.product(("Option<{}>", "Vec<{}>", "Result<{}, u8>", "Result<u8, {}>", "({}, u8)", "[{}; 2]", "&'static [{}]", "Option<({}, u8)>"), (("&'static Tx", "*const Tx"), ("&'static mut Tx", "*mut Tx"), ("&'a Tx", "&'static Tx"), ("u64", "usize"), ("i64", "isize"), ("Tx", "Al"), ("u8", "bool"), ("u32", "char"),
                                                    ("Tx", "n::Tx"), ("i32", "std::ffi::c_int"), ("&'static str", "&'static [u8]"), ("u8", "i8"))):
            d2.append((w, a, b, f"pub struct Tx {{ pub a: i32 }} pub type Al = Tx; pub mod n {{ pub struct Tx {{ pub a: i32 }} }} pub struct Aa {{ pub p: {w.format(a).replace(chr(39) + 'a', chr(39) + 'static')} }} pub struct Mm {{ pub p: {w.format(b)} }} pub fn f0<'a>(x: &{w.format(a)}, y: &'a u8) {{ }} pub fn f1<'a>(x: &{w.format(b)}, y: &'a u8) {{ }}"))
        for x in ("Option<Tx>", "Vec<Tx>", "Result<Tx, u8>", "(Tx, u8)", "Tx", "Option<Aa>", "Vec<Aa>", "Result<Aa, u8>", "[Aa; 2]", "Aa"):
            d2.append(("{}", x, "tuple struct of a slice", f"pub struct Tx {{ pub a: i32 }} pub struct Aa(pub u8, pub &'static [{x}]);"))
        def two(x):
            w, a, b, src = x
            m = Mod([("struct", "")], [], (0,), f"{w.format(a)} and {w.format(b)}")
            m.source = lambda: src
            return rn.attempt([m])
        if tag == "s" and not THOROUGH: d2 = []
        for (w, a, b, src), r in zip(d2, pmap(two, d2)):
            chk.count(evaluations=1, distinct_nontrivial=1)
            if r:
                chk.violation(f"{tag}: {w.format(a)} and {w.format(b)} in one crate", f"{r[0]} fails for\n{src}\n{r[1]}")
        # what is left out is decided by the dependency alone
        base = {}
        for m in ms:
            if len(m.edges) == 1 and m.errors is not None and not m.dep:
                s, d, k = m.edges[0]
                key = (m.nodes[s][0], m.nodes[d][0] if s != d else "self", k)
                es = {tuple(x.replace("<1>", "<X>").replace("<0>", "<S>") for x in t) for t in m.errors}
                if key in base and base[key][0] != {t[:2] for t in es} and m.nodes[s][1] == m.nodes[d][1]:
                    chk.violation(f"{tag}:order {key}", f"what is left out depends on the order: {m.what}: {sorted(es)[:3]} but {base[key][1]}: {sorted(base[key][0])[:3]}\n{m.source()}")
                base.setdefault(key, ({t[:2] for t in es}, m.what))
        for m in ms:
            if len(m.edges) < 2 or m.errors is None:
                continue
            want = set()
            for u, (s, d, k) in enumerate(m.edges):
                key = (m.nodes[s][0], m.nodes[d][0] if s != d else "self", k)
                for t in base.get(key, (set(), ""))[0]:
                    want.add(tuple(re.sub(r"\b([fmN]|C)0", rf"\g<1>{u}", x.replace("<X>", f"<{d}>").replace("<S>", f"<{s}>")) for x in t))
            got = {t[:2] for t in m.errors}
            if got != want:
                chk.violation(f"{tag}:company {m.what}", f"what is left out depends on the company: {m.what}\nleft out {sorted(got - want)[:4]}, expected to be left out {sorted(want - got)[:4]}; reasons {sorted(m.errors)[:4]}\n{m.source()}")


main(check, "C04", "exploration")
