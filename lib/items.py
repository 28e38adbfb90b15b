"""Menus of supported, unsupported and private items, and how to find what is generated for each module."""
import collections, re

# (slot, text, what must be reported); @ is replaced by a number
TOP = [("pub fn u@a<T>(x: T) {}", "u@a"), ("pub fn u@b(x: i128) {}", "u@b"), ("pub fn u@c(x: &dyn std::fmt::Debug) {}", "u@c"), ("pub fn u@d() -> impl Fn() { || () }", "u@d"), ("pub fn u@e(x: Box<S>) {}", "u@e"),
       ("pub fn u@f<const N: usize>() {}", "u@f"), ("pub const U@G: Option<i32> = None;", "U@G"), ("pub static U@H: i32 = 3;", "U@H"), ("pub static mut U@I: i32 = 3;", "U@I"), ("pub struct U@J<T>(pub T);", "U@J"), ("pub struct U@K;", "U@K"),
       ("pub enum U@L {}", "U@L"), ("pub type U@M = Box<S>;", "U@M"), ("pub type U@N<T> = Vec<T>;", "U@N"), ("pub union U@O<T: Copy> { pub a: T }", "U@O"), ("pub async fn u@p() -> Box<S> { loop {} }", "u@p"),
       ("pub unsafe extern \"C\" fn u@q(x: fn(i32)) {}", "u@q"), ("pub fn u@r(x: std::ops::Range<i32>) {}", "u@r"), ("pub fn u@s(x: std::cell::Cell<i32>) {}", "u@s"), ("pub const U@T: [i32; 2] = [1, 2];", "U@T"), ("pub struct U@U<const N: usize> { pub x: [u8; N] }", "U@U"),
       ("pub fn u@v(x: Vec<Box<i32>>) {}", "u@v"), ("pub fn u@w(x: *const dyn Fn()) {}", "u@w"), ("pub fn u@x(x: Option<Box<()>>) {}", "u@x"), ("pub fn u@y(x: &std::ffi::CStr) {}", "u@y"), ("pub fn u@z(x: std::pin::Pin<&mut S>) {}", "u@z"),
       ("pub struct Ua@<T>(T); pub fn ua@(x: Ua@<i32>) -> Ua@<S> { loop {} }", "Ua@ ua@"), ("pub const Ub@: (S, S) = (S { a: 1, b: 1 }, S { a: 1, b: 2 });", "Ub@"), ("pub fn uc@(s: S, e: E, x: i128) -> Al { s }", "uc@"), ("pub fn ud@(f: impl Into<Box<S>>) {}", "ud@"),
       ("pub struct Ue@(std::marker::PhantomData<S>); impl Ue@ { pub fn m(&self, s: S) {} pub const C: i32 = 4; } pub fn ue@(x: Ue@) {}", "Ue@ ue@"), ("pub type Uf@ = fn(S) -> S;", "Uf@"), ("pub mod um@ { pub struct Z; pub fn z(x: Box<super::S>) {} }", "um@::Z um@::z"),
       ("pub fn ug@(x: Option<Box<S>>, y: Result<S, Box<E>>) {}", "ug@"), ("pub const UH@: char = 'x';", "UH@"), ("pub fn ui@(x: &mut dyn Tr) {}", "ui@"), ("pub fn uj@(x: S) -> (S, Box<E>) { loop {} }", "uj@"), ("pub fn uk@(x: [Box<S>; 2]) {}", "uk@")]
IMPL = [("pub fn u@ma<T>(x: T) {}", "S::u@ma"), ("pub fn u@mb(&self, x: i128) {}", "S::u@mb"), ("pub fn u@mc(self: Box<Self>) {}", "S::u@mc"), ("pub fn u@md(&self) -> Box<S> { loop {} }", "S::u@md"), ("pub const U@C: Option<S> = None;", "S::U@C"), ("pub const U@D: [S; 0] = [];", "S::U@D"),
        ("pub fn u@me(self: std::rc::Rc<Self>) {}", "S::u@me"), ("pub fn u@mf<const N: usize>(&self) {}", "S::u@mf"), ("pub fn u@mg(&self, f: &dyn Fn(S)) {}", "S::u@mg"), ("pub async fn u@mh(&self) -> Box<S> { loop {} }", "S::u@mh"), ("pub fn u@mi(&self) -> impl Iterator<Item = S> { None.into_iter() }", "S::u@mi"),
        ("pub fn u@mj(self: std::pin::Pin<&mut Self>) {}", "S::u@mj")]
# trait implementations that have no C++ form: nothing to report, and nothing may change
TRAITS = ["impl From<Box<i32>> for S { fn from(x: Box<i32>) -> S { loop {} } }", "impl PartialEq<Box<i32>> for S { fn eq(&self, o: &Box<i32>) -> bool { false } }", "impl std::ops::Add<Box<S>> for S { type Output = S; fn add(self, o: Box<S>) -> S { self } }",
          "impl std::ops::Index<i128> for S { type Output = S; fn index(&self, i: i128) -> &S { self } }", "impl std::fmt::LowerHex for S { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }", "impl std::ops::Fn2 for S {}", "impl Iterator for S { type Item = Box<S>; fn next(&mut self) -> Option<Box<S>> { None } }",
          "impl Gt<Box<S>> for S { fn g(&self, t: Box<S>) {} }", "impl std::hash::Hash for S { fn hash<H: std::hash::Hasher>(&self, h: &mut H) {} }", "impl std::io::Write for S { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { Ok(0) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }",
          "impl std::convert::TryFrom<i128> for S { type Error = (); fn try_from(x: i128) -> Result<S, ()> { Err(()) } }", "impl AsRef<dyn Tr> for S { fn as_ref(&self) -> &(dyn Tr + 'static) { self } }", "impl std::ops::Deref for S { type Target = [Box<S>]; fn deref(&self) -> &[Box<S>] { &[] } }",
          "impl<T> PartialEq<Vec<T>> for S { fn eq(&self, o: &Vec<T>) -> bool { false } }", "impl<'a> std::ops::AddAssign<&'a Box<S>> for S { fn add_assign(&mut self, o: &'a Box<S>) {} }", "impl From<S> for Box<E> { fn from(x: S) -> Box<E> { loop {} } }", "impl Extend<Box<S>> for S { fn extend<I: IntoIterator<Item = Box<S>>>(&mut self, i: I) {} }"]
TRAITS = [t for t in TRAITS if "Fn2" not in t]
# not part of the public interface: no bindings, no reports
PRIV = ["fn p@a(s: S) {}", "pub(crate) fn p@b(s: S) {}", "struct P@C { pub a: S }", "pub(super) enum P@D { A }", "mod p@e { pub struct PX@ { pub a: i32 } pub fn p@f() {} }", "const P@G: i32 = 3;", "trait P@H { fn h(); } impl P@H for S { fn h() {} }", "type P@I = S;", "static P@J: i32 = 3;",
        "impl S { fn p@k(&self) {} pub(crate) fn p@l(x: i32) {} const P@M: i32 = 1; }", "macro_rules! p@n { () => {} }", "use n::T as P@O;", "pub(in super) fn p@q() {}", "union P@R { a: i32 }", "mod p@s { pub mod p@t { pub fn p@u() {} pub struct P@V<T>(T); } pub use p@t::p@u; }", "fn p@w<T>(x: T) -> Box<T> { loop {} }",
        "pub(crate) mod p@x { pub struct P@Y(pub i32); impl P@Y { pub fn p@z() {} } }"]
V = """pub struct S { pub a: i32, b: u8 @F } impl S { pub fn new(a: i32) -> S { loop {} } pub fn get(&self) -> i32 { 1 } pub fn put(&mut self, e: E) {} pub const K: i32 = 3; @I } impl Clone for S { fn clone(&self) -> S { loop {} } } impl Default for S { fn default() -> S { loop {} } } impl PartialEq for S { fn eq(&self, o: &S) -> bool { true } } impl std::ops::Neg for S { type Output = S; fn neg(self) -> S { self } } impl From<i32> for S { fn from(x: i32) -> S { loop {} } }
#[derive(Clone, Copy)] pub enum E { A, B(i32) } pub fn f(s: &S) -> Option<E> { None } pub mod n { pub struct T(pub i32); pub fn g(t: T) -> T { t } @N } pub trait Tr { fn t(&self) -> i32; fn u(&self, s: S) -> i32 { 1 } } impl Tr for S { fn t(&self) -> i32 { 1 } } pub trait Gt<T> { fn g(&self, t: T); } pub type Al = S; pub use n::T as T2; pub const C: &str = "x"; pub fn h(v: Vec<S>, x: Result<S, i32>) -> (S, Al) { loop {} } pub union Q { pub a: u32 } @T"""


def module(i, extra):
    """extra: list of (slot, text)"""
    parts = collections.defaultdict(list)
    for s, t in extra:
        parts[s].append(t)
    first = " ".join(parts["first"])
    return f"pub mod m{i} {{ {first} " + V.replace("@I", " ".join(parts["impl"])).replace("@N", " ".join(parts["n"])).replace("@T", " ".join(parts["last"])).replace("@F", "").replace("\n", " ") + " }"


def pieces(text):
    """module -> Counter of lines about it; comments about unsupported items apart"""
    out = collections.defaultdict(collections.Counter)
    text = re.sub(r"__crubit_thunk_\w*?([a-z]\w{0,14})?\b", lambda m: "__crubit_thunk_", text)      # mangled names count the impl blocks before
    text = re.sub(r"\b_R\w+", "_R", text)
    ns = None
    depth = 0
    for line in text.split("\n"):
        t = line.strip()
        m = re.match(r"namespace ([\w:]+)\s*\{", t)
        if m and depth == 0:
            mm = re.search(r"\bm(\d{4})\b", m.group(1))
            ns = mm.group(1) if mm else None
        code = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'|//.*', "", t)
        depth += code.count("{") - code.count("}")
        key = ns
        if key is None or depth == 0:
            ids = set(re.findall(r"m(1\d{3})\b|m(1\d{3})(?=[^\d])", t))
            ids = {a or b for a, b in ids}
            key = ids.pop() if len(ids) == 1 else key
        if t and key and not re.match(r"namespace [\w:]+\s*\{$", t) and t != "}" and "Error generating bindings" not in t:
            out[key][re.sub(r"l=\d+", "l=", t.replace("m" + key, "mNNNN"))] += 1
        if depth == 0:
            ns = None
    return out
