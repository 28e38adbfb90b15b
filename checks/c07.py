#!/usr/bin/env python3
"""C07: every word that is reserved or special in C++ in every naming position; pairs of positions that share a name;
the C++ compiler finds exactly the expected item under the expected name."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import itertools, json, collections, re

# the C++23 reserved words (and the technical specifications') that are identifiers in Rust, from the standard
KW = """alignas alignof and and_eq asm atomic_cancel atomic_commit atomic_noexcept auto bitand bitor bool break case catch char char8_t char16_t char32_t class compl concept const consteval constexpr constinit
const_cast continue co_await co_return co_yield decltype default delete do double dynamic_cast else enum explicit export extern false float for friend goto if inline int long mutable namespace new noexcept not not_eq
nullptr operator or or_eq private protected public reflexpr register reinterpret_cast requires return short signed sizeof static static_assert static_cast struct switch synchronized template this thread_local throw true try
typedef typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq""".split()
RUST = set("as break const continue else enum extern false fn for if impl in let loop match mod move mut pub ref return static struct trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen".split())
ORD = "ordinary x_ _x X9 camelCase SCREAMING größe 名前 class_ new_ int_ std rs rs_std crubit core alloc foo string optional tuple int32_t size_t ptrdiff_t value self_ Default Clone Drop main tag Tag MakeX swap clone move forward begin end override final import module get set type item data operator_ final_ absl support internal fn in let match mod ref where async await dyn box priv yield abstract become macro typeof unsized gen loop mut type impl".split()
MACROS = "NULL assert errno EOF stdin stdout INT_MAX INT32_C UINT8_MAX offsetof setjmp SIGINT BUFSIZ FLT_MAX EINVAL INFINITY NAN CHAR_BIT SEEK_SET PRId32 RAND_MAX EXIT_SUCCESS SIGABRT LC_ALL DBL_MIN HUGE_VAL FP_NAN va_start va_arg CLOCKS_PER_SEC TIME_UTC WEOF MB_CUR_MAX L_tmpnam _IOFBF EDOM ERANGE INT64_C SIZE_MAX PTRDIFF_MIN WCHAR_MAX math_errhandling ATOMIC_VAR_INIT".split()


def rust(w):
    return "r#" + w if w in RUST else w


# @ the name in Rust, $ the expected name in C++, N the C++ namespace of the module, K the number to find
# (what, Rust, C++ condition, item whose report excuses it)
POS = [
    ("fn", "pub fn @() -> i32 { K }", "N::$() == K", "@"),
    ("fn with arguments", "pub fn @(a: i32, b: &i32) -> i32 { K + a + *b }", "[] { int x = 2; return N::$(1, x) == K + 3; }()", "@"),
    ("extern C fn", "pub extern \"C\" fn @() -> i32 { K }", "N::$() == K", "@"),
    ("unsafe fn", "pub unsafe fn @() -> i32 { K }", "N::$() == K", "@"),
    ("struct", "#[derive(Default, Clone)] pub struct @ { pub a: i32 } impl @ { pub fn mk() -> @ { @ { a: K } } pub fn read_it(&self) -> i32 { self.a } } pub fn use_it(x: &@) -> i32 { x.a } pub mod sub { pub fn g(x: super::@) -> super::@ { x } } pub struct Ho { pub h: @ } impl Ho { pub fn mk() -> Ho { Ho { h: @::mk() } } }",
     "N::use_it(N::$::mk()) == K && N::sub::g(N::$::mk()).read_it() == K && std::is_same_v<decltype(N::sub::g(N::$::mk())), N::$> && [] { N::$ v; N::$ w(v); return w.a == 0; }() && N::Ho::mk().h.a == K", "@"),
    ("tuple struct", "#[derive(Clone, Copy)] pub struct @(pub i32); pub fn mk() -> @ { @(K) } pub fn us(x: @) -> i32 { x.0 }", "N::us(N::mk()) == K && N::us(N::$(K)) == K && std::is_same_v<decltype(N::mk()), N::$>", "@"),
    ("private struct field", "pub struct St { @: i32, pub z: i32 } impl St { pub fn mk() -> St { St { @: K, z: K } } pub fn rd(&self) -> i32 { self.@ } }", "N::St::mk().rd() == K && N::St::mk().z == K", "St"),
    ("enum", "#[derive(Clone, Copy)] pub enum @ { Aa, Bb(i32) } impl @ { pub fn rd(&self) -> i32 { match self { @::Aa => 0, @::Bb(x) => *x } } } pub fn us(x: @) -> i32 { x.rd() }", "N::us(N::$::MakeBb(K)) == K && N::$::MakeBb(K).rd() == K", "@"),
    ("repr enum", "#[repr(C)] #[derive(Clone, Copy)] pub enum @ { Aa, Bb(i32) } pub fn us(x: @) -> i32 { match x { @::Aa => 0, @::Bb(x) => x } }", "N::us(N::$::MakeBb(K)) == K", "@"),
    ("variant", "#[derive(Clone, Copy)] pub enum En { @, Ot } pub fn us(x: En) -> i32 { if let En::@ = x { K } else { 0 } }", "N::us(MK(N::En, @)) == K && N::us(N::En::MakeOt()) == 0", "En::@"),
    ("payload variant", "#[derive(Clone, Copy)] pub enum En { Ot, @(i32) } pub fn us(x: En) -> i32 { if let En::@(y) = x { y } else { 0 } }", "N::us(MK(N::En, @, K)) == K", "En::@"),
    ("struct variant", "#[derive(Clone, Copy)] pub enum En { Ot, @ { @: i32 } } pub fn us(x: En) -> i32 { if let En::@ { @: y } = x { y } else { 0 } }", "N::us(MK(N::En, @, K)) == K", "En::@"),
    ("repr variant", "#[repr(C)] #[derive(Clone, Copy)] pub enum En { Ot, @ { fi: i32 } } pub fn us(x: En) -> i32 { if let En::@ { fi: y } = x { y } else { 0 } } pub fn mk() -> En { En::@ { fi: K } }", "[] { N::En e = N::mk(); return e.tag == N::En::Tag::$ && e.$.fi == K && N::us(e) == K; }()", "En::@"),
    ("repr variant field", "#[repr(C)] #[derive(Clone, Copy)] pub enum En { Ot, Va { @: i32 } } pub fn us(x: En) -> i32 { if let En::Va { @: y } = x { y } else { 0 } } pub fn mk() -> En { En::Va { @: K } }", "[] { N::En e = N::mk(); return e.Va.$ == K && N::us(e) == K; }()", "En::Va"),
    ("cpp_enum variant", "#[doc = \"CRUBIT_ANNOTATE: cpp_enum=enum class\"] #[repr(transparent)] pub struct En(i32); impl En { pub const ot: En = En(0); pub const @: En = En(K); }", "static_cast<int>(N::En::$) == K", "En::@"),
    ("field", "#[derive(Clone, Copy)] pub struct St { pub pre: u8, pub @: i32, pub post: i64 } pub fn mk() -> St { St { pre: 1, @: K, post: 3 } } impl St { pub fn rd(&self) -> i32 { self.@ } }", "N::mk().$ == K && [] { auto s = N::mk(); s.$ += 1; return s.rd() == K + 1 && s.post == 3; }()", "St::@"),
    ("pointer field", "pub struct St { pub @: *const i32 } pub fn mk() -> St { static X: i32 = K; St { @: &X } }", "*N::mk().$ == K", "St::@"),
    ("union", "#[derive(Clone, Copy)] pub union @ { pub a: i32, pub b: f32 } pub fn us(x: @) -> i32 { unsafe { x.a } } pub fn mk() -> @ { @ { a: K } }", "N::us(N::mk()) == K && std::is_same_v<decltype(N::mk()), N::$>", "@"),
    ("union field", "#[repr(C)] #[derive(Clone, Copy)] pub union Un { pub ot: f32, pub @: i32 } pub fn mk() -> Un { Un { @: K } }", "N::mk().$ == K", "Un::@"),
    ("method", "#[derive(Clone, Copy)] pub struct St { pub q: i32 } impl St { pub fn @(&self, k: i32) -> i32 { K + k } pub fn mk() -> St { St { q: 1 } } }", "N::St::mk().$(1) == K + 1", "St::@"),
    ("mut method", "pub struct St { pub q: i32 } impl St { pub fn @(&mut self) -> i32 { self.q = 9; K } pub fn mk() -> St { St { q: 1 } } }", "[] { auto s = N::St::mk(); return s.$() == K && s.q == 9; }()", "St::@"),
    ("consuming method", "pub struct St { pub q: i32 } impl St { pub fn @(self) -> i32 { K } pub fn mk() -> St { St { q: 1 } } }", "N::St::mk().$() == K", "St::@"),
    ("enum method", "pub enum En { Aa, Bb } impl En { pub fn @(&self) -> i32 { K } }", "N::En::MakeAa().$() == K", "En::@"),
    ("static method", "pub struct St { pub q: i32 } impl St { pub fn @() -> i32 { K } }", "N::St::$() == K", "St::@"),
    ("constructor-like", "pub struct St { pub q: i32 } impl St { pub fn @() -> St { St { q: K } } }", "N::St::$().q == K", "St::@"),
    ("associated constant", "pub struct St { pub q: i32 } impl St { pub const @: i32 = K; }", "N::St::$ == K", "St::@"),
    ("constant", "pub const @: i32 = K;", "N::$ == K", "@"),
    ("alias", "pub struct St { pub q: i32 } pub type @ = St; impl St { pub fn mk() -> St { St { q: K } } } pub fn us(x: &@) -> i32 { x.q }", "std::is_same_v<N::$, N::St> && N::us(N::$::mk()) == K", "@"),
    ("alias of a primitive", "pub type @ = i16; pub fn us(x: @) -> i32 { K + x as i32 }", "std::is_same_v<N::$, std::int16_t> && N::us(N::$(2)) == K + 2", "@"),
    ("module", "pub mod @ { pub fn ff() -> i32 { K } #[derive(Clone, Copy)] pub struct St { pub q: i32 } pub fn us(x: St, y: super::Ou) -> i32 { x.q + y.q } } #[derive(Clone, Copy)] pub struct Ou { pub q: i32 } pub fn mk() -> @::St { @::St { q: K } } pub fn mo() -> Ou { Ou { q: 0 } }", "N::$::ff() == K && N::$::us(N::mk(), N::mo()) == K && std::is_same_v<decltype(N::mk()), N::$::St>", "@"),
    ("nested modules", "pub mod a { pub mod @ { pub mod b { pub fn ff() -> i32 { K } pub mod @ { pub struct St { pub q: i32 } pub fn mk() -> St { St { q: K } } } } } }", "N::a::$::b::ff() == K && N::a::$::b::$::mk().q == K", "a::@"),
    ("trait", "pub trait @ { fn me(&self) -> i32; } #[derive(Clone, Copy)] pub struct St { pub q: i32 } impl @ for St { fn me(&self) -> i32 { K } } pub fn mk() -> St { St { q: 1 } }", "[] { auto s = N::mk(); return rs_std::impl<N::St, N::$>::me(s) == K; }()", "@"),
    ("trait method", "pub trait Tr { fn @(&self) -> i32; } #[derive(Clone, Copy)] pub struct St { pub q: i32 } impl Tr for St { fn @(&self) -> i32 { K } } pub fn mk() -> St { St { q: 1 } }", "[] { auto s = N::mk(); return rs_std::impl<N::St, N::Tr>::$(s) == K; }()", "Tr::@"),
    ("static trait method", "pub trait Tr { fn @(x: i32) -> i32; } #[derive(Clone, Copy)] pub struct St { pub q: i32 } impl Tr for St { fn @(x: i32) -> i32 { K + x } }", "rs_std::impl<N::St, N::Tr>::$(1) == K + 1", "Tr::@"),
    ("parameter", "pub fn ff(@: i32, b: &i32) -> i32 { K + @ } pub struct St { pub q: i32 } impl St { pub fn me(&self, @: i32) -> i32 { K + @ } pub fn mk(@: i32) -> St { St { q: @ } } } pub fn gg<'a>(@: &'a St) -> &'a i32 { &@.q } pub fn hh(@: St) -> St { @ }", "[] { int x = 1; auto s = N::St::mk(K); return N::ff(1, x) == K + 1 && s.me(2) == K + 2 && N::gg(&s) == K; }() && N::hh(N::St::mk(K)).q == K", "ff"),
    ("async function", "pub async fn @(x: i32) -> i32 { K + x } pub async fn gg(@: i32) -> i32 { @ }", "sizeof(N::$(1)) > 0 && sizeof(N::gg(1)) > 0", "@"),
    ("reexport of a struct", "mod pr { pub struct St { pub q: i32 } impl St { pub fn mk() -> St { St { q: K } } } } pub use pr::St as @; pub mod ot { pub fn us(x: super::@) -> i32 { x.q } }", "N::ot::us(N::$::mk()) == K", "@"),
    ("second name of a struct", "pub struct St { pub q: i32 } impl St { pub fn mk() -> St { St { q: K } } } pub mod ot { pub use super::St as @; pub fn us(x: @) -> i32 { x.q } } pub use St as @;", "N::ot::us(N::$::mk()) == K && std::is_same_v<N::ot::$, N::St> && std::is_same_v<N::$, N::St>", "@"),
    ("reexport of a function", "mod pr { pub fn inner() -> i32 { K } } pub use pr::inner as @;", "N::$() == K", "@"),
    ("second name of a function", "pub fn first() -> i32 { K } pub mod ot { pub use super::first as @; }", "N::first() == K && N::ot::$() == K", "ot::@"),
    ("same name of a function elsewhere", "pub fn @() -> i32 { K } pub mod ot { pub use super::@; }", "N::$() == K && N::ot::$() == K", "@"),
    ("same name of a struct elsewhere", "pub struct @ { pub q: i32 } impl @ { pub fn mk() -> @ { @ { q: K } } } pub mod ot { pub use super::@; } pub mod gl { pub use super::*; }", "N::ot::$::mk().q == K && std::is_same_v<N::$, N::ot::$>", "@"),
    ("reexport of an enum", "mod pr { #[derive(Clone, Copy)] pub enum En { Aa(i32) } } pub use pr::En as @; pub fn us(x: @) -> i32 { let @::Aa(y) = x; y }", "N::us(N::$::MakeAa(K)) == K", "@"),
    ("reexport of an alias", "mod pr { pub type In = i16; pub struct Ty { pub q: i32 } pub type Al = Ty; } pub use pr::In as @; pub use pr::Ty; pub mod ot { pub use super::pr::Al as @; pub fn us(x: @) -> i32 { x.q } pub fn mk() -> super::Ty { @ { q: K } } }", "std::is_same_v<N::$, std::int16_t> && std::is_same_v<N::ot::$, N::Ty> && N::ot::us(N::ot::mk()) == K", "@"),
    ("reexport of a union", "mod pr { #[derive(Clone, Copy)] pub union Un { pub a: i32, pub b: f32 } pub fn mk() -> Un { Un { a: K } } } pub use pr::Un as @; pub use pr::mk; pub fn us(x: @) -> i32 { unsafe { x.a } }", "N::us(N::mk()) == K && std::is_same_v<decltype(N::mk()), N::$>", "@"),
    ("reexport of a trait", "mod pr { pub trait Tr { fn me(&self) -> i32; } } pub use pr::Tr as @; #[derive(Clone, Copy)] pub struct St { pub q: i32 } impl @ for St { fn me(&self) -> i32 { K } } pub fn mk() -> St { St { q: 1 } }", "[] { auto s = N::mk(); return rs_std::impl<N::St, N::$>::me(s) == K; }()", "@"),
    ("second name of a trait", "pub trait Tr { fn me(&self) -> i32; } pub mod ot { pub use super::Tr as @; } #[derive(Clone, Copy)] pub struct St { pub q: i32 } impl ot::@ for St { fn me(&self) -> i32 { K } } pub fn mk() -> St { St { q: 1 } }", "[] { auto s = N::mk(); return rs_std::impl<N::St, N::ot::$>::me(s) == K; }()", "ot::@"),
    ("second name of an alias", "pub type Al = i16; pub mod ot { pub use super::Al as @; }", "std::is_same_v<N::ot::$, std::int16_t> && std::is_same_v<N::Al, std::int16_t>", "ot::@"),
    ("reexport of a module", "mod pr { pub mod inner { pub fn ff() -> i32 { K } } } pub use pr::inner as @;", "N::$::ff() == K", "@"),
    ("reexport of a constant", "mod pr { pub const CC: i32 = K; } pub use pr::CC as @;", "N::$ == K", "@"),
    ("second name of a constant", "pub const CC: i32 = K; pub mod ot { pub use super::CC as @; }", "N::CC == K && N::ot::$ == K", "CC"),
    ("lifetime", "pub struct St<'L@> { pub q: &'L@ i32 } impl<'L@> St<'L@> { pub fn rd<'M@>(&'M@ self, x: &'L@ i32) -> &'L@ i32 { x } } pub fn ff<'L@, 'M@: 'L@>(x: &'L@ i32, y: &'M@ i32) -> &'L@ i32 { x }", "[] { int a = K, b = 1; return N::ff(&a, &b) == K; }()", "St"),
    ("type parameter and impl trait", "pub fn ff(@: impl Into<i32>) -> i32 { K + @.into() }", "N::ff(1) == K + 1", "ff"),
    ("conversion target", "pub struct @ { pub a: i32 } impl From<i32> for @ { fn from(x: i32) -> @ { @ { a: x } } } impl From<@> for i64 { fn from(x: @) -> i64 { x.a as i64 } } impl Clone for @ { fn clone(&self) -> @ { @ { a: self.a } } } impl Default for @ { fn default() -> @ { @ { a: K } } } impl PartialEq for @ { fn eq(&self, o: &@) -> bool { self.a == o.a } }",
     "[] { N::$ a(K), b(a), c; return a == b && c == a && static_cast<std::int64_t>(std::move(b)) == K; }()", "@"),
    ("in generics", "#[derive(Clone)] pub struct @ { pub a: i32 } pub fn mk() -> Option<@> { Some(@ { a: K }) } pub fn mv() -> Vec<@> { vec![@ { a: K }] } pub fn mr() -> Result<@, @> { Ok(@ { a: K }) } pub fn tu() -> (@, i32) { (@ { a: K }, 1) } pub fn sl(x: &[@]) -> i32 { x[0].a }",
     "N::mk()->a == K && [] { auto v = N::mv(); return v[0].a == K; }() && std::get<0>(N::tu()).a == K && [] { auto v = N::mv(); return N::sl(v) == K; }()", "@"),
    ("cpp_name fn", "#[doc = \"CRUBIT_ANNOTATE: cpp_name=Renamed\"] pub fn @() -> i32 { K } pub mod ot { pub use super::@; }", "N::Renamed() == K", "@"),
    ("cpp_name struct", "#[doc = \"CRUBIT_ANNOTATE: cpp_name=Renamed\"] #[derive(Clone)] pub struct @ { pub a: i32 } impl @ { pub fn mk() -> @ { @ { a: K } } } pub fn us(x: &@) -> Option<@> { Some(x.clone()) }", "N::us(N::Renamed::mk())->a == K && std::is_same_v<decltype(N::Renamed::mk()), N::Renamed>", "@"),
    ("cpp_name enum", "#[doc = \"CRUBIT_ANNOTATE: cpp_name=Renamed\"] #[derive(Clone, Copy)] pub enum @ { Aa, Bb(i32) } pub fn us(x: @) -> i32 { match x { @::Aa => 0, @::Bb(x) => x } }", "N::us(N::Renamed::MakeBb(K)) == K", "@"),
    ("cpp_name union", "#[doc = \"CRUBIT_ANNOTATE: cpp_name=Renamed\"] #[derive(Clone, Copy)] pub union @ { pub a: i32, pub b: f32 } pub fn us(x: @) -> i32 { unsafe { x.a } } pub fn mk() -> @ { @ { a: K } }", "[] { N::Renamed r = N::mk(); return N::us(r) == K; }()", "@"),
    ("cpp_name method", "pub struct St { pub q: i32 } impl St { #[doc = \"CRUBIT_ANNOTATE: cpp_name=Renamed\"] pub fn @(&self) -> i32 { K } pub fn mk() -> St { St { q: 1 } } }", "N::St::mk().Renamed() == K", "St::@"),
    ("cpp_name static method", "pub struct St { pub q: i32 } impl St { #[doc = \"CRUBIT_ANNOTATE: cpp_name=Renamed\"] pub fn @() -> i32 { K } }", "N::St::Renamed() == K", "St::@"),
    ("cpp_name constant", "#[doc = \"CRUBIT_ANNOTATE: cpp_name=Renamed\"] pub const @: i32 = K;", "N::Renamed == K", "@"),
    ("cpp_name associated constant", "pub struct St { pub q: i32 } impl St { #[doc = \"CRUBIT_ANNOTATE: cpp_name=Renamed\"] pub const @: i32 = K; }", "N::St::Renamed == K", "St::@"),
    ("cpp_name alias", "pub struct St { pub q: i32 } #[doc = \"CRUBIT_ANNOTATE: cpp_name=Renamed\"] pub type @ = St; impl St { pub fn mk() -> St { St { q: K } } } pub fn us(x: &@) -> i32 { x.q }", "std::is_same_v<N::Renamed, N::St> && N::us(N::Renamed::mk()) == K", "@"),
    ("cpp_name trait", "#[doc = \"CRUBIT_ANNOTATE: cpp_name=Renamed\"] pub trait @ { fn me(&self) -> i32; } #[derive(Clone, Copy)] pub struct St { pub q: i32 } impl @ for St { fn me(&self) -> i32 { K } } pub fn mk() -> St { St { q: 1 } }", "[] { auto s = N::mk(); return rs_std::impl<N::St, N::Renamed>::me(s) == K; }()", "@"),
    ("cpp_name trait method", "pub trait Tr { #[doc = \"CRUBIT_ANNOTATE: cpp_name=Renamed\"] fn @(&self) -> i32; } #[derive(Clone, Copy)] pub struct St { pub q: i32 } impl Tr for St { #[doc = \"CRUBIT_ANNOTATE: cpp_name=Renamed\"] fn @(&self) -> i32 { K } } pub fn mk() -> St { St { q: 1 } }", "[] { auto s = N::mk(); return rs_std::impl<N::St, N::Tr>::Renamed(s) == K; }()", "Tr::@"),
    ("cpp_name of a reexport", "mod pr { #[doc = \"CRUBIT_ANNOTATE: cpp_name=Renamed\"] pub struct Inner { pub a: i32 } impl Inner { pub fn mk() -> Inner { Inner { a: K } } } } pub use pr::Inner as @;", "N::Renamed::mk().a == K", "@"),
]
# two things that compete for a name: (what, Rust, C++ condition or None when only the header must be valid, items whose report excuses it)
# kinds of items at module level: namespace in Rust, Rust text, C++ condition; % is the Rust name, $ the C++ name
TOPK = {
    "fn": ("v", "pub fn %() -> i32 { K }", "N::$() == K"),
    "fn1": ("v", "pub fn %(x: i32) -> i32 { K + x }", "N::$(1) == K + 1"),
    "const": ("v", "pub const %: i32 = K;", "N::$ == K"),
    "struct": ("t", "pub struct % { pub a: i32 } impl % { pub fn mk() -> % { % { a: K } } }", "N::$::mk().a == K"),
    "tuple struct": ("tv", "pub struct %(pub i32); impl % { pub fn mk() -> % { %(K) } }", "N::$::mk().__field0 == K"),
    "enum": ("t", "pub enum % { Aa, Bb(i32) } impl % { pub fn mk(&self) -> i32 { K } }", "N::$::MakeAa().mk() == K"),
    "union": ("t", "#[derive(Clone, Copy)] pub union % { pub a: i32, pub b: f32 } impl % { pub fn mk() -> i32 { K } }", "N::$::mk() == K"),
    "alias": ("t", "pub type % = i16;", "std::is_same_v<N::$, std::int16_t>"),
    "trait": ("t", "pub trait % { fn me(&self) -> i32; } impl % for Ow { fn me(&self) -> i32 { K } }", "[] { N::Ow o; return rs_std::impl<N::Ow, N::$>::me(o) == K; }()"),
    "mod": ("t", "pub mod % { pub fn ff() -> i32 { K } }", "N::$::ff() == K"),
    "use fn": ("v", "pub use pr::f1 as %;", "N::$() == 11"),
    "use other fn": ("v", "pub use pr::f2 as %;", "N::$(1) == 12"),
    "use struct": ("t", "pub use pr::S1 as %;", "N::$::mk() == 13"),
    "use public struct": ("t", "pub use Ow as %;", "std::is_same_v<N::$, N::Ow>"),
    "use public fn": ("v", "pub use of as %;", "N::$() == 14"),
}
COMMON = "#[derive(Clone, Copy, Default)] pub struct Ow { pub q: i32 } pub fn of() -> i32 { 14 } mod pr { pub fn f1() -> i32 { 11 } pub fn f2(x: i32) -> i32 { 11 + x } pub struct S1 { pub q: i32 } impl S1 { pub fn mk() -> i32 { 13 } } }"
MEMK = {
    "method": ("v", "impl St { pub fn %(&self) -> i32 { K } }", "N::mk().$() == K"),
    "method1": ("v", "impl St { pub fn %(&self, x: i32) -> i32 { K + x } }", "N::mk().$(1) == K + 1"),
    "mut method": ("v", "impl St { pub fn %(&mut self) -> i32 { K } }", "[] { auto s = N::mk(); return s.$() == K; }()"),
    "static": ("v", "impl St { pub fn %() -> i32 { K } }", "N::St::$() == K"),
    "static1": ("v", "impl St { pub fn %(x: i32) -> i32 { K + x } }", "N::St::$(1) == K + 1"),
    "const": ("v", "impl St { pub const %: i32 = K; }", "N::St::$ == K"),
    "field": ("f", "%: 1", "N::mk().$ == 1"),
    "other field": ("f", "%: 2", "N::mk().$ == 2"),
}
# parameter names next to each other, and next to what the generated function calls its own
ARGT = {"i32": "1", "Ow": "N::Ow()", "Dr": "N::Dr()", "String": "rs::alloc::string::String()", "Option<i32>": "std::optional<int>(1)", "(i32, u8)": "std::tuple<int, std::uint8_t>(1, 2)", "Vec<i32>": "N::mv()", "&str": "\"x\"", "&Ow": "N::Ow()", "&[i32]": "N::mv()", "char": "N::mc()"}
PARAMS = ["class class_", "r#break break_", "x x_slot", "x x_buffer", "x x_cabi", "x x_0", "x x_1", "x __x_storage", "x x_", "return_value x", "__ret_ptr x", "self_ x", "value x", "__param_0 x", "x __param_0", "__param_1 x", "_ __param_0", "__return_value_ret_val_holder x", "__return_value_storage x", "ff x", "N foo", "std rs_std", "crubit x", "int32_t x", "__crubit_internal x", "Ow Dr", "result x", "T t", "slot buffer", "x_slot x_slot_slot", "x_storage x"]


def pairs():
    for (k1, (n1, s1, c1)), (k2, (n2, s2, c2)) in itertools.product(TOPK.items(), TOPK.items()):
        names = []
        if not set(n1) & set(n2) and k1 < k2: names.append(("same", "same"))
        names += [("class", "class_"), ("r#break", "break_")] if k1 <= k2 or True else []
        for a, b in names:
            A, Bn = [(x.replace("r#", "") + "_" if x.replace("r#", "") in KW else x) for x in (a, b)]
            yield Case(f"{k1} and {k2}", f"{a} {b}", f"{A} / {Bn}", COMMON + " " + s1.replace("%", a).replace("K", "K") + " " + s2.replace("%", b).replace("K", "K2"),
                       [(c1.replace("$", A), {a.replace("r#", "")} | ({"of"} if "public fn" in k1 else {"pr::f1", "f1"} if k1 == "use fn" else {"pr::f2", "f2"} if k1 == "use other fn" else {"Ow"} if "public struct" in k1 else set())), (c2.replace("$", Bn).replace("K", "K2"), {b} | ({"of"} if "public fn" in k2 else {"pr::f1", "f1"} if k2 == "use fn" else {"pr::f2", "f2"} if k2 == "use other fn" else {"Ow"} if "public struct" in k2 else set()))], None)
    for (k1, (n1, s1, c1)), (k2, (n2, s2, c2)) in itertools.product(MEMK.items(), MEMK.items()):
        names = [("class", "class_"), ("r#break", "break_")]
        if n1 != n2: names.append(("same", "same"))
        for a, b in names:
            A, Bn = [(x.replace("r#", "") + "_" if x.replace("r#", "") in KW else x) for x in (a, b)]
            if A == Bn and n1 == "f": A += "_"
            elif A == Bn and n2 == "f": Bn += "_"
            fields = [x.replace("%", y) for n, x, y in ((n1, s1, a), (n2, s2, b)) if n == "f"]
            impls = [x.replace("%", y).replace("K", z) for n, x, y, z in ((n1, s1, a, "K"), (n2, s2, b, "K2")) if n == "v"]
            src = "pub struct St { " + "".join(f"pub {f.split(':')[0]}: i32, " for f in fields) + "pub q: i32 } pub fn mk() -> St { St { " + "".join(f + ", " for f in fields) + "q: 0 } } " + " ".join(impls)
            yield Case(f"member {k1} and {k2}", f"{a} {b}", f"{A} / {Bn}", src, [(c1.replace("$", A), {"St::" + a.replace("r#", "")}), (c2.replace("$", Bn).replace("K", "K2"), {"St::" + b})], None)
    for w in PARAMS:
        a, b = w.split()
        for t1, t2 in itertools.product(ARGT, ARGT):
            yield Case("parameters", f"{w} : {t1}, {t2}", "ff", f"#[derive(Clone, Copy, Default)] pub struct Ow {{ pub q: i32 }} #[derive(Default)] pub struct Dr {{ pub q: i32 }} impl Drop for Dr {{ fn drop(&mut self) {{}} }} pub fn mv() -> Vec<i32> {{ vec![1] }} pub fn mc() -> char {{ 'x' }} pub fn ff({a}: {t1}, {b}: {t2}) -> i32 {{ K }} pub fn gg({a}: {t1}, {b}: {t2}) -> Dr {{ Dr {{ q: K }} }} pub fn hh({a}: {t1}, {b}: {t2}) -> (String, Option<Ow>) {{ (String::new(), Some(Ow {{ q: K }})) }}",
                       [(f"N::ff({ARGT[t1]}, {ARGT[t2]}) == K", {"ff"}), (f"N::gg({ARGT[t1]}, {ARGT[t2]}).q == K", {"gg"}), (f"std::get<1>(N::hh({ARGT[t1]}, {ARGT[t2]}))->q == K", {"hh"})], None)
    # names that the enclosing type, module or crate has as well
    D = "#[derive(Clone, Copy)] "
    for k, src, cond, item in [
        ("method named as its type", "pub struct St { pub q: i32 } impl St { pub fn St(&self) -> i32 { K } pub fn mk() -> St { St { q: K } } }", "N::St::mk().q == K", "St::St"),
        ("static method named as its type", "pub struct St { pub q: i32 } impl St { pub fn St() -> i32 { K } pub fn mk() -> St { St { q: K } } }", "N::St::mk().q == K", "St::St"),
        ("constant named as its type", "pub struct St { pub q: i32 } impl St { pub const St: i32 = 3; pub fn mk() -> St { St { q: K } } }", "N::St::mk().q == K", "St::St"),
        ("field named as its type", "pub struct St { pub St: i32, pub q: i32 } impl St { pub fn mk() -> St { St { St: 3, q: K } } }", "N::St::mk().q == K", "St::St"),
        ("union field named as its type", "#[repr(C)] " + D + "pub union St { pub St: i32, pub q: i32 } impl St { pub fn mk() -> St { St { q: K } } }", "N::St::mk().q == K", "St::St"),
        ("variant named as its enum", D + "pub enum St { St, Ot(i32) } impl St { pub fn mk() -> i32 { K } }", "N::St::mk() == K && (N::St::MakeSt(), true)", "St::St"),
        ("payload variant named as its enum", D + "pub enum St { St(i32), Ot } impl St { pub fn mk(&self) -> i32 { match self { St::St(x) => *x, _ => 0 } } }", "N::St::MakeSt(K).mk() == K", "St::St"),
        ("repr variant named as its enum", "#[repr(C)] " + D + "pub enum St { St(i32), Ot } impl St { pub fn mk(&self) -> i32 { match self { St::St(x) => *x, _ => 0 } } }", "N::St::MakeSt(K).mk() == K", "St::St"),
        ("repr variant named tag", "#[repr(C)] " + D + "pub enum St { tag(i32), Ot } impl St { pub fn mk(&self) -> i32 { match self { St::tag(x) => *x, _ => 0 } } }", "N::St::Maketag(K).mk() == K", "St::tag"),
        ("repr variant named Tag", "#[repr(C)] " + D + "pub enum St { Tag(i32), Ot } impl St { pub fn mk(&self) -> i32 { match self { St::Tag(x) => *x, _ => 0 } } }", "N::St::MakeTag(K).mk() == K", "St::Tag"),
        ("method named tag of a repr enum", "#[repr(C)] " + D + "pub enum St { Aa(i32), Ot } impl St { pub fn tag(&self) -> i32 { K } }", "N::St::MakeAa(1).tag() == K", "St::tag"),
        ("method named as a variant of a repr enum", "#[repr(C)] " + D + "pub enum St { Aa(i32), Ot } impl St { pub fn Aa_(&self) -> i32 { K } pub fn aa(&self) -> i32 { K } }", "N::St::MakeAa(1).aa() == K", "St::Aa_"),
        ("method named Tag of a repr enum", "#[repr(C)] " + D + "pub enum St { Aa(i32), Ot } impl St { pub fn Tag(&self) -> i32 { K } }", "N::St::MakeAa(1).Tag() == K", "St::Tag"),
        ("method named as the maker of a variant", D + "pub enum St { Aa(i32), Ot } impl St { pub fn MakeAa(x: i32) -> St { St::Ot } pub fn mk(&self) -> i32 { match self { St::Aa(x) => *x, _ => 0 } } }", "N::St::MakeAa(K).mk() == K", "St::MakeAa St::Aa"),
        ("static named as the maker of a unit variant", D + "pub enum St { Aa(i32), Ot } impl St { pub fn MakeOt() -> i32 { K } }", "N::St::MakeOt() == K", "St::MakeOt St::Ot"),
        ("constant named as the maker of a variant", D + "pub enum St { Aa(i32), Ot } impl St { pub const MakeAa: i32 = K; pub const MakeOt: i32 = K; }", "N::St::MakeAa == K", "St::MakeAa St::Aa"),
        ("module named as the crate", "pub mod foo { pub struct St { pub q: i32 } pub mod foo { pub fn ff(x: super::St) -> crate::ID::Ot { crate::ID::Ot { r: x.q } } pub mod foo { pub fn mk() -> super::super::St { super::super::St { q: K } } } } } pub struct Ot { pub r: i32 }", "N::foo::foo::ff(N::foo::foo::foo::mk()).r == K", "foo"),
        ("struct named as the crate", "pub struct foo { pub q: i32 } impl foo { pub fn mk() -> foo { foo { q: K } } } pub fn ff(x: foo) -> Option<foo> { Some(x) }", "N::ff(N::foo::mk())->q == K", "foo"),
        ("function named as its module", "pub mod aa { pub fn aa() -> i32 { K } pub struct St { pub q: i32 } pub fn g() -> St { St { q: K } } }", "N::aa::aa() == K && N::aa::g().q == K", "aa::aa"),
        ("struct named as its module", "pub mod aa { pub struct aa { pub q: i32 } impl aa { pub fn aa_() -> aa { aa { q: K } } } pub fn g(x: aa) -> aa { x } }", "N::aa::g(N::aa::aa::aa_()).q == K", "aa::aa"),
        ("enum named as its module", "pub mod aa { #[derive(Clone, Copy)] pub enum aa { aa, bb(i32) } pub fn g(x: aa) -> i32 { K } }", "N::aa::g(N::aa::aa::Makebb(1)) == K", "aa::aa"),
        ("modules std core alloc and rs", "pub mod std { pub struct St { pub q: i32 } pub mod string { pub fn g(x: super::St, y: String, z: Option<i32>) -> i32 { K } } pub fn mk() -> St { St { q: 1 } } } pub mod core { pub fn f(x: Vec<u8>) -> Option<super::std::St> { None } pub fn h(x: &str, y: &[i32], z: (i32, String)) -> Result<i32, u8> { Ok(1) } } pub mod alloc { pub mod string { pub struct String { pub q: i32 } pub fn f(x: ::std::string::String) -> String { String { q: K } } } } pub mod rs { pub fn f(x: String) -> i32 { K } }", "N::rs::f(::rs::alloc::string::String()) == K && N::std::string::g(N::std::mk(), ::rs::alloc::string::String(), 1) == K && N::alloc::string::f(::rs::alloc::string::String()).q == K", "std"),
        ("module rs_std", "pub mod rs_std { pub fn f(x: char, y: &str, z: &[i32]) -> i32 { K } pub fn g(x: Vec<i32>, y: String) -> (i32, u8) { (1, 2) } }", "N::rs_std::f('a', \"x\", {}) == K", "rs_std"),
        ("module crubit", "pub mod crubit { pub async fn f(x: i32) -> i32 { x } pub fn g(x: (i32, String)) -> (i32, String) { x } pub fn h(x: Option<i32>) -> i32 { K } pub mod internal { pub fn k(x: Option<i32>) -> Option<i32> { x } } }", "N::crubit::h(1) == K", "crubit"),
        ("module absl", "pub mod absl { #[derive(Debug)] pub struct D { pub q: i32 } impl ::std::fmt::Display for D { fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result { Ok(()) } } impl D { pub fn mk() -> D { D { q: K } } } }", "N::absl::D::mk().q == K", "absl"),
        ("second path of a module", "mod a { pub mod b { pub struct St { pub q: i32 } pub fn mk() -> St { St { q: K } } } } pub use a::b; pub mod z { pub use super::a::b as y; }", "N::b::mk().q == K && N::z::y::mk().q == K && std::is_same_v<N::z::y::St, N::b::St>", "b"),
        ("structs named as standard types", "#[derive(Clone, Default, PartialEq)] pub struct optional { pub q: i32 } pub struct tuple { pub q: i32 } pub struct string { pub q: optional } pub struct StrRef { pub a: tuple } pub struct SliceRef { pub a: i32 } pub fn f(x: Option<optional>, y: &[string], z: &str, w: (i32, optional)) -> (optional, Option<tuple>) { (optional { q: K }, None) } pub fn mk() -> optional { optional { q: K } } pub struct int32_t { pub a: i32 } pub fn g(x: int32_t, y: i32) -> i32 { K }", "N::mk().q == K", "optional"),
        ("generic names inside a type", "#[derive(Clone, Default, PartialEq, Debug)] pub struct St { pub value: i32, pub other: i32, pub size: i64, pub data: u8, pub self_: i8, pub reset: i16, pub emplace: u16 } impl St { pub fn swap(&mut self, o: &mut St) {} pub fn clone_(&self) -> i32 { K } pub fn into(self) -> i32 { K } pub fn eq(&self, value: &St) -> i32 { K } pub fn operator_eq(&self) {} pub fn get(&self) -> i32 { K } }", "[] { N::St s; return s.get() == K && s.value == 0 && s.clone_() == K && s.eq(s) == K; }()", "St"),
        ("fields named as methods and their escapes", "pub struct St { pub x: i32, pub x_: i32, pub x__: i32 } impl St { pub fn x(&self) -> i32 { K } pub fn mk() -> St { St { x: 1, x_: 2, x__: 3 } } }", "N::St::mk().x() == K", "St::x St::x_ St::x__"),
        ("fields named as methods and a method named as the escape", "pub struct St { pub x: i32, pub y: i32 } impl St { pub fn x(&self) -> i32 { K } pub fn x_(&self) -> i32 { K + 1 } pub fn mk() -> St { St { x: 1, y: 2 } } }", "N::St::mk().x() == K && N::St::mk().x_() == K + 1", "St::x St::x_"),
        ("private fields named as methods", "pub struct St { x: i32, x_: i32 } impl St { pub fn x(&self) -> i32 { K } pub fn x_(&self) -> i32 { K + 1 } pub fn mk() -> St { St { x: 1, x_: 2 } } }", "N::St::mk().x() == K && N::St::mk().x_() == K + 1", "St::x St::x_"),
        ("methods of two impl blocks and a trait", "pub struct St { q: i32 } pub trait Tr { fn x(&self) -> i32; fn y(&self) -> i32; } impl Tr for St { fn x(&self) -> i32 { 7 } fn y(&self) -> i32 { 8 } } impl St { pub fn x(&self) -> i32 { K } } impl St { pub fn z(&self) -> i32 { K } pub fn mk() -> St { St { q: 1 } } }", "[] { auto s = N::St::mk(); return s.x() == K && rs_std::impl<N::St, N::Tr>::x(s) == 7 && rs_std::impl<N::St, N::Tr>::y(s) == 8; }()", "St"),
        ("glob and explicit names", "pub mod a { pub fn f() -> i32 { 1 } pub struct St { pub q: i32 } } pub mod b { pub use super::a::*; pub fn f() -> i32 { K } pub mod c { pub use super::*; pub struct St { pub r: i32 } pub fn mk() -> St { St { r: K } } } }", "N::a::f() == 1 && N::b::f() == K && N::b::c::f() == K && N::b::c::mk().r == K && std::is_same_v<N::b::St, N::a::St> && std::is_same_v<N::b::c::St, decltype(N::b::c::mk())>", "b"),
        ("a public path through a private module", "mod a { pub mod b { pub struct St { pub q: i32 } pub fn mk() -> St { St { q: K } } } pub use self::b::St as Sx; } pub use a::b; pub use a::*;", "N::b::mk().q == K && std::is_same_v<N::Sx, N::b::St>", "b"),
        ("items of a private module under several names", "mod p { #[derive(Clone, Copy)] pub enum En { Aa(i32), Bb } pub union Un { pub a: i32 } pub trait Tr { fn f(&self) -> i32; } pub fn mk() -> En { En::Aa(K) } impl Tr for En { fn f(&self) -> i32 { K } } } pub use p::En as E1; pub mod m { pub use super::p::En as E2; pub use super::p::mk as m2; pub use super::p::Tr as T2; } pub use p::mk as m1; pub use p::Tr as T1;", "std::is_same_v<N::E1, N::m::E2> && [] { N::E1 e = N::m1(); N::m::E2 f = N::m::m2(); return rs_std::impl<N::E1, N::T1>::f(e) == K && rs_std::impl<N::m::E2, N::m::T2>::f(f) == K; }()", "E1"),
        ("chains of renames", "mod p { pub struct A0 { pub q: i32 } pub use A0 as A1; pub mod r { pub use super::A1 as A2; } pub fn mk() -> r::A2 { r::A2 { q: K } } } pub use p::r::A2 as A3; pub use A3 as A4; pub mod s { pub use super::A4 as A5; pub type A6 = A5; } pub use p::mk;", "N::mk().q == K && std::is_same_v<N::A3, N::A4> && std::is_same_v<N::s::A5, N::A3> && std::is_same_v<N::s::A6, N::A3> && std::is_same_v<decltype(N::mk()), N::A3>", "A3"),
        ("doc hidden paths", "#[doc(hidden)] pub mod h { pub struct St { pub q: i32 } pub fn mk() -> St { St { q: K } } } pub mod v { pub mod w { pub use super::super::h::St; pub use super::super::h::mk; } }", "N::v::w::mk().q == K && std::is_same_v<N::v::w::St, N::h::St>", "h"),
    ]:
        src, cond = src.replace("ID::", "\x01::"), cond
        yield Case("special", k, "its name", src, [(cond, set(item.split()))], None)


# the functions of the C standard library (ISO C, clause 7), which C++ has at global scope as well
CFUN = """isalnum isalpha isblank iscntrl isdigit isgraph islower isprint ispunct isspace isupper isxdigit tolower toupper setlocale localeconv
acos asin atan atan2 cos sin tan acosh asinh atanh cosh sinh tanh exp exp2 expm1 frexp ilogb ldexp log log10 log1p log2 logb modf scalbn scalbln cbrt fabs hypot pow sqrt erf erfc lgamma tgamma
ceil floor nearbyint rint lrint llrint round lround llround trunc fmod remainder remquo copysign nan nextafter nexttoward fdim fmax fmin fma longjmp signal raise
remove rename tmpfile tmpnam fclose fflush fopen freopen setbuf setvbuf fprintf fscanf printf scanf snprintf sprintf sscanf vfprintf vfscanf vprintf vscanf vsnprintf vsprintf vsscanf
fgetc fgets fputc fputs getc getchar putc putchar puts ungetc fread fwrite fgetpos fseek fsetpos ftell rewind clearerr feof ferror perror
atof atoi atol atoll strtod strtof strtold strtol strtoll strtoul strtoull rand srand aligned_alloc calloc free malloc realloc abort atexit at_quick_exit exit getenv quick_exit system bsearch qsort abs labs llabs div ldiv lldiv
mblen mbtowc wctomb mbstowcs wcstombs memcpy memmove strcpy strncpy strcat strncat memcmp strcmp strcoll strncmp strxfrm memchr strchr strcspn strpbrk strrchr strspn strstr strtok memset strerror strlen
clock difftime mktime time timespec_get asctime ctime gmtime localtime strftime btowc wctob mbsinit mbrlen mbrtowc wcrtomb fwide wcslen wcscpy wmemcpy towlower towupper iswalpha mbrtoc16 fgetwc swprintf wcstol wcsncpy wcscoll wcspbrk wcstok wmemset wcsftime iswctype wctype towctrans""".split()
CRATES = [(w, [], w + "_") for w in KW if w not in RUST] + [(w, [], "rs_" + w) for w in CFUN] + [(w, [], "rs_" + w) for w in "unix linux".split()] + \
    [(w, [], w) for w in "ordinary x_ _x X9 Shouty class_ new_ rs rs_std crubit absl support foo internal optional string tuple value St sub u8x std_ core_ self_ rs_log value_type".split()] + \
    [("dd", [f"--crate-namespace=@={n}"], x) for n, x in [("a", "a"), ("a::b", "a::b"), ("a::b::c::d", "a::b::c::d"), ("a::a", "a::a"), ("u7", "u7"), ("u7::sub", "u7::sub"), ("dd::dd", "dd::dd"), ("a::u7", "a::u7"), ("rs::dd", "rs::dd"),
     ("class", "class_"), ("a::class", "a::class_"), ("new::a::int", "new_::a::int_"), ("time", "rs_time"), ("time::time", "rs_time::time"), ("a::time", "a::time"), ("unix", "rs_unix"), ("a::unix::b", "a::rs_unix::b"), ("rs_std::dd", "rs_std::dd"), ("crubit::dd", "crubit::dd"),
     ("a::crubit", "a::crubit"), ("a::std", "a::std"), ("a::rs_std", "a::rs_std"), ("a::rs", "a::rs")]]
CSTD = "".join(f"#include <{h}>\n" for h in "cassert cctype cerrno cfenv cfloat cinttypes climits clocale cmath csetjmp csignal cstdarg cstddef cstdint cstdio cstdlib cstring ctime cuchar cwchar cwctype".split()) + \
    "".join(f"#include <{h}.h>\n" for h in "assert ctype errno math setjmp signal stdio stdlib string time wchar wctype inttypes".split())


def crate_names(chk, e):
    """Crates whose names and configured namespaces are special, with a crate that uses them."""
    def go(job):
        i, (name, opts, ns) = job
        k = 1000 + 10 * i
        d = fresh_dir(os.path.join(chk.dir, f"n{i}"))
        user = "u7"
        e.rust_lib(d, name, f"""#[derive(Clone, Copy, Debug, PartialEq)] pub struct St {{ pub q: i32 }} impl St {{ pub fn mk() -> St {{ St {{ q: {k} }} }} }} pub fn ff(x: Option<St>) -> i32 {{ {k} + x.map_or(0, |x| x.q) }}
pub const CC: i32 = {k}; pub mod sub {{ pub fn us(x: super::St) -> Result<super::St, i32> {{ Ok(x) }} pub mod again {{ pub use super::super::St as Other; pub type Alias = super::super::St; }} }}
pub enum En {{ Aa(i32), Bb }} impl En {{ pub fn rd(&self) -> i32 {{ {k} }} }} pub trait Tr {{ fn me(&self) -> i32; }} impl Tr for St {{ fn me(&self) -> i32 {{ {k} + 1 }} }} pub async fn asy() -> St {{ St::mk() }}
""")
        e.rust_lib(d, user, f"pub fn mk() -> ::{name}::St {{ ::{name}::St::mk() }} pub fn tk(x: Vec<::{name}::St>, y: &::{name}::En) -> Option<::{name}::St> {{ x.first().copied() }} pub use ::{name}::En as Again; "
                   f"pub struct Own {{ pub s: ::{name}::St }} impl ::{name}::Tr for Own {{ fn me(&self) -> i32 {{ {k} + 2 }} }} impl Own {{ pub fn mk() -> Own {{ Own {{ s: ::{name}::St::mk() }} }} }} pub mod {name} {{ pub fn id() -> i32 {{ {k} }} }}",
                   externs=[(name, f"{d}/lib{name}.rlib")])
        dep = ["--extern", f"{name}={d}/lib{name}.rlib", f"--crate-header={name}=crate_{name}.h"]      # a header named string.h would hide the system's
        alone = name in CFUN and not THOROUGH
        for n, deps, self_name in ((name, [], "self"), (user, dep, name))[:1 if alone else 2]:
            r = e.generate(d, n, [o.replace("@", self_name) for o in opts] + deps)
            if r.rc != 0: return f"the generator fails for {n}: {r.tail(700)}"
            os.rename(f"{d}/{n}.h", f"{d}/crate_{n}.h")
        inner = {"unix": "rs_unix", "linux": "rs_linux"}.get(name, name + "_" if name in KW else name)
        N = "::" + ns
        main = CSTD + f'#include "crate_{name}.h"\n#include "crate_{user}.h"\n#include <type_traits>\n' + f"""
int main() {{
  if ({N}::ff(std::nullopt) != {k} || {N}::ff({N}::St::mk()) != 2 * {k} || {N}::CC != {k}) return 1;
  if (!{N}::sub::us({N}::St::mk()).has_value() || {N}::En::MakeBb().rd() != {k}) return 2;
  static_assert(std::is_same_v<{N}::sub::again::Other, {N}::St> && std::is_same_v<{N}::sub::again::Alias, {N}::St>);
  static_assert(std::is_same_v<::u7::Again, {N}::En> && std::is_same_v<decltype(::u7::mk()), {N}::St> && std::is_same_v<decltype(::u7::Own::mk().s), {N}::St> && sizeof({N}::asy()) > 0);
  {N}::St s = {N}::St::mk(); ::u7::Own o = ::u7::Own::mk();
  if (rs_std::impl<{N}::St, {N}::Tr>::me(s) != {k} + 1 || rs_std::impl<::u7::Own, {N}::Tr>::me(o) != {k} + 2 || ::u7::mk().q != {k}) return 3;
  if (::u7::{inner}::id() != {k}) return 4;
  puts("DONE");
}}
"""
        if alone: main = "\n".join(x for x in main.split("\n") if "u7" not in x)
        write(os.path.join(d, "main.cc"), main)
        r = e.cc(d, os.path.join(d, "main.cc"), os.path.join(d, "main.o"), flags=["-fno-color-diagnostics"])
        if r.rc != 0: return "C++ does not compile: " + "\n".join(re.findall(r"(?m)^\S*?:\d+:\d+: (?:fatal )?error: .*", r.out + r.err)[:4])
        if alone:        # (the C++ compiler has found every name by now)
            if not KEEP: shutil.rmtree(d)
            return
        r = e.rust_root(d, [name, user], externs=[])
        if r.rc != 0: return "the Rust half does not compile: " + r.tail(900)
        r = e.link(d, [os.path.join(d, "main.o")], os.path.join(d, "main"))
        if r.rc != 0: return "does not link: " + r.tail(900)
        r = run_exe(os.path.join(d, "main"), timeout=60)
        if r.rc != 0 or "DONE" not in r.out: return f"the program ends with {r.rc}: {r.tail(500)}"
        if not KEEP: shutil.rmtree(d)
    for (name, opts, ns), bad in zip(CRATES, pmap(go, list(enumerate(CRATES)))):
        chk.count(evaluations=1, distinct_nontrivial=1)
        if bad: chk.violation(f"n crate {name} {' '.join(opts)}".strip(), f"crate {name} in namespace {ns}: {bad}")
    chk.log(f"n: {len(CRATES)} crates with special names or configured namespaces")


class Case:
    def __init__(self, kind, word, cname, src, cond, item):
        self.kind, self.word, self.src, self.conds = kind, word, src, cond if isinstance(cond, list) else [(cond, {item})]
        self.key = f"{kind}: {word}"
        self.cname = cname


def subst(t, w, k, ns=""):
    t = re.sub(r"'([LM])@", lambda m: "'" + (w if w not in RUST else m.group(1).lower() + w), t)
    return re.sub(r"\bK2\b", str(k + 50000), re.sub(r"\bK\b", str(k), t))


def check(chk):
    chk.coverage["rule"] = "one case = one word in one naming position (or one pair of items that compete for a name): reached in C++ under the expected name, or reported"
    e = E2E(chk)
    cases = []
    for w, c in [(w, w + "_") for w in KW] + [(w, w) for w in dict.fromkeys(ORD) if w not in KW]:
        for kind, src, cond, item in POS:
            cases.append(Case(kind, w, c, src.replace("'L@", "'L\0").replace("'M@", "'M\0").replace("@", rust(w)).replace("\0", "@"), cond.replace(", @", ", " + w).replace("$", c), item.replace("@", w)))
    only = os.environ.get("C07", "wsmnp")
    if "w" in only: run_cases(chk, e, cases, "w")
    if "m" in only:
        special = [Case(kind, w, w + "_", src.replace("'L@", "'L\0").replace("'M@", "'M\0").replace("@", w).replace("\0", "@"), cond.replace(", @", ", " + w).replace("$", w + "_"), item.replace("@", w)) for w in MACROS for kind, src, cond, item in POS]
        run_cases(chk, e, special, "m", gen_args=["--crate-feature=self=reserve_standard_macros", "--crate-feature=self=experimental"], pre=CSTD)
    if "s" in only: run_cases(chk, e, [c for c in cases if c.word in KW], "s", gen_args=["--crate-feature=self=supported"])
    if "n" in only: crate_names(chk, e)
    if "p" in only: run_cases(chk, e, list(pairs()), "p")


def run_cases(chk, e, cases, tag, gen_args=(), per=60, top="foo", ns=None, pre=""):
    for i, c in enumerate(cases):
        c.id = f"c{i}"
        c.k = 1000 + i
    batches = [cases[i:i + per] for i in range(0, len(cases), per)]
    outcome = collections.Counter()
    kinds = collections.defaultdict(collections.Counter)

    def go(job):
        bi, part = job
        out = []          # (case, stage, text)
        d = fresh_dir(os.path.join(chk.dir, f"{tag}{bi}"))
        part = list(part)

        def lines():
            return ["#![allow(warnings)]"] + [f"pub mod {c.id} {{ {subst(c.src, c.word, c.k).replace(chr(1), c.id)} }}" for c in part]
        for _ in range(8):                       # what Rust itself does not accept is not a case
            try:
                e.rust_lib(d, top, "\n".join(lines()) + "\n")
                break
            except EngineError as ex:
                bad = {int(x) for x in re.findall(r"--> .*?\.rs:(\d+):", str(ex))}
                if not bad: raise
                for i in sorted(bad, reverse=True):
                    if 2 <= i <= len(part) + 1: out.append((part.pop(i - 2), "rust", str(ex)))
        gone = len(part) + 1
        while part:
            rep = os.path.join(d, "rep")
            r = e.generate(d, top, [*gen_args, "--error-report-out", rep])
            def retry(bad, stage, text):
                for c in bad:
                    part.remove(c); out.append((c, stage, text))
                e.rust_lib(d, top, "\n".join(lines()) + "\n")
            if r.rc != 0:
                bad = []
                if len(part) > 1:
                    for c in part:
                        d1 = fresh_dir(d + "s")
                        e.rust_lib(d1, top, f"#![allow(warnings)]\npub mod {c.id} {{ {subst(c.src, c.word, c.k).replace(chr(1), c.id)} }}\n")
                        r1 = e.generate(d1, top, gen_args)
                        if r1.rc != 0: bad.append((c, r1.tail(900)))
                    shutil.rmtree(d + "s")
                else:
                    bad = [(part[0], r.tail(900))]
                if not bad:
                    out.append((part[0], "generate together", r.tail(900))); break
                for c, t in bad: retry([c], "generate", t)
                continue
            reported, reserved = collections.defaultdict(set), collections.defaultdict(set)     # (a refused alias is reported under the name of what it stands for)
            for x in json.load(open(rep)):
                m = re.match(r"[^:]*::\w+::(c\d+)::(.*)", x["name"])
                if m and x.get("errors"):
                    reported[m.group(1)].add(m.group(2).replace("r#", ""))
                    reserved[m.group(1)].update(w for y in x["errors"] for w in re.findall(r"`(\w+)` is a C\+\+ reserved word", y.get("full_error") or y["fmt"]))
                m = re.match(r"[^:]*::<\w+::(c\d+)::\w+ as \w+::c\d+::(.*?)>::(.*)", x["name"])
                if m and x.get("errors"): reported[m.group(1)].add(f"{m.group(2)}::{m.group(3)}".replace("r#", ""))
            N = ns or "::" + top
            for c in part: c.live = [x for x, items in c.conds if c.word not in reserved[c.id] and not any(i in reported[c.id] for i in items)]
            live = [c for c in part if c.live]
            fns = [f"static bool t_{c.id}() {{ return ({') && ('.join(re.sub(r'\bN::', f'{N}::{c.id}::', subst(x, c.word, c.k)) for x in c.live)}); }}" for c in live]
            main = pre.replace("\n", " \n") + f'#include "{top}.h"' + MAIN + "\n".join(fns) + "\nint main() {\n" + "\n".join(f'if (!t_{c.id}()) printf("BAD {c.id}\\n");' for c in live) + '\nprintf("DONE\\n"); }\n'
            write(os.path.join(d, "main.cc"), main)
            rr = e.cc(d, os.path.join(d, "main.cc"), os.path.join(d, "main.o"), flags=["-ferror-limit=400", "-fno-color-diagnostics"])
            if rr.rc != 0:
                hl = open(os.path.join(d, top + ".h")).read().split("\n")
                byid = {c.id: c for c in part}
                bad = {}
                for f, ln, txt in re.findall(r"(?m)^(\S*?):(\d+):\d+: (?:fatal )?error: (.*)", rr.out + rr.err):
                    ln = int(ln)
                    c = None
                    if f.endswith("main.cc") and (pre + MAIN).count('\n') + 1 <= ln <= len(live) + (pre + MAIN).count('\n'): c = live[ln - 1 - (pre + MAIN).count('\n')]
                    elif f.endswith(top + ".h"):
                        ids = re.findall(r"\b(c\d+)\b", hl[ln - 1])
                        for l in range(ln - 1, -1, -1):
                            m = re.search(r"namespace [\w:]*\b(c\d+)\b", hl[l])
                            if m: ids.append(m.group(1)); break
                        c = next((byid[i] for i in ids if i in byid), None)
                    if c: bad.setdefault(c, txt)
                own = dict(bad)
                bad = [c for c in bad]
                txt = "\n".join(re.findall(r"(?m)^\S*?:\d+:\d+: (?:fatal )?error: .*", rr.out + rr.err)[:4])
                if not bad:
                    out.append((part[0], "C++ together", (rr.out + rr.err)[:1500])); break
                for c in bad: retry([c], "C++", own[c] + "\nthe first of all errors:\n" + txt)
                continue
            r2 = e.rust_root(d, [top])
            if r2.rc != 0:
                il = open(os.path.join(d, top + "_impl.rs")).read().split("\n")
                byid = {c.id: c for c in part}
                bad = {byid[i] for ln in re.findall(r"_impl\.rs:(\d+):", r2.out + r2.err) for i in re.findall(r"\b(c\d+)\b", il[int(ln) - 1])[:1] if i in byid}
                if not bad:
                    out.append((part[0], "Rust half together", r2.tail(1500))); break
                retry(list(bad), "Rust half", r2.tail(600)); continue
            exe = os.path.join(d, "main")
            rl = e.link(d, [os.path.join(d, "main.o")], exe)
            if rl.rc != 0:
                out.append((part[0], "link", rl.tail(1500))); break
            rx = run_exe(exe, timeout=60)
            badids = set(re.findall(r"BAD (c\d+)", rx.out))
            if "DONE" not in rx.out:
                out.append((part[0], "run", f"the program ended with {rx.rc}: {rx.tail(500)}"))
            for c in part:
                out.append((c, "wrong" if c.id in badids else "ok" if len(c.live) == len(c.conds) else "partly reported" if c.live else "reported", ""))
            break
        if not KEEP: shutil.rmtree(d)
        return out
    for o in pmap(go, list(enumerate(batches))):
        for c, stage, text in o:
            outcome[stage] += 1
            kinds[c.kind][stage] += 1
            if stage == "rust": continue
            chk.count(evaluations=1, distinct_nontrivial=1)
            if stage in ("ok", "reported", "partly reported"): continue
            chk.violation(f"{tag} {c.key}", f"{c.kind} with {c.word!r}: {'the generator fails' if stage.startswith('generate') else 'the item found under ' + c.cname + ' is not the expected one' if stage == 'wrong' else stage + ' does not compile'}\n{subst(c.src, c.word, c.k)[:700]}\n{subst('; '.join(x for x, _i in c.conds), c.word, c.k)[:300]}\n{text[:900]}")
    chk.log(f"{tag}: {dict(outcome)}")
    for k, v in kinds.items():
        if v["reported"] and (os.environ.get("V07") or v["ok"] == 0): chk.log(f"   {k}: {dict(v)}")
    for c in cases[::max(1, len(cases) // 10)]: chk.sample(c.key)


MAIN = r"""
#define MK(T, n, ...) ([]<class X>(std::type_identity<X>, auto... a) { if constexpr (requires { X::Make##n(a...); }) return X::Make##n(a...); else return X::Make##n##_(a...); }(std::type_identity<T>() __VA_OPT__(,) __VA_ARGS__))
#define C(T) std::type_identity_t<struct T>
"""
KEEP = bool(os.environ.get("KEEP"))
main(check, "C07", "exploration")
