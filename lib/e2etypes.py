"""Type and value tables for programs that cross the C++/Rust boundary, and the two canonical
printers (one per language) whose texts are compared."""

VSUP = r'''
use std::fmt::Write as _;
use std::sync::Mutex;
pub static LOG: Mutex<String> = Mutex::new(String::new());
pub fn log(s: String) { LOG.lock().unwrap().push_str(&s); }
#[unsafe(no_mangle)] pub extern "C" fn vlog_take(buf: *mut u8, cap: usize) -> usize {
    let mut l = LOG.lock().unwrap();
    let n = l.len().min(cap);
    unsafe { std::ptr::copy_nonoverlapping(l.as_ptr(), buf, n) };
    l.clear();
    n
}
pub trait Canon { fn c(&self) -> String; }
macro_rules! num { ($($t:ty)*) => { $(impl Canon for $t { fn c(&self) -> String { format!("{}", self) } })* } }
num!(i8 i16 i32 i64 isize u8 u16 u32 u64 usize bool);
impl Canon for f32 { fn c(&self) -> String { format!("f{:08x}", self.to_bits()) } }
impl Canon for f64 { fn c(&self) -> String { format!("d{:016x}", self.to_bits()) } }
impl Canon for char { fn c(&self) -> String { format!("c{:x}", *self as u32) } }
impl Canon for () { fn c(&self) -> String { "()".into() } }
impl<T> Canon for *const T { fn c(&self) -> String { format!("p{:x}", *self as usize) } }
impl<T> Canon for *mut T { fn c(&self) -> String { format!("p{:x}", *self as usize) } }
pub fn hex(b: &[u8]) -> String { let mut s = String::from("s"); for x in b { write!(s, "{:02x}", x).unwrap(); } s }
impl Canon for str { fn c(&self) -> String { hex(self.as_bytes()) } }
impl Canon for String { fn c(&self) -> String { hex(self.as_bytes()) } }
impl<T: Canon> Canon for [T] { fn c(&self) -> String { let v: Vec<_> = self.iter().map(|x| x.c()).collect(); format!("[{}]", v.join(",")) } }
impl<T: Canon, const N: usize> Canon for [T; N] { fn c(&self) -> String { self[..].c() } }
impl<T: Canon> Canon for Vec<T> { fn c(&self) -> String { self[..].c() } }
impl<T: Canon + ?Sized> Canon for &T { fn c(&self) -> String { (**self).c() } }
impl<T: Canon + ?Sized> Canon for &mut T { fn c(&self) -> String { (**self).c() } }
impl<T: Canon> Canon for Option<T> { fn c(&self) -> String { match self { None => "N".into(), Some(x) => format!("S({})", x.c()) } } }
impl<T: Canon, E: Canon> Canon for Result<T, E> { fn c(&self) -> String { match self { Ok(x) => format!("O({})", x.c()), Err(x) => format!("E({})", x.c()) } } }
macro_rules! tup { ($($t:ident)*) => { impl<$($t: Canon),*> Canon for ($($t,)*) { #[allow(non_snake_case)] fn c(&self) -> String { let ($($t,)*) = self; let v = vec![$($t.c()),*]; format!("({})", v.join(",")) } } } }
tup!(A); tup!(A B); tup!(A B C); tup!(A B C D);
'''

# the user types every program may use
USERTYPES = r'''
use vsup::{Canon, log};
#[derive(Clone, Copy)] #[repr(C)] pub struct P4 { pub a: u8, pub b: u16 }
impl P4 { pub fn mk(a: u8, b: u16) -> P4 { P4 { a, b } } }
impl Canon for P4 { fn c(&self) -> String { format!("P4{{{},{}}}", self.a, self.b) } }
#[derive(Clone, Copy)] pub struct D12 { pub a: i32, pub b: f32, pub c: u8 }
impl D12 { pub fn mk(a: i32, b: f32, c: u8) -> D12 { D12 { a, b, c } } }
impl Canon for D12 { fn c(&self) -> String { format!("D12{{{},{},{}}}", self.a, self.b.c(), self.c) } }
#[derive(Clone, Default)] pub struct Big { pub a: u64, pub b: i64, pub c: u32, pub d: u8, pub e: f64 }
impl Big { pub fn mk(a: u64, b: i64, c: u32, d: u8, e: f64) -> Big { Big { a, b, c, d, e } } }
impl Canon for Big { fn c(&self) -> String { format!("Big{{{},{},{},{},{}}}", self.a, self.b, self.c, self.d, self.e.c()) } }
pub struct Tu(pub i32, pub f64, pub u8);
impl Canon for Tu { fn c(&self) -> String { format!("Tu({},{},{})", self.0, self.1.c(), self.2) } }
#[derive(Clone, Copy)] #[repr(transparent)] pub struct W(pub u32);
impl Canon for W { fn c(&self) -> String { format!("W{}", self.0) } }
#[derive(Clone, Copy)] #[repr(C)] pub union Un { pub u: u32, pub f: f32 }
impl Un { pub fn mk(u: u32) -> Un { Un { u } } }
impl Canon for Un { fn c(&self) -> String { format!("Un{}", unsafe { self.u }) } }
#[derive(Clone, Copy)] #[repr(i16)] pub enum En { A = -5, B, C = 300 }
impl Canon for En { fn c(&self) -> String { format!("En{}", *self as i16) } }
#[derive(Clone)] pub enum Pay { Z, I(i32), Q(u8, u64), }
impl Pay { pub fn z() -> Pay { Pay::Z } pub fn i(x: i32) -> Pay { Pay::I(x) } pub fn q(x: u8, y: u64) -> Pay { Pay::Q(x, y) }
    pub fn kind(&self) -> u8 { match self { Pay::Z => 0, Pay::I(_) => 1, Pay::Q(..) => 2 } }
    pub fn x(&self) -> i64 { match self { Pay::Z => 0, Pay::I(x) => *x as i64, Pay::Q(x, _) => *x as i64 } }
    pub fn y(&self) -> u64 { match self { Pay::Q(_, y) => *y, _ => 0 } } }
impl Canon for Pay { fn c(&self) -> String { match self { Pay::Z => "PayZ".into(), Pay::I(x) => format!("PayI{}", x), Pay::Q(x, y) => format!("PayQ{},{}", x, y) } } }
/// owns heap memory, no Default: by-value passing relocates it
pub struct Own { s: Box<i64> }
impl Own { pub fn mk(x: i64) -> Own { Own { s: Box::new(x) } } pub fn get(&self) -> i64 { *self.s } }
impl Canon for Own { fn c(&self) -> String { format!("Own{}", self.s) } }
/// has Drop and Default: C++ moves leave a default behind
#[derive(Default)] pub struct Dd { s: Option<Box<i64>> }
impl Dd { pub fn mk(x: i64) -> Dd { Dd { s: Some(Box::new(x)) } } pub fn get(&self) -> i64 { self.s.as_ref().map_or(-1, |x| **x) } }
impl Canon for Dd { fn c(&self) -> String { format!("Dd{}", self.get()) } }
pub fn mk_vec_i32(n: usize, b: i32) -> Vec<i32> { (0..n).map(|i| b.wrapping_add(i as i32)).collect() }
pub fn mk_vec_u8(n: usize, b: u8) -> Vec<u8> { (0..n).map(|i| b.wrapping_add(i as u8)).collect() }
pub extern "C" fn fp_inc(x: i32) -> i32 { x.wrapping_add(1) }
'''

CCPRE = r'''
#include "foo.h"
extern "C" size_t vlog_take(unsigned char* buf, size_t cap);
static char g_buf[1 << 16];
static std::string take() { size_t n = vlog_take((unsigned char*)g_buf, sizeof g_buf); return std::string(g_buf, n); }
static long g_evals = 0, g_fail = 0;
// canonical text of a value; mirrors the Rust trait
template <class T> std::string num(T x) { if constexpr (std::is_signed_v<T>) return std::to_string((long long)x); else return std::to_string((unsigned long long)x); }
static std::string hexs(const void* p, size_t n) { std::string s = "s"; char b[3]; for (size_t i = 0; i < n; i++) { snprintf(b, 3, "%02x", ((const unsigned char*)p)[i]); s += b; } return s; }
template <class T> struct Canon;
template <class T> std::string canon(const T& x) { return Canon<std::remove_cvref_t<T>>::c(x); }
template <class T> requires(std::is_integral_v<T>) struct Canon<T> { static std::string c(T x) { if constexpr (std::is_same_v<T, bool>) return x ? "true" : "false"; else return num(x); } };
template <> struct Canon<float> { static std::string c(float x) { char b[32]; snprintf(b, 32, "f%08x", std::bit_cast<uint32_t>(x)); return b; } };
template <> struct Canon<double> { static std::string c(double x) { char b[32]; snprintf(b, 32, "d%016llx", (unsigned long long)std::bit_cast<uint64_t>(x)); return b; } };
template <> struct Canon<rs_std::char_> { static std::string c(rs_std::char_ x) { char b[32]; snprintf(b, 32, "c%x", (unsigned)uint32_t(x)); return b; } };
template <class T> struct Canon<T*> { static std::string c(T* x) { char b[32]; snprintf(b, 32, "p%llx", (unsigned long long)(uintptr_t)x); return b; } };
template <> struct Canon<std::monostate> { static std::string c(std::monostate) { return "()"; } };
template <> struct Canon<rs_std::StrRef> { static std::string c(rs_std::StrRef x) { return hexs(x.data(), x.size()); } };
template <> struct Canon<rs::alloc::string::String> { static std::string c(const rs::alloc::string::String& x) { return canon(x.as_str()); } };
template <class T> struct Canon<rs_std::SliceRef<T>> { static std::string c(rs_std::SliceRef<T> x) { std::string s = "["; bool f = true; for (auto& e : std::span<T>(x.data(), x.size())) { if (!f) s += ","; f = false; s += canon(e); } return s + "]"; } };
template <class T> struct Canon<rs_std::Vec<T>> { static std::string c(const rs_std::Vec<T>& x) { std::string s = "["; for (size_t i = 0; i < x.size(); i++) { if (i) s += ","; s += canon(x[i]); } return s + "]"; } };
template <class T, size_t N> struct Canon<std::array<T, N>> { static std::string c(const std::array<T, N>& x) { std::string s = "["; for (size_t i = 0; i < N; i++) { if (i) s += ","; s += canon(x[i]); } return s + "]"; } };
template <class T> struct OptArg { static std::string c(const T& x) { return canon(x); } };
template <class T> struct OptArg<T*> { static std::string c(T* x) { return canon(*x); } };
template <class T> struct Canon<std::optional<T>> { static std::string c(const std::optional<T>& x) { return x ? "S(" + OptArg<T>::c(*x) + ")" : "N"; } };
template <class T> struct Canon<rs_std::Option<T>> { static std::string c(const rs_std::Option<T>& x) { return x.has_value() ? "S(" + canon(*x) + ")" : "N"; } };
template <class T, class E> struct Canon<rs_std::Result<T, E>> { static std::string c(const rs_std::Result<T, E>& x) { return x.has_value() ? "O(" + canon(*x) + ")" : "E(" + canon(x.err()) + ")"; } };
template <class... T> struct Canon<std::tuple<T...>> { static std::string c(const std::tuple<T...>& x) { return "(" + std::apply([](auto&... e) { std::string s; ((s += (s.empty() ? "" : ",") + canon(e)), ...); return s; }, x) + ")"; } };
template <> struct Canon<foo::P4> { static std::string c(const foo::P4& x) { return "P4{" + canon(x.a) + "," + canon(x.b) + "}"; } };
template <> struct Canon<foo::D12> { static std::string c(const foo::D12& x) { return "D12{" + canon(x.a) + "," + canon(x.b) + "," + canon(x.c) + "}"; } };
template <> struct Canon<foo::Big> { static std::string c(const foo::Big& x) { return "Big{" + canon(x.a) + "," + canon(x.b) + "," + canon(x.c) + "," + canon(x.d) + "," + canon(x.e) + "}"; } };
template <> struct Canon<foo::Tu> { static std::string c(const foo::Tu& x) { return "Tu(" + canon(x.__field0) + "," + canon(x.__field1) + "," + canon(x.__field2) + ")"; } };
template <> struct Canon<foo::W> { static std::string c(const foo::W& x) { return "W" + canon(x.__field0); } };
template <> struct Canon<foo::Un> { static std::string c(const foo::Un& x) { return "Un" + canon(x.u); } };
template <> struct Canon<foo::En> { static std::string c(const foo::En& x) { int16_t v; static_assert(sizeof v == sizeof x); memcpy(&v, &x, 2); return "En" + canon(v); } };
template <> struct Canon<foo::Pay> { static std::string c(const foo::Pay& x) { switch (x.kind()) { case 0: return "PayZ"; case 1: return "PayI" + canon(x.x()); default: return "PayQ" + canon(x.x()) + "," + canon(x.y()); } } };
template <> struct Canon<foo::Own> { static std::string c(const foo::Own& x) { return "Own" + canon(x.get()); } };
template <> struct Canon<foo::Dd> { static std::string c(const foo::Dd& x) { return "Dd" + canon(x.get()); } };
// references may be bound as T& or T*
template <class T> struct RefArg { T* p; operator T&() const { return *p; } operator T*() const { return p; } };
template <class T> RefArg<T> ref(T& x) { return {&x}; }
static void chk(const char* what, const std::string& got, const std::string& want) {
  g_evals++;
  if (got != want) { g_fail++; if (g_fail < 40) printf("MISMATCH %s\n   got  %.600s\n   want %.600s\n", what, got.c_str(), want.c_str()); }
}
static uint8_t G8[4] = {1, 2, 3, 4};
static int32_t G32[4] = {10, -20, 30, -40};
static rs_std::StrRef sr(const char* p, size_t n) { return *rs_std::StrRef::FromUtf8(std::string_view(p, n)); }
static rs::alloc::string::String mkstr(const char* p, size_t n) { return rs::alloc::string::String(sr(p, n)); }
static rs_std::char_ ch(uint32_t x) { return std::bit_cast<rs_std::char_>(x); }
static float fb(uint32_t x) { return std::bit_cast<float>(x); }
static double db(uint64_t x) { return std::bit_cast<double>(x); }
'''
CCPRE = CCPRE.replace("std::monostate", "VUnit").replace("// canonical text of", "struct VUnit {};\n// canonical text of", 1)


def ints(bits, signed):
    if signed:
        lo, hi = -(1 << bits - 1), (1 << bits - 1) - 1
        return [0, 1, -1, lo, hi, int("12345678" * 4, 16) % (1 << bits - 1)]
    return [0, 1, (1 << bits) - 1, 1 << (bits - 1), int("12345678" * 4, 16) % (1 << bits)]


class T:
    """name, Rust type, values [(C++ expression, canonical text)], properties."""

    def __init__(self, name, rs, vals, cls, ret=True, pre="", cc=None):
        self.name, self.rs, self.vals, self.cls, self.ret, self.pre, self.cc = name, rs, vals, cls, ret, pre, cc
        self.byref = not rs.startswith(("Option", "Result", "(", "&"))
        self.cabi = cls.startswith("int") or cls in ("f32", "f64", "bool", "char", "ptr", "s4", "un", "w")


def table():
    t = []
    for b in (8, 16, 32, 64):
        for sg in (True, False):
            n = ("i" if sg else "u") + str(b)
            ct = ("int" if sg else "uint") + str(b) + "_t"
            def lit(v, ct=ct, b=b, sg=sg):
                if v == -(1 << 63):
                    return "INT64_MIN"
                return f"({ct}){v}{'ll' if sg else 'ull'}"
            t.append(T(n, n, [(lit(v), str(v)) for v in ints(b, sg)], "int" + str(b), cc=ct))
    t.append(T("isize", "isize", [("(intptr_t)-3", "-3"), ("INTPTR_MIN", str(-(1 << 63)))], "int64", cc="intptr_t"))
    t.append(T("usize", "usize", [("(uintptr_t)7", "7"), ("UINTPTR_MAX", str((1 << 64) - 1))], "int64", cc="uintptr_t"))
    fv = [0, 0x80000000, 0x3f800000, 0x7f800000, 0xff800000, 0x00000001, 0x7f7fffff, 0x7fc00123, 0xc2f6e979]
    t.append(T("f32", "f32", [(f"fb(0x{v:08x}u)", f"f{v:08x}") for v in fv], "f32", cc="float"))
    dv = [0, 1 << 63, 0x3ff0000000000000, 0x7ff0000000000000, 0xfff0000000000000, 1, 0x7fefffffffffffff,
          0x7ff8000000000123, 0xc05edd2f1a9fbe77]
    t.append(T("f64", "f64", [(f"db(0x{v:016x}ull)", f"d{v:016x}") for v in dv], "f64", cc="double"))
    t.append(T("bool", "bool", [("true", "true"), ("false", "false")], "bool", cc="bool"))
    t.append(T("char", "char", [(f"ch(0x{v:x})", f"c{v:x}") for v in (0, 0x61, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff)], "char", cc="rs_std::char_"))
    t.append(T("cptr", "*const i32", [("(int32_t const*)nullptr", "p0"), ("(int32_t const*)(uintptr_t)0xfedcba9876543210", "pfedcba9876543210")], "ptr", cc="int32_t const*"))
    t.append(T("mptr", "*mut u8", [("(uint8_t*)nullptr", "p0"), ("(uint8_t*)(uintptr_t)0x10", "p10")], "ptr", cc="uint8_t*"))
    t.append(T("ref", "&'static i32", [("ref<const int32_t>(G32[1])", "-20"), ("ref<const int32_t>(G32[2])", "30")], "ref"))
    t.append(T("P4", "P4", [("foo::P4::mk(200,40000)", "P4{200,40000}"), ("foo::P4::mk(0,1)", "P4{0,1}")], "s4", cc="foo::P4"))
    t.append(T("D12", "D12", [("foo::D12::mk(-7,fb(0x3f800000u),9)", "D12{-7,f3f800000,9}"), ("foo::D12::mk(INT32_MAX,fb(0x80000000u),255)", f"D12{{{2**31-1},f80000000,255}}")], "s12", cc="foo::D12"))
    t.append(T("Big", "Big", [("foo::Big::mk(1,-2,3,4,db(0x3ff0000000000000ull))", "Big{1,-2,3,4,d3ff0000000000000}"), ("foo::Big::mk(UINT64_MAX,INT64_MIN,UINT32_MAX,255,db(1))", f"Big{{{2**64-1},{-2**63},{2**32-1},255,d0000000000000001}}")], "big", cc="foo::Big"))
    t.append(T("Tu", "Tu", [("foo::Tu(-9,db(0x3ff0000000000000ull),77)", "Tu(-9,d3ff0000000000000,77)"), ("foo::Tu(5,db(0),0)", "Tu(5,d0000000000000000,0)")], "tu", cc="foo::Tu"))
    t.append(T("W", "W", [("foo::W(4000000000u)", "W4000000000"), ("foo::W(0)", "W0")], "w", cc="foo::W"))
    t.append(T("Un", "Un", [("foo::Un::mk(0xdeadbeefu)", "Un3735928559")], "un", cc="foo::Un"))
    t.append(T("En", "En", [("foo::En::MakeA()", "En-5"), ("foo::En::MakeB()", "En-4"), ("foo::En::MakeC()", "En300")], "en", cc="foo::En"))
    t.append(T("Pay", "Pay", [("foo::Pay::z()", "PayZ"), ("foo::Pay::i(INT32_MIN)", f"PayI{-2**31}"), ("foo::Pay::q(200,UINT64_MAX)", f"PayQ200,{2**64-1}")], "pay", cc="foo::Pay"))
    t.append(T("Dd", "Dd", [("foo::Dd::mk(17)", "Dd17"), ("foo::Dd()", "Dd-1")], "dd", cc="foo::Dd"))
    t.append(T("oi32", "Option<i32>", [("std::optional<int32_t>(-6)", "S(-6)"), ("std::optional<int32_t>()", "N"), ("std::optional<int32_t>(0)", "S(0)")], "opt", cc="std::optional<int32_t>"))
    t.append(T("ou8", "Option<u8>", [("std::optional<uint8_t>(255)", "S(255)"), ("std::optional<uint8_t>()", "N")], "opt", cc="std::optional<uint8_t>"))
    t.append(T("obool", "Option<bool>", [("std::optional<bool>(true)", "S(true)"), ("std::optional<bool>(false)", "S(false)"), ("std::optional<bool>()", "N")], "opt", cc="std::optional<bool>"))
    t.append(T("of64", "Option<f64>", [("std::optional<double>(db(0x7ff8000000000123ull))", "S(d7ff8000000000123)"), ("std::optional<double>()", "N")], "opt", cc="std::optional<double>"))
    t.append(T("ochar", "Option<char>", [("std::optional<rs_std::char_>(ch(0x10ffff))", "S(c10ffff)"), ("std::optional<rs_std::char_>()", "N")], "opt"))
    t.append(T("oref", "Option<&'static i32>", [("std::optional<int32_t const*>(&G32[3])", "S(-40)"), ("std::optional<int32_t const*>()", "N")], "opt"))
    t.append(T("oP4", "Option<P4>", [("std::optional<foo::P4>(foo::P4::mk(3,4))", "S(P4{3,4})"), ("std::optional<foo::P4>()", "N")], "opt"))
    t.append(T("oBig", "Option<Big>", [("std::optional<foo::Big>(foo::Big::mk(1,2,3,4,db(0)))", "S(Big{1,2,3,4,d0000000000000000})"), ("std::optional<foo::Big>()", "N")], "opt"))
    t.append(T("oo", "Option<Option<u8>>", [("std::optional<std::optional<uint8_t>>(std::optional<uint8_t>(9))", "S(S(9))"), ("std::optional<std::optional<uint8_t>>(std::optional<uint8_t>())", "S(N)"), ("std::optional<std::optional<uint8_t>>()", "N")], "opt"))
    t.append(T("ostr", "Option<&'static str>", [('std::optional<rs_std::StrRef>(sr("h\\0i",3))', "S(s680069)"), ("std::optional<rs_std::StrRef>()", "N")], "opt"))
    t.append(T("ostring", "Option<String>", [('std::optional<rs::alloc::string::String>(mkstr("xyz",3))', "S(s78797a)"), ("std::optional<rs::alloc::string::String>()", "N")], "opt"))
    t.append(T("oDd", "Option<Dd>", [("std::optional<foo::Dd>(foo::Dd::mk(4))", "S(Dd4)"), ("std::optional<foo::Dd>()", "N")], "opt"))
    t.append(T("rii", "Result<i32, u8>", [("rs_std::Result<int32_t,uint8_t>(-3)", "O(-3)"), ("rs_std::Result<int32_t,uint8_t>(rs_std::unexpected<uint8_t>(250))", "E(250)")], "res"))
    t.append(T("rsi", "Result<String, En>", [('rs_std::Result<rs::alloc::string::String,foo::En>(mkstr("ok",2))', "O(s6f6b)"), ("rs_std::Result<rs::alloc::string::String,foo::En>(rs_std::unexpected<foo::En>(foo::En::MakeC()))", "E(En300)")], "res"))
    t.append(T("rud", "Result<P4, Big>", [("rs_std::Result<foo::P4,foo::Big>(foo::P4::mk(1,2))", "O(P4{1,2})"), ("rs_std::Result<foo::P4,foo::Big>(rs_std::unexpected<foo::Big>(foo::Big::mk(8,1,1,1,db(0))))", "E(Big{8,1,1,1,d0000000000000000})")], "res"))
    t.append(T("tup2", "(i32, u8)", [("std::tuple<int32_t,uint8_t>(-1,200)", "(-1,200)")], "tup"))
    t.append(T("tup1", "(f64,)", [("std::tuple<double>(db(0x3ff0000000000000ull))", "(d3ff0000000000000)")], "tup"))
    t.append(T("tup3", "(u8, i64, u16)", [("std::tuple<uint8_t,int64_t,uint16_t>(1,INT64_MIN,60000)", f"(1,{-2**63},60000)")], "tup"))
    t.append(T("tupn", "(i32, (u8, f64))", [("std::tuple<int32_t,std::tuple<uint8_t,double>>(5,std::tuple<uint8_t,double>(6,db(0)))", "(5,(6,d0000000000000000))")], "tup"))
    t.append(T("tupo", "(Dd, String)", [('std::tuple<foo::Dd,rs::alloc::string::String>(foo::Dd::mk(3),mkstr("q",1))', "(Dd3,s71)")], "tup"))
    t.append(T("arr3", "[i32; 3]", [("std::array<int32_t,3>{1,-2,3}", "[1,-2,3]")], "arr"))
    t.append(T("arr2p", "[P4; 2]", [("std::array<foo::P4,2>{foo::P4::mk(1,2),foo::P4::mk(3,4)}", "[P4{1,2},P4{3,4}]")], "arr"))
    t.append(T("arr5", "[u8; 5]", [("std::array<uint8_t,5>{1,2,3,4,255}", "[1,2,3,4,255]")], "arr"))
    t.append(T("str", "&'static str", [('sr("",0)', "s"), ('sr("a\\xc3\\xa9\\0z",5)', "s61c3a9007a"), ('sr("\\xf4\\x8f\\xbf\\xbf",4)', "sf48fbfbf")], "str"))
    t.append(T("sl8", "&'static [u8]", [("rs_std::SliceRef<const uint8_t>(G8)", "[1,2,3,4]"), ("rs_std::SliceRef<const uint8_t>()", "[]")], "sl"))
    t.append(T("sl32", "&'static [i32]", [("rs_std::SliceRef<const int32_t>(std::span<const int32_t>(G32+1,2))", "[-20,30]")], "sl"))
    t.append(T("string", "String", [('mkstr("",0)', "s"), ('mkstr("hello\\0w",7)', "s68656c6c6f0077")], "string"))
    t.append(T("vec32", "Vec<i32>", [("foo::mk_vec_i32(3,-1)", "[-1,0,1]"), ("foo::mk_vec_i32(0,0)", "[]"), ("rs_std::Vec<int32_t>()", "[]")], "vec"))
    t.append(T("vec8", "Vec<u8>", [("foo::mk_vec_u8(5,253)", "[253,254,255,0,1]")], "vec"))
    return t
