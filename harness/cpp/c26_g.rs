// The Rust half of c26.h.
use core::marker::PhantomData;
use core::ffi::c_void;
unsafe extern "C" {
    fn c26_born() -> u64; fn c26_died(t: u64); fn c26_live(t: u64) -> i32;
    fn c26_obj_new(i: u64) -> *mut c_void; fn c26_obj_del(p: *mut c_void); fn c26_obj_id(p: *const c_void) -> u64;
    fn c26_str_new(i: u64) -> *mut c_void; fn c26_str_del(p: *mut c_void); fn c26_str_eq(p: *const c_void, i: u64) -> i32;
}
pub trait G: Sized { const N: u64; fn make(i: u64) -> Self; fn same(&self, i: u64) -> bool; }
macro_rules! leaf { ($($t:ty: $a:expr, $b:expr;)*) => { $( impl G for $t { const N: u64 = 2; fn make(i: u64) -> $t { if i == 0 { $a } else { $b } }
    fn same(&self, i: u64) -> bool { let w = Self::make(i); unsafe { core::slice::from_raw_parts(self as *const _ as *const u8, size_of::<$t>()) == core::slice::from_raw_parts(&w as *const _ as *const u8, size_of::<$t>()) } } } )* } }
leaf! { u8: 0, 0xA5; i8: -1, 0x5A; u16: 0x0102, 0xFFFE; i32: -2, 0x01020304; u32: 7, 0xFEDCBA98; u64: 0x0102030405060708, 0x8000000000000001; i64: i64::MIN, 77;
    f32: 1.5, -0.0; f64: -3.25, 1e300; bool: false, true; *const i32: core::ptr::null(), 0x1234 as *const i32; *mut u8: 0x77 as *mut u8, usize::MAX as *mut u8; }
macro_rules! slices { ($($t:ty, $e:ty, $f:ident;)*) => { $( impl G for $t { const N: u64 = 2; fn make(i: u64) -> $t { if i == 0 { core::ptr::$f(0x4440 as _, 1) } else { core::ptr::$f(0x5670 as _, 3) } }
    fn same(&self, i: u64) -> bool { *self as *const $e as usize == Self::make(i) as *const $e as usize && self.len() == Self::make(i).len() } } )* } }
slices! { *const [i16], i16, slice_from_raw_parts; *mut [u64], u64, slice_from_raw_parts_mut; }
#[repr(C)] pub struct Mix { a: u8, b: u32, c: u16 }
impl G for Mix { const N: u64 = 2; fn make(i: u64) -> Mix { if i == 0 { Mix { a: 255, b: 0, c: 9 } } else { Mix { a: 1, b: 0x02030405, c: 0x0607 } } }
    fn same(&self, i: u64) -> bool { let w = Mix::make(i); self.a == w.a && self.b == w.b && self.c == w.c } }
#[repr(C)] pub struct Own { id: u64, tok: u64 }
impl Drop for Own { fn drop(&mut self) { unsafe { c26_died(self.tok) } } }
impl G for Own { const N: u64 = 2; fn make(i: u64) -> Own { Own { id: i + 40, tok: unsafe { c26_born() } } } fn same(&self, i: u64) -> bool { self.id == i + 40 && unsafe { c26_live(self.tok) != 0 } } }
// A C++ object in a box, as a bridge of the user's: one pointer, null never.
pub struct BObj(*mut c_void);
impl Drop for BObj { fn drop(&mut self) { unsafe { c26_obj_del(self.0) } } }
impl G for BObj { const N: u64 = 2; fn make(i: u64) -> BObj { BObj(unsafe { c26_obj_new(i + 60) }) } fn same(&self, i: u64) -> bool { unsafe { c26_obj_id(self.0) == i + 60 } } }
#[derive(Clone, Default)] pub struct BObjAbi;
unsafe impl bridge_rust::CrubitAbi for BObjAbi { type Value = BObj; const SIZE: usize = 8;
    fn encode(self, v: BObj, e: &mut bridge_rust::Encoder) { let v = core::mem::ManuallyDrop::new(v); bridge_rust::transmute_abi::<*mut c_void>().encode(v.0, e) }
    unsafe fn decode(self, d: &mut bridge_rust::Decoder) -> BObj { BObj(unsafe { bridge_rust::transmute_abi::<*mut c_void>().decode(d) }) } }
pub struct Msg;
#[derive(Clone)] pub struct MsgBridge<M>(pub PhantomData<M>);
unsafe impl<M> bridge_rust::CrubitAbi for MsgBridge<M> { type Value = BObj; const SIZE: usize = 8;
    fn encode(self, v: BObj, e: &mut bridge_rust::Encoder) { BObjAbi.encode(v, e) }
    unsafe fn decode(self, d: &mut bridge_rust::Decoder) -> BObj { unsafe { BObjAbi.decode(d) } } }
pub struct Str(*mut c_void);
impl Drop for Str { fn drop(&mut self) { unsafe { c26_str_del(self.0) } } }
impl G for Str { const N: u64 = 2; fn make(i: u64) -> Str { Str(unsafe { c26_str_new(i) }) } fn same(&self, i: u64) -> bool { unsafe { c26_str_eq(self.0, i) != 0 } } }
pub mod std { #[derive(Clone, Default)] pub struct BoxedCppStringAbi; }
unsafe impl bridge_rust::CrubitAbi for std::BoxedCppStringAbi { type Value = Str; const SIZE: usize = 8;
    fn encode(self, v: Str, e: &mut bridge_rust::Encoder) { let v = core::mem::ManuallyDrop::new(v); bridge_rust::transmute_abi::<*mut c_void>().encode(v.0, e) }
    unsafe fn decode(self, d: &mut bridge_rust::Decoder) -> Str { Str(unsafe { bridge_rust::transmute_abi::<*mut c_void>().decode(d) }) } }
impl<T: G> G for Option<T> { const N: u64 = 1 + T::N; fn make(i: u64) -> Self { if i == 0 { None } else { Some(T::make(i - 1)) } }
    fn same(&self, i: u64) -> bool { match self { None => i == 0, Some(v) => i != 0 && v.same(i - 1) } } }
macro_rules! tup { ($($($T:ident)*;)*) => { $(
    #[allow(unused, non_snake_case)] impl<$($T: G),*> G for ($($T,)*) { const N: u64 = 1 $(* $T::N)*;
        fn make(i: u64) -> Self { let mut w: u64 = Self::N; $( w /= $T::N; let $T = $T::make(i / w % $T::N); )* ($($T,)*) }
        fn same(&self, i: u64) -> bool { let mut w: u64 = Self::N; let ($($T,)*) = self; true $( && { w /= <$T as G>::N; $T.same(i / w % <$T as G>::N) } )* } } )* } }
tup! { ; A; A B; A B C; A B C D; A B C D E; A B C D E F; A B C D E F H; A B C D E F H I; A B C D E F H I J; A B C D E F H I J K; A B C D E F H I J K L; A B C D E F H I J K L M; }
pub fn size<A: bridge_rust::CrubitAbi>(_: &A) -> usize { A::SIZE }
pub fn n<A: bridge_rust::CrubitAbi>(_: &A) -> u64 where A::Value: G { A::Value::N }
#[derive(Clone)] pub struct UOpt<A>(pub A);
unsafe impl<A: bridge_rust::CrubitAbi> bridge_rust::CrubitAbi for UOpt<A> { type Value = Option<A::Value>; const SIZE: usize = 1 + A::SIZE;
    fn encode(self, v: Self::Value, e: &mut bridge_rust::Encoder) { bridge_rust::transmute_abi::<u8>().encode(v.is_some() as u8 + 7, e); if let Some(v) = v { self.0.encode(v, e) } }
    unsafe fn decode(self, d: &mut bridge_rust::Decoder) -> Self::Value { unsafe { if bridge_rust::transmute_abi::<u8>().decode(d) == 8 { Some(self.0.decode(d)) } else { None } } } }
#[derive(Clone)] pub struct UPair<A, B>(pub A, pub B);
unsafe impl<A: bridge_rust::CrubitAbi, B: bridge_rust::CrubitAbi> bridge_rust::CrubitAbi for UPair<A, B> { type Value = (A::Value, B::Value); const SIZE: usize = A::SIZE + B::SIZE;
    fn encode(self, v: Self::Value, e: &mut bridge_rust::Encoder) { self.1.encode(v.1, e); self.0.encode(v.0, e); }
    unsafe fn decode(self, d: &mut bridge_rust::Decoder) -> Self::Value { unsafe { let b = self.1.decode(d); (self.0.decode(d), b) } } }
