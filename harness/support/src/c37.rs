//! C37: the cast relation between all types of a universe, and the addresses and contents that casts keep.
//! The universe and the expected relation are written by checks/c37.py (VERIF_C37_SRC).
#![feature(negative_impls)]
#![allow(incomplete_features, dead_code, non_camel_case_types, unused_macros)]
#![recursion_limit = "1024"]
use cref::*;
use forward_declare::*;
use std::pin::Pin;
use vmc::*;

pub struct Pair<T: ?Sized, U: ?Sized>(std::marker::PhantomData<(*const T, *const U)>);
pub trait No { const CO: bool = false; const UP: bool = false; const DEF: bool = false; fn go(_: &'static str, _: &'static str) -> u64 { 0 } fn go_up(_: &'static str, _: usize) {} }
impl<T: ?Sized, U: ?Sized> No for Pair<T, U> {}
impl<T: CppCoerce<U>, U> Pair<T, U> {
    pub const CO: bool = true;
    /// casts a value made of recognizable bits and compares the bits
    pub fn go(t: &'static str, u: &'static str) -> u64 {
        let (n, m) = (size_of::<T>(), size_of::<U>());
        if t.starts_with("Vec") { vec_cast::<T, U>(t, u); return 1; }
        if n > 32 { viol("size", format!("{t} has {n} bytes")); return 0; }
        // pointers to a buffer that is large enough for everything, with a length of 3 behind
        static BUF: [u64; 64] = [7; 64];
        #[repr(C, align(16))]
        union Bits<T> { w: [usize; 4], t: std::mem::ManuallyDrop<T> }
        let w = [BUF.as_ptr() as usize, 3, 0, 0];
        let viaco = catch(|| -> [usize; 4] { let b = Bits::<T> { w }; let x: U = unsafe { std::mem::ManuallyDrop::into_inner(b.t) }.cpp_coerce(); let mut o = Bits::<U> { w: [0; 4] }; o.t = std::mem::ManuallyDrop::new(x); unsafe { o.w } });
        let viaca = catch(|| -> [usize; 4] { let b = Bits::<T> { w }; let x: U = CppCast::<U>::cpp_cast(unsafe { std::mem::ManuallyDrop::into_inner(b.t) }); let mut o = Bits::<U> { w: [0; 4] }; o.t = std::mem::ManuallyDrop::new(x); unsafe { o.w } });
        if n != m {
            if viaco.is_ok() || viaca.is_ok() { viol("size-mismatch-cast", format!("{t} ({n} bytes) was cast to {u} ({m} bytes)")); }
            return 1;
        }
        for r in [viaco, viaca] {
            let bytes = |w: &[usize; 4]| unsafe { std::slice::from_raw_parts(w.as_ptr() as *const u8, n).to_vec() };
            match r { Ok(o) if bytes(&o) == bytes(&w) => {} o => viol("cast-changes-bits", format!("{t} to {u}: {o:?} of {w:?}, {n} bytes")) }
        }
        1
    }
}
fn vec_cast<T: CppCoerce<U>, U>(t: &str, u: &str) {
    static BUF: [u64; 64] = [7; 64];
    for len in 0..4usize { for cap in len..len + 3 {
        let mut v: Vec<usize> = Vec::with_capacity(cap);
        for i in 0..len { v.push(&BUF[i] as *const u64 as usize); }
        let before = (v.as_ptr() as usize, v.len(), v.capacity(), v.clone());
        let x: T = unsafe { std::mem::transmute_copy(&*std::mem::ManuallyDrop::new(v)) };
        let y: U = x.cpp_coerce();
        let v: Vec<usize> = unsafe { std::mem::transmute_copy(&*std::mem::ManuallyDrop::new(y)) };
        let after = (v.as_ptr() as usize, v.len(), v.capacity(), v.clone());
        if before != after { viol("vec-cast", format!("{t} to {u}, {len} of {cap}: {after:?}, was {before:?}")); }
    } }
}
/// is U: CppType with the name of T
impl<T: internal::CppType> Pair<T, ()> { pub const DEF: bool = true; }

impl<T: oops::Upcast<U>, U> Pair<T, U> {
    pub const UP: bool = true;
    pub fn go_up(what: &'static str, off: usize) {
        static BUF: [u64; 64] = [7; 64];
        let a = BUF.as_ptr() as usize;
        let x: T = unsafe { std::mem::transmute_copy(&a) };
        let y: U = x.upcast();
        let b: usize = unsafe { std::mem::transmute_copy(&y) };
        if b != a + off { viol("upcast-address", format!("{what}: {} bytes away, expected {off}", b.wrapping_sub(a) as isize)); }
    }
}

// ---- references to C++ objects: every chain of conversions keeps the address
#[derive(Clone, Copy, Debug, PartialEq)]
enum K { Ref, Mut, PinRef, PinMut, CR, CM, Gone }
fn chains<T: ?Sized>(what: &str, p: *mut T, unpin: Option<fn(*mut T, K, usize) -> Option<(K, *const T)>>, depth: usize) -> u64 {
    let mut n = 0;
    let mut stack: Vec<(K, *const T, Vec<usize>)> = vec![];
    for k in [K::PinRef, K::PinMut, K::CR, K::CM] { stack.push((k, p, vec![])); }
    if unpin.is_some() { stack.push((K::Ref, p, vec![])); stack.push((K::Mut, p, vec![])); }
    while let Some((k, q, h)) = stack.pop() {
        n += 1;
        if !std::ptr::addr_eq(q, p) || size_of_val(unsafe { &*q }) != size_of_val(unsafe { &*p }) { viol("reference-address", format!("{what}: after {h:?} (now {k:?}) the address is {q:p}, made from {p:p}")); }
        if h.len() == depth { continue; }
        for op in 0..14 {
            let m = q as *mut T;
            let r = unsafe { step(m, k, op).or_else(|| unpin.and_then(|f| f(m, k, op))) };
            if let Some((k2, q2)) = r { let mut h = h.clone(); h.push(op); stack.push((k2, q2, h)); }
        }
    }
    n
}
unsafe fn step<T: ?Sized>(m: *mut T, k: K, op: usize) -> Option<(K, *const T)> { unsafe {
    let pr = || Pin::new_unchecked(&*m); let pm = || Pin::new_unchecked(&mut *m);
    let cr = |c: CRef<'_, T>| -> (K, *const T) { let d = c; let e = Clone::clone(&d); (K::CR, if std::ptr::addr_eq(CRef::as_ptr(d), CRef::as_ptr(e)) { CRef::as_ptr(c) } else { std::ptr::from_ref(&*m).byte_add(1) }) };
    let cm = |c: CMut<'_, T>| -> (K, *const T) { let d = c; let e = Clone::clone(&d); (K::CM, if std::ptr::addr_eq(CMut::as_ptr(d), CMut::as_mut_ptr(e)) { CMut::as_ptr(c) } else { std::ptr::from_ref(&*m).byte_add(1) }) };
    Some(match (k, op) {
        (K::PinRef, 0) => cr(CRef::from_pin(pr())),
        (K::PinRef, 1) => cr(pr().into_cref()),
        (K::PinMut, 0) => cm(CMut::from_pin(pm())),
        (K::PinMut, 1) => cm(pm().into_cmut()),
        (K::PinMut, 2) => cr(pm().into_cref()),
        (K::CR, 0) => (K::PinRef, &*CRef::unchanging(CRef::from_ptr(m)) as *const T),
        (K::CR, 1) => cm(CRef::const_cast(CRef::from_ptr(m))),
        (K::CR, 2) => cr(CRef::from_ptr(m).into_cref()),
        (K::CR, 3) => cr(CRef::from_ptr(CRef::as_ptr(CRef::from_ptr(m)))),
        (K::CM, 0) => (K::PinRef, &*CMut::unchanging(CMut::from_ptr(m)) as *const T),
        (K::CM, 1) => (K::PinMut, Pin::into_inner_unchecked(CMut::unique(CMut::from_ptr(m))) as *const T),
        (K::CM, 2) => cr(CMut::into_const(CMut::from_ptr(m))),
        (K::CM, 3) => cr(CMut::from_ptr(m).into_cref()),
        (K::CM, 4) => cm(CMut::from_ptr(m).into_cmut()),
        (K::CM, 5) => cm(CMut::from_ptr(CMut::as_mut_ptr(CMut::from_ptr(m)))),
        _ => return None,
    })
} }
fn unpin<T: ?Sized + Unpin>(m: *mut T, k: K, op: usize) -> Option<(K, *const T)> { unsafe {
    Some(match (k, op) {
        (K::Ref, 0) => (K::CR, CRef::as_ptr(CRef::from_ref(&*m))),
        (K::Ref, 1) => (K::CR, CRef::as_ptr((&*m).into_cref())),
        (K::Mut, 0) => (K::CM, CMut::as_ptr(CMut::from_ref(&mut *m))),
        (K::Mut, 1) => (K::CM, CMut::as_ptr((&mut *m).into_cmut())),
        (K::Mut, 2) => (K::CR, CRef::as_ptr((&mut *m).into_cref())),
        (K::CM, 6) => (K::Mut, CMut::unpin_unique(CMut::from_ptr(m)) as *const T),
        (K::PinRef, 6) => (K::Ref, Pin::into_inner(Pin::new(&*m)) as *const T),
        (K::PinMut, 6) => (K::Mut, Pin::into_inner(Pin::new(&mut *m)) as *const T),
        _ => return None,
    })
} }
/// functions that take any kind of reference
fn any_ref<'a, T: ?Sized + 'a>(x: CRefTo!('a, T)) -> *const T { CRef::as_ptr(x.into_cref()) }
fn any_mut<'a, T: ?Sized + 'a>(x: CMutTo!('a, T)) -> *const T { CMut::as_ptr(x.into_cmut()) }

include!(env!("VERIF_C37_SRC"));

fn main() {
    quiet_panics();
    let mut n = universe();
    struct NotUnpin(u32, #[allow(dead_code)] std::marker::PhantomPinned);
    let d = if thorough() { 8 } else { 6 };
    let mut x = 5u64; n += chains("u64", &raw mut x, Some(unpin), d);
    let mut x = (); n += chains("()", &raw mut x, Some(unpin), d);
    let mut x = NotUnpin(3, std::marker::PhantomPinned); n += chains("a pinned type", &raw mut x, None, d);
    let mut x = [1u8, 2, 3]; n += chains("[u8]", &raw mut x[..], Some(unpin), d);
    n += chains("an empty slice", &raw mut x[1..1], Some(unpin), d);
    let mut s = String::from("abc"); n += chains("str", s.as_mut_str() as *mut str, Some(unpin), d);
    let mut x = 6u16; n += chains::<dyn std::fmt::Debug + Unpin>("dyn", &raw mut x, Some(unpin), d);
    let mut v = 9u64; let a = &raw const v as usize;
    for q in [any_ref(&v) as usize, any_ref(&mut v) as usize, any_ref(Pin::new(&v)) as usize, any_ref(Pin::new(&mut v)) as usize,
        any_ref(CRef::from_ref(&v)) as usize, any_ref(CMut::from_ref(&mut v)) as usize, any_mut(&mut v) as usize, any_mut(Pin::new(&mut v)) as usize, any_mut(CMut::from_ref(&mut v)) as usize] {
        n += 1; if q != a { viol("reference-address", "CRefTo/CMutTo"); }
    }
    stat("evaluations", n); finish()
}
