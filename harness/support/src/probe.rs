//! A pinned probe type whose constructions and drops are logged, and a model-side log to compare with.
use ctor::*;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::convert::Infallible;
use std::marker::PhantomPinned;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev { New(u32), Drop(u32), Call(&'static str), Bad(String) }
#[derive(Default)]
pub struct World {
    pub log: RefCell<Vec<Ev>>, pub live: RefCell<BTreeMap<usize, u32>>, pub next: Cell<u32>, pub tokens: Cell<i64>,
    pub default_panics: Cell<bool>, pub clone_panics: Cell<bool>, pub drop_panics: Cell<u64>, // bit i: dropping id i panics
}
thread_local!(static WORLD: World = World::default());
pub fn w<R>(f: impl FnOnce(&World) -> R) -> R { WORLD.with(f) }
pub fn reset() { w(|w| { w.log.borrow_mut().clear(); w.live.borrow_mut().clear(); w.next.set(0); w.tokens.set(0); w.default_panics.set(false); w.clone_panics.set(false); w.drop_panics.set(0); }) }
pub fn log(e: Ev) { w(|w| w.log.borrow_mut().push(e)) }
pub fn take_log() -> Vec<Ev> { w(|w| std::mem::take(&mut *w.log.borrow_mut())) }
pub fn live() -> usize { w(|w| w.live.borrow().len()) }
pub fn tokens() -> i64 { w(|w| w.tokens.get()) }

/// A value captured by initializers: dropped exactly once whether or not they run.
pub struct Token(());
impl Token { pub fn new() -> Self { w(|w| w.tokens.set(w.tokens.get() + 1)); Token(()) } }
impl Drop for Token { fn drop(&mut self) { w(|w| w.tokens.set(w.tokens.get() - 1)) } }

pub struct P { pub id: u32, pub marks: u32, at: usize, _p: PhantomPinned }
impl P {
    pub unsafe fn make(dest: *mut P, marks: u32) -> u32 {
        let id = w(|w| { let i = w.next.get(); w.next.set(i + 1); i });
        log(Ev::New(id));
        if let Some(old) = w(|w| w.live.borrow_mut().insert(dest as usize, id)) { log(Ev::Bad(format!("constructed {id} over the live {old}"))); }
        unsafe { dest.write(P { id, marks, at: dest as usize, _p: PhantomPinned }) };
        id
    }
}
impl Drop for P {
    fn drop(&mut self) {
        let here = self as *mut P as usize;
        if self.at != here { log(Ev::Bad(format!("{} was moved after construction", self.id))); }
        log(Ev::Drop(self.id));
        match w(|w| w.live.borrow_mut().remove(&here)) {
            Some(i) if i == self.id => {}
            x => log(Ev::Bad(format!("dropped {} where {x:?} lives", self.id))),
        }
        if !std::thread::panicking() && w(|w| self.id < 64 && w.drop_panics.get() >> self.id & 1 == 1) { panic!("drop"); }
    }
}

/// An initializer chosen at run time.
pub struct DynC<T: 'static>(pub Box<dyn FnOnce(*mut T) -> Result<(), u32>>);
impl<T> !SelfCtor for DynC<T> {}
unsafe impl<T> Ctor for DynC<T> {
    type Output = T;
    type Error = u32;
    unsafe fn ctor(self, dest: *mut T) -> Result<(), u32> { (self.0)(dest) }
}
/// An infallible one.
pub struct DynI<T: 'static>(pub Box<dyn FnOnce(*mut T)>);
impl<T> !SelfCtor for DynI<T> {}
unsafe impl<T> Ctor for DynI<T> {
    type Output = T;
    type Error = Infallible;
    unsafe fn ctor(self, dest: *mut T) -> Result<(), Infallible> { (self.0)(dest); Ok(()) }
}
pub fn erase<C: Ctor<Output = T, Error = u32> + 'static, T>(c: C) -> DynC<T> { DynC(Box::new(move |d| unsafe { c.ctor(d) })) }
pub fn erase_i<C: Ctor<Output = T, Error = Infallible> + 'static, T>(c: C) -> DynI<T> {
    DynI(Box::new(move |d| match unsafe { c.ctor(d) } { Ok(()) => (), Err(e) => match e {} }))
}

impl CtorNew<()> for P {
    type CtorType = DynI<P>;
    type Error = Infallible;
    fn ctor_new(_: ()) -> DynI<P> {
        let t = Token::new();
        DynI(Box::new(move |d| { let _t = t; log(Ev::Call("default")); if w(|w| w.default_panics.get()) { panic!("default") } unsafe { P::make(d, 0); } }))
    }
}
impl CtorNew<&P> for P {
    type CtorType = DynI<P>;
    type Error = Infallible;
    fn ctor_new(src: &P) -> DynI<P> {
        let m = src.marks;
        DynI(Box::new(move |d| { log(Ev::Call("copy")); if w(|w| w.clone_panics.get()) { panic!("copy") } unsafe { P::make(d, m); } }))
    }
}
impl CtorNew<RvalueReference<'_, P>> for P {
    type CtorType = DynI<P>;
    type Error = Infallible;
    fn ctor_new(mut src: RvalueReference<'_, P>) -> DynI<P> {
        let m = src.marks;
        unsafe { src.as_mut().get_unchecked_mut().marks = 0 };
        DynI(Box::new(move |d| { log(Ev::Call("move")); if w(|w| w.clone_panics.get()) { panic!("move") } unsafe { P::make(d, m); } }))
    }
}
impl CtorNew<ConstRvalueReference<'_, P>> for P {
    type CtorType = DynI<P>;
    type Error = Infallible;
    fn ctor_new(mut src: ConstRvalueReference<'_, P>) -> DynI<P> {
        let m = src.get_ref().marks;
        DynI(Box::new(move |d| { log(Ev::Call("const move")); if w(|w| w.clone_panics.get()) { panic!("const move") } unsafe { P::make(d, m); } }))
    }
}
