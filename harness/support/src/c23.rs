//! C23: every tree of initializer combinators to a depth, every struct of initializers with every failing
//! subset, into every kind of destination, against a model of what is constructed and dropped when.
#![feature(negative_impls)]
#![allow(incomplete_features)]
use ctor::*;
use std::convert::Infallible;
use std::mem::ManuallyDrop;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use vmc::*;
mod probe;
use probe::*;

static EVALS: AtomicU64 = AtomicU64::new(0);
static CASES: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Copy, Debug, PartialEq)]
enum A { Ok, Err, Panic }
#[derive(Clone, Debug)]
enum T {
    Leaf(A), Then(Box<T>, A), MapErr(Box<T>, A), ErrInto(Box<T>), OrElse(Box<T>, Option<Box<T>>),
    Unwrap(Box<T>), Expect(Box<T>), OrDefault(Box<T>, A), Copied(A), Moved(A), CopiedConst(A), Wrapped(Box<T>),
}
fn leaf(a: A) -> DynC<P> {
    let t = Token::new();
    DynC(Box::new(move |d| { let _t = &t; log(Ev::Call("init")); match a { A::Ok => { unsafe { P::make(d, 1); } Ok(()) } A::Err => Err(7), A::Panic => panic!("init") } }))
}
struct E32(u32);
impl From<u32> for E32 { fn from(x: u32) -> E32 { log(Ev::Call("into")); E32(x + 1000) } }

fn build(t: &T) -> DynC<P> {
    match t {
        T::Leaf(a) => leaf(*a),
        T::Then(c, a) => { let (a, k) = (*a, Token::new()); erase(build(c).ctor_then(move |mut p| {
            let _k = &k; log(Ev::Call("then")); unsafe { p.as_mut().get_unchecked_mut().marks += 10 };
            match a { A::Ok => Ok(()), A::Err => Err(8), A::Panic => panic!("then") } })) }
        T::MapErr(c, a) => { let (a, k) = (*a, Token::new()); erase(build(c).ctor_map_err(move |e| { let _k = &k; log(Ev::Call("map_err")); if a == A::Panic { panic!("map") } e + 100 })) }
        T::ErrInto(c) => erase(build(c).ctor_err_into::<E32>().ctor_map_err(|e: E32| e.0)),
        T::OrElse(c, o) => { let (o, k) = (o.clone(), Token::new()); erase(build(c).ctor_or_else(move |_| { let _k = &k; log(Ev::Call("or_else")); match &o { Some(o) => build(o), None => panic!("or_else") } })) }
        T::Unwrap(c) => erase(build(c).ctor_unwrap().ctor_make_fallible()),
        T::Expect(c) => erase(build(c).ctor_expect("msg").ctor_make_fallible()),
        T::OrDefault(c, a) => { let a = *a; let c = build(c); erase(DynC(Box::new(move |d| { let r = unsafe { c.ctor(d) }; w(|w| w.default_panics.set(a == A::Panic)); r })).ctor_unwrap_or_default().ctor_make_fallible()) }
        T::Wrapped(c) => { let c = build(c); erase(DynC(Box::new(move |d: *mut P| unsafe { ManuallyDropCtor::new(c).ctor(d as *mut ManuallyDrop<P>) }))) }
        T::Copied(a) | T::Moved(a) | T::CopiedConst(a) => { let (t, a) = (t.clone(), *a); DynC(Box::new(move |d: *mut P| {
            w(|w| w.clone_panics.set(a == A::Panic));
            let mut src = emplace!(leaf(A::Ok).ctor_unwrap());
            let at = &*src as *const P;
            let Ok(()) = (match t { T::Copied(_) => unsafe { copy(&*src).ctor(d) }, T::Moved(_) => unsafe { mov!(src.as_mut()).ctor(d) },
                _ => unsafe { const_mov!(src).ctor(d) } });
            if matches!(t, T::Moved(_)) != (unsafe { (*at).marks } == 0) { log(Ev::Bad("move state of the source".into())); }
            Ok(())
        })) }
    }
}
#[derive(Clone, Debug, PartialEq)]
enum Out { Ok(u32, u32), Err(u32), Panic }   // id and marks of the object, error, unwinding
#[derive(Default)]
struct M { log: Vec<Ev>, next: u32 }
impl M {
    fn new_obj(&mut self) -> u32 { let i = self.next; self.next += 1; self.log.push(Ev::New(i)); i }
    fn call(&mut self, s: &'static str) { self.log.push(Ev::Call(s)); }
    fn eval(&mut self, t: &T) -> Out {
        use Out::*;
        match t {
            T::Leaf(a) => { self.call("init"); match a { A::Ok => Ok(self.new_obj(), 1), A::Err => Err(7), A::Panic => Panic } }
            T::Then(c, a) => match self.eval(c) { Ok(i, m) => { self.call("then"); match a { A::Ok => Ok(i, m + 10),
                x => { self.log.push(Ev::Drop(i)); if *x == A::Err { Err(8) } else { Panic } } } } o => o },
            T::MapErr(c, a) => match self.eval(c) { Err(e) => { self.call("map_err"); if *a == A::Panic { Panic } else { Err(e + 100) } } o => o },
            T::ErrInto(c) => match self.eval(c) { Err(e) => { self.call("into"); Err(e + 1000) } o => o },
            T::OrElse(c, o) => match self.eval(c) { Err(_) => { self.call("or_else"); match o { Some(o) => self.eval(o), None => Panic } } o => o },
            T::Unwrap(c) | T::Expect(c) => match self.eval(c) { Err(_) => Panic, o => o },
            T::OrDefault(c, a) => match self.eval(c) { Err(_) => { self.call("default"); if *a == A::Panic { Panic } else { Ok(self.new_obj(), 0) } } o => o },
            T::Wrapped(c) => self.eval(c),
            T::Copied(a) | T::Moved(a) | T::CopiedConst(a) => {
                self.call("init"); let s = self.new_obj();
                self.call(match t { T::Copied(_) => "copy", T::Moved(_) => "move", _ => "const move" });
                let r = if *a == A::Panic { Panic } else { Ok(self.new_obj(), 1) };
                self.log.push(Ev::Drop(s)); r
            }
        }
    }
}
fn judge(what: &str, t: &dyn std::fmt::Debug, got: Result<Result<(u32, u32), u32>, String>, want: &Out, log: Vec<Ev>, wlog: &[Ev], alive_after: usize) {
    let g = match &got { Ok(Ok((i, m))) => Out::Ok(*i, *m), Ok(Err(e)) => Out::Err(*e), Err(_) => Out::Panic };
    if let Err(m) = &got { if !["init", "then", "map", "or_else", "default", "copy", "move", "const move"].contains(&m.as_str()) && !m.contains("failed") && !m.starts_with("msg: ") && !m.contains("unwrap") {
        viol("unexpected-panic", format!("{what} of {t:?}: {m}")); } }
    if g != *want { viol("outcome", format!("{what} of {t:?}: the outcome is {g:?}, expected {want:?}")); }
    if log != wlog { viol("construct-drop-history", format!("{what} of {t:?}: happened {log:?}\nexpected {wlog:?}")); }
    if alive_after != 0 { viol("leak", format!("{what} of {t:?}: {alive_after} object(s) still live at the end")); }
    if tokens() != 0 { viol("captured-values", format!("{what} of {t:?}: captured values left: {}", tokens())); }
}
fn obs(p: Pin<&P>) -> (u32, u32) { (p.id, p.marks) }

const SINKS: [&str; 10] = ["Box::try_emplace", "Rc::try_emplace", "Arc::try_emplace", "Slot::new", "Slot::try_replace", "try_emplace!", "emplace!", "Box::emplace", "Slot::replace", "ManuallyDropCtor"];
fn sink(k: usize, t: &T) {
    EVALS.fetch_add(1, Relaxed);
    reset();
    let mut m = M::default();
    // events before the initializer runs
    let pre = if k == 4 || k == 8 { m.call("init"); let i = m.new_obj(); m.log.push(Ev::Drop(i)); true } else { false };
    let mut want = m.eval(t);
    if let Out::Ok(i, _) = want { m.log.push(Ev::Drop(i)); }
    if matches!(k, 6..=8) { if let Out::Err(_) = want { want = Out::Panic; } }
    let c = build(t);
    let got = catch(|| match k {
        0 => Box::try_emplace(c).map(|p| obs(p.as_ref())),
        1 => Rc::try_emplace(c).map(|p| obs(p.as_ref())),
        2 => Arc::try_emplace(c).map(|p| obs(p.as_ref())),
        3 => Box::try_emplace(Slot::new(c)).map(|s| { let s = unsafe { Pin::into_inner_unchecked(s) }; let p = s.as_opt().expect("full"); (p.id, p.marks) }),
        4 => { let mut s = emplace!(Slot::uninit()); if pre { let _ = s.as_mut().try_replace(leaf(A::Ok)); }
               let r = s.as_mut().try_replace(c).map(|p| obs(p.as_ref()));
               if s.as_opt().map(|p| (p.id, p.marks)) != r.ok() { log(Ev::Bad("slot state after try_replace".into())); } r }
        5 => { let r = try_emplace!(c); r.map(|p| obs(p.as_ref())) }
        6 => { let p = emplace!(c.ctor_unwrap()); Ok(obs(p.as_ref())) }
        7 => { let p = Box::emplace(c.ctor_expect("msg")); Ok(obs(p.as_ref())) }
        8 => { let mut s = emplace!(Slot::uninit()); if pre { s.as_mut().replace(leaf(A::Ok).ctor_unwrap()); }
               let r = obs(s.as_mut().replace(c.ctor_unwrap()).as_ref()); Ok(r) }
        _ => Box::try_emplace(ManuallyDropCtor::new(c)).map(|p| { let mut p = unsafe { Pin::into_inner_unchecked(p) }; let r = (p.id, p.marks); unsafe { ManuallyDrop::drop(&mut p) }; r }),
    });
    judge(SINKS[k], t, got, &want, take_log(), &m.log, live());
}

// ---- structs
macro_rules! fields { ($S:ident { $($f:ident),* }) => {
    #[recursively_pinned(PinnedDrop)]
    struct $S { $($f: P),* }
    impl PinnedDrop for $S { unsafe fn pinned_drop(self: Pin<&mut Self>) {
        log(Ev::Call("pinned_drop")); let at = &*self as *const $S as usize; let _ = at;
        let p = self.project_pin();
        $( if std::ptr::from_ref(&*p.$f) as usize != at + std::mem::offset_of!($S, $f) { log(Ev::Bad("projection".into())); } )*
    } }
} }
fields!(S3 { a, b, c });
#[recursively_pinned]
struct T1(P);
#[recursively_pinned]
struct T2(P, P);
#[recursively_pinned]
struct T4(P, P, P, P);
#[recursively_pinned]
struct T7(P, P, P, P, P, P, P);
#[recursively_pinned]
struct Nest { x: P, s: S3, t: T2, y: P }
#[derive(ctor::CtorFrom_Default)]
#[recursively_pinned]
struct Dflt { a: P, b: P }

/// a field initializer: runs fine, panics before, or panics after having constructed (its part is dropped by it)
#[derive(Clone, Copy, Debug, PartialEq)]
enum F { Ok, Panic, ThenErr }
fn field(f: F) -> DynI<P> { match f { F::Ok => erase_i(leaf(A::Ok).ctor_unwrap()), F::Panic => erase_i(leaf(A::Panic).ctor_unwrap()),
    F::ThenErr => erase_i(leaf(A::Ok).ctor_then(|_| Err(9)).ctor_unwrap()) } }
/// Drops of a failed construction may come in any order; everything before them is in order.
fn run_struct<S: 'static>(name: &str, fs: &[F], make: impl FnOnce() -> DynI<S>, pinned: usize) {
    EVALS.fetch_add(1, Relaxed); CASES.fetch_add(1, Relaxed);
    reset();
    let mut want = vec![]; let mut n = 0; let mut liveset = vec![]; let mut fails = false;
    for f in fs {
        want.push(Ev::Call("init"));
        if *f == F::Panic { fails = true; break; }
        want.push(Ev::New(n)); liveset.push(n); n += 1;
        if *f == F::ThenErr { fails = true; want.push(Ev::Drop(n - 1)); liveset.pop(); break; }
    }
    let c = make();
    let mut ran = None;
    let r = catch(|| { let b = Box::emplace(c); ran = Some(take_log()); drop(b); });
    let rest = take_log();
    let all = ran.clone().unwrap_or_else(|| rest.clone());
    let k = all.len().min(want.len());
    if r.is_ok() == fails || ran.is_some() == fails { viol("struct-outcome", format!("{name} {fs:?}: success = {}", r.is_ok())); }
    if all[..k] != want[..] || (!fails && all.len() != want.len()) { viol("struct-construction", format!("{name} {fs:?}: happened {all:?}, expected {want:?}")); }
    let tail: Vec<Ev> = if fails { all[k..].to_vec() } else { rest };
    let mut drops: Vec<u32> = tail.iter().filter_map(|e| if let Ev::Drop(i) = e { Some(*i) } else { None }).collect();
    if !fails && !drops.windows(2).all(|p| p[0] < p[1]) { viol("struct-drop-order", format!("{name} {fs:?}: {tail:?}")); }
    drops.sort();
    let pd = tail.iter().filter(|e| **e == Ev::Call("pinned_drop")).count();
    let others = tail.iter().filter(|e| !matches!(e, Ev::Drop(_)) && **e != Ev::Call("pinned_drop")).count();
    let full_inner = if fails { None } else { Some(pinned) };
    if drops != liveset || others != 0 || full_inner.is_some_and(|x| x != pd) { viol("struct-drops", format!("{name} {fs:?}: after construction {tail:?}; live parts were {liveset:?}, pinned_drop expected {full_inner:?}")); }
    if fails && name != "Nest" && pd != 0 { viol("pinned-drop-of-partial", format!("{name} {fs:?}: {tail:?}")); }
    if live() != 0 || tokens() != 0 { viol("struct-leak", format!("{name} {fs:?}: {} live, {} captured values", live(), tokens())); }
}

fn main() {
    quiet_panics();
    let th = thorough();
    let leaves: Vec<T> = [A::Ok, A::Err, A::Panic].into_iter().map(T::Leaf).collect();
    let mut first = leaves.clone();
    for a in [A::Ok, A::Panic] { first.extend([T::Copied(a), T::Moved(a), T::CopiedConst(a)]); }
    let grow = |base: &[T], second: &[T]| -> Vec<T> {
        let mut v = vec![];
        for t in base {
            let b = || Box::new(t.clone());
            for a in [A::Ok, A::Err, A::Panic] { v.push(T::Then(b(), a)); }
            for a in [A::Ok, A::Panic] { v.push(T::MapErr(b(), a)); v.push(T::OrDefault(b(), a)); }
            v.extend([T::ErrInto(b()), T::Unwrap(b()), T::Expect(b()), T::OrElse(b(), None), T::Wrapped(b())]);
            for s in second { v.push(T::OrElse(b(), Some(Box::new(s.clone())))); }
        }
        v
    };
    let d2 = grow(&first, &leaves);
    let d3 = grow(&d2, if th { &d2 } else { &first });
    let d4 = grow(&d3, &leaves);
    let mut all = first.clone(); all.extend(d2.iter().cloned()); all.extend(d3.iter().cloned());
    all.extend(d4.iter().cloned());
    if th { all.extend(grow(&d4, &leaves)); }
    for t in &d3[..] { if let T::OrElse(..) = t { sample(|| format!("{t:?}")); break; } }
    sample(|| format!("{:?}", d4[d4.len() / 2]));
    par(all.len() as u64, 64, |i| {
        CASES.fetch_add(1, Relaxed);
        let t = &all[i as usize];
        for k in 0..SINKS.len() { sink(k, t); }
    });
    let fs = [F::Ok, F::Panic, F::ThenErr];
    let seqs = |n: usize| (0..3u64.pow(n as u32)).map(move |i| digits(i, 3, n).into_iter().map(|d| fs[d]).collect::<Vec<F>>());
    for s in seqs(1) { let v = s.clone(); run_struct("T1", &s, || erase_i(ctor!(T1(field(v[0])))), 0); }
    for s in seqs(2) { let v = s.clone(); run_struct("T2", &s, || erase_i(ctor!(T2(field(v[0]), field(v[1])))), 0); }
    for s in seqs(3) { let v = s.clone(); run_struct("S3", &s, || erase_i(ctor!(S3 { a: field(v[0]), b: field(v[1]), c: field(v[2]) })), 1); }
    for s in seqs(4) { let v = s.clone(); run_struct("T4", &s, || erase_i(ctor!(T4(field(v[0]), field(v[1]), field(v[2]), field(v[3])))), 0); }
    for s in seqs(7) { let v = s.clone(); run_struct("T7", &s, || erase_i(ctor!(T7(field(v[0]), field(v[1]), field(v[2]), field(v[3]), field(v[4]), field(v[5]), field(v[6])))), 0);
        let v = s.clone();
        run_struct("Nest", &s, || erase_i(ctor!(Nest { x: field(v[0]), s: ctor!(S3 { a: field(v[1]), b: field(v[2]), c: field(v[3]) }), t: ctor!(T2(field(v[4]), field(v[5]))), y: field(v[6]) })), 1); }
    // plain values as initializers: moved in once, dropped once whether or not reached
    struct Plain(Token, i32);
    #[recursively_pinned]
    struct Mix { p: P, v: Plain, q: P, z: i32 }
    for s in seqs(2) {
        reset(); EVALS.fetch_add(1, Relaxed); CASES.fetch_add(1, Relaxed);
        let c = ctor!(Mix { p: field(s[0]), v: RustMoveCtor::new(Plain(Token::new(), 5)), q: field(s[1]), z: 77 });
        let r = catch(|| { let b = Box::emplace(c); (b.v.1, b.z, b.p.marks) });
        if r.is_ok() != (s == [F::Ok, F::Ok]) || r.is_ok_and(|x| x != (5, 77, 1)) || live() != 0 || tokens() != 0 { viol("mixed-struct", format!("{s:?}: {} live {} tokens {:?}", live(), tokens(), take_log())); }
        reset();
        drop(ctor!(Mix { p: field(s[0]), v: RustMoveCtor::new(Plain(Token::new(), 5)), q: field(s[1]), z: 1 }));
        if live() != 0 || tokens() != 0 || !take_log().is_empty() { viol("unused-initializer", format!("{s:?}")); }
    }
    // derived default, with the n-th default panicking
    for pan in [false, true] {
        reset(); EVALS.fetch_add(1, Relaxed);
        w(|w| w.default_panics.set(pan));
        let r = catch(|| { let b = Box::emplace(Dflt::ctor_new(())); let _ = &b.b; take_log() });
        if r.is_ok() == pan || live() != 0 || tokens() != 0 || (!pan && r.unwrap() != [Ev::Call("default"), Ev::New(0), Ev::Call("default"), Ev::New(1)]) { viol("derived-default", format!("panicking: {pan}")); }
    }
    // movable values: construct() and the values it returns
    for n in 0..4u64 { EVALS.fetch_add(1, Relaxed);
        let v: Vec<u64> = ctor::construct(RustMoveCtor::new((0..n).collect::<Vec<u64>>()).ctor_then(move |mut p| { p.push(99); Ok::<(), Infallible>(()) }));
        if v != (0..n).chain([99]).collect::<Vec<_>>() { viol("construct-value", format!("{v:?}")); }
        if ctor::construct(u64::ctor_new(&n)) != n { viol("construct-value", format!("clone {n}")); } }
    let e: Result<Pin<Box<u8>>, u32> = Box::try_emplace(ctor_error::<u8, u32>(5));
    if e != Err(5) { viol("ctor-error", "ctor_error"); }
    stat("evaluations", EVALS.load(Relaxed)); stat("distinct_nontrivial", CASES.load(Relaxed));
    finish()
}
