//! C24: every sequence of slot operations to a depth with panicking destructors and initializers, every way of
//! reconstructing and assigning in place (in processes of their own when the process must end), against a model.
#![feature(negative_impls)]
#![allow(incomplete_features)]
use ctor::*;
use std::cell::RefCell;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use vmc::*;
mod probe;
use probe::*;

static EVALS: AtomicU64 = AtomicU64::new(0);
static CASES: AtomicU64 = AtomicU64::new(0);

/// What an initializer does: succeed, fail before or after constructing, panic before or after constructing.
#[derive(Clone, Copy, Debug, PartialEq)]
enum A { Ok, Err, Panic, LateErr, LatePanic }
const ALL: [A; 5] = [A::Ok, A::Err, A::Panic, A::LateErr, A::LatePanic];
fn init(a: A) -> DynC<P> {
    let t = Token::new();
    let first = DynC(Box::new(move |d| { let _t = &t; log(Ev::Call("init")); match a { A::Err => Err(7), A::Panic => panic!("init"), _ => { unsafe { P::make(d, 1); } Ok(()) } } }));
    match a { A::LateErr | A::LatePanic => erase(first.ctor_then(move |_| { if a == A::LatePanic { panic!("late") } Err(8) })), _ => first }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Clear, Try(A), Replace(A), Mark, New(A) }
#[derive(Clone, Debug, PartialEq)]
enum Res { Unit, Full(u32, u32), Err(u32), Panic }

struct M { log: Vec<Ev>, next: u32, cur: Option<(u32, u32)>, mask: u64 }
impl M {
    fn drop(&mut self, id: u32, unwinding: bool) -> bool { self.log.push(Ev::Drop(id)); !unwinding && self.mask >> id & 1 == 1 }
    fn clear(&mut self) -> bool { match self.cur.take() { Some((i, _)) => self.drop(i, false), None => false } }
    /// Ok: constructed
    fn init(&mut self, a: A) -> Result<(u32, u32), Res> {
        self.log.push(Ev::Call("init"));
        match a { A::Err => return Err(Res::Err(7)), A::Panic => return Err(Res::Panic), _ => {} }
        let i = self.next; self.next += 1; self.log.push(Ev::New(i));
        match a {
            A::LateErr => if self.drop(i, false) { Err(Res::Panic) } else { Err(Res::Err(8)) },
            A::LatePanic => { self.drop(i, true); Err(Res::Panic) }
            _ => Ok((i, 1)),
        }
    }
    fn op(&mut self, op: Op) -> Res {
        match op {
            Op::Clear => if self.clear() { Res::Panic } else { Res::Unit },
            Op::Mark => { if let Some(c) = &mut self.cur { c.1 += 100; Res::Full(c.0, c.1) } else { Res::Unit } }
            Op::Try(a) | Op::Replace(a) | Op::New(a) => {
                if self.clear() { return Res::Panic; }
                match self.init(a) { Ok(c) => { self.cur = Some(c); Res::Full(c.0, c.1) } Err(Res::Err(_)) if matches!(op, Op::Replace(_)) => Res::Panic, Err(r) => r }
            }
        }
    }
}
/// `holder`: 0 a slot in a local scope, 1 in a pinned box, 2 built full by `Slot::new`, 3 the content is taken out by leaking nothing: nested slot
fn run(ops: &[Op], mask: u64, holder: usize) {
    EVALS.fetch_add(1, Relaxed);
    reset(); w(|w| w.drop_panics.set(mask));
    let mut m = M { log: vec![], next: 0, cur: None, mask };
    let mut want = vec![];
    let started = if holder == 2 { let Op::New(a) = ops[0] else { return }; let r = m.op(Op::New(a)); want.push(r.clone()); matches!(r, Res::Full(..)) } else { true };
    if started { for o in &ops[(holder == 2) as usize..] { let r = m.op(*o); want.push(r); want.push(m.cur.map_or(Res::Unit, |c| Res::Full(c.0, c.1))); } 
        want.push(if m.clear() { Res::Panic } else { Res::Unit }); }
    let got = RefCell::new(vec![]);
    let body = |mut s: Pin<&mut Slot<P>>, ops: &[Op]| for o in ops {
        let r = catch(|| match *o {
            Op::Clear => { s.as_mut().clear(); Res::Unit }
            Op::Mark => match s.as_mut().as_opt_mut() { Some(mut p) => { unsafe { p.as_mut().get_unchecked_mut().marks += 100 }; Res::Full(p.id, p.marks) } None => Res::Unit },
            Op::Try(a) | Op::New(a) => match s.as_mut().try_replace(init(a)) { Ok(p) => Res::Full(p.id, p.marks), Err(e) => Res::Err(e) },
            Op::Replace(a) => { let p = s.as_mut().replace(init(a).ctor_unwrap()); Res::Full(p.id, p.marks) }
        }).unwrap_or(Res::Panic);
        got.borrow_mut().push(r);
        let now = s.as_opt().map_or(Res::Unit, |p| Res::Full(p.id, p.marks));
        let now2 = s.as_mut().as_opt_mut().map_or(Res::Unit, |p| Res::Full(p.id, p.marks));
        if now != now2 { log(Ev::Bad("as_opt and as_opt_mut disagree".into())); }
        got.borrow_mut().push(now);
    };
    let end = catch(|| match holder {
        0 => { let mut s = emplace!(Slot::uninit()); body(s.as_mut(), ops); true }
        1 => { let mut s = Box::emplace(Slot::uninit()); body(s.as_mut(), ops); true }
        2 => { let Op::New(a) = ops[0] else { unreachable!() };
            let r = catch(|| Box::try_emplace(Slot::new(init(a))));
            match r { Ok(Ok(mut s)) => { got.borrow_mut().push(s.as_opt().map_or(Res::Unit, |p| Res::Full(p.id, p.marks))); body(s.as_mut(), &ops[1..]); true }
                Ok(Err(e)) => { got.borrow_mut().push(Res::Err(e)); false } Err(_) => { got.borrow_mut().push(Res::Panic); false } } }
        _ => { // a slot inside a slot that is refilled with an empty slot at the end
            let mut o = emplace!(Slot::uninit()); { let s = o.as_mut().replace(Slot::uninit()); body(s, ops); }
            o.as_mut().replace(Slot::uninit()); true }
    });
    let mut got = got.into_inner();
    match end { Ok(true) => got.push(Res::Unit), Ok(false) => {} Err(_) => got.push(Res::Panic) }
    let l = take_log();
    let name = ["local", "boxed", "Slot::new", "nested"][holder];
    let ctx = || format!("{name} slot, {ops:?}, panicking destructors of objects {mask:#b}");
    if got != want { viol("slot-state", format!("{}: results and slot states {got:?}, expected {want:?}", ctx())); }
    if l != m.log { viol("slot-drops", format!("{}: happened {l:?}, expected {:?}", ctx(), m.log)); }
    if live() != 0 || tokens() != 0 { viol("slot-leak", format!("{}: {} live, {} captured values", ctx(), live(), tokens())); }
}

// ---- in-place reconstruction; each scenario in its own process because it may have to end
struct Sc { old_panics: bool, new: A, holder: usize, unwrap: bool }
fn scenario(i: usize) -> Option<Sc> {
    let d = digits(i as u64, 2, 2); let rest = i / 4;
    if rest >= 5 * 4 { return None; }
    Some(Sc { old_panics: d[0] == 1, unwrap: d[1] == 1, new: ALL[rest % 5], holder: rest / 5 })
}
struct Wrap { a: u64, p: P, b: u64 }
fn child(i: usize) {
    use std::io::Write;
    let s = scenario(i).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    reset(); w(|w| w.drop_panics.set(s.old_panics as u64));
    let say = |t: String| { let o = std::io::stdout(); let mut o = o.lock(); writeln!(o, "{t}").unwrap(); o.flush().unwrap(); };
    let new = || if s.unwrap { erase_i(init(s.new).ctor_unwrap()) } else { erase_i(init(s.new).ctor_expect("msg")) };
    let go = |p: Pin<&mut P>| { let at = &*p as *const P; let r = catch(|| unsafe { reconstruct(p, new()) });
        say(format!("returned {} live {} log {:?}", if r.is_ok() { "normally" } else { "by unwinding" }, live(), take_log()));
        say(format!("object {} {}", unsafe { (*at).id }, unsafe { (*at).marks })); };
    let end = catch(|| match s.holder {
        0 => { let mut b = Box::emplace(init(A::Ok).ctor_unwrap()); go(b.as_mut()); }
        1 => { let mut b = emplace!(init(A::Ok).ctor_unwrap()); go(b.as_mut()); }
        2 => { let mut b = emplace!(Slot::uninit()); let p = b.as_mut().replace(init(A::Ok).ctor_unwrap()); go(p); }
        _ => { let mut b: Pin<Box<Wrap>> = Box::emplace(DynI(Box::new(|d: *mut Wrap| unsafe { (*d).a = 11; (*d).b = 22; P::make(&raw mut (*d).p, 1); })));
            log(Ev::Call("init")); go(unsafe { b.as_mut().map_unchecked_mut(|w| &mut w.p) });
            if (b.a, b.b) != (11, 22) { say("neighbours overwritten".into()); } }
    });
    say(format!("end {} live {} log {:?}", if end.is_ok() { "normally" } else { "by unwinding" }, live(), take_log()));
}
fn reconstruct_cases() {
    let exe = std::env::current_exe().unwrap();
    let mut n = 0;
    while scenario(n).is_some() { n += 1; }
    par(n as u64, 1, |i| {
        let s = scenario(i as usize).unwrap();
        EVALS.fetch_add(1, Relaxed); CASES.fetch_add(1, Relaxed);
        let o = std::process::Command::new(&exe).arg("--scenario").arg(i.to_string()).stderr(std::process::Stdio::null()).output().unwrap();
        let out = String::from_utf8_lossy(&o.stdout).into_owned();
        use std::os::unix::process::ExitStatusExt;
        let ended = o.status.signal().is_some() || !matches!(o.status.code(), Some(0));
        let what = format!("reconstruct in {}: the old destructor {}, the initializer: {:?}", ["a box", "a local", "a slot", "a field"][s.holder], if s.old_panics { "panics" } else { "returns" }, s.new);
        if s.old_panics || s.new != A::Ok {
            // one live object or no process: a return to the caller needs exactly one live object, dropped once later
            if !ended {
                let one = out.lines().next().is_some_and(|l| l.contains(" live 1 ")) && !out.contains("Bad(") && out.lines().last().is_some_and(|l| l.contains(" live 0 "));
                if !one || !s.old_panics { viol("reconstruct-continues", format!("{what}: the process went on\n{out}")); }
            } else if out.contains("returned") { viol("reconstruct-continues", format!("{what}: control came back to the caller\n{out}")); }
        } else {
            let (before, after) = if s.holder == 3 { ("[New(0), Call(\"init\"), Drop(0), Call(\"init\"), New(1)]", "[Drop(1)]") } else { ("[Call(\"init\"), New(0), Drop(0), Call(\"init\"), New(1)]", "[Drop(1)]") };
            let want = format!("returned normally live 1 log {before}\nobject 1 1\nend normally live 0 log {after}\n");
            if ended || out != want { viol("reconstruct", format!("{what}: {out}expected\n{want}")); }
        }
    });
    stat("reconstruct_scenarios", n as u64);
}

// ---- assignment between movable objects
thread_local!(static CL: RefCell<(i64, u64, u64)> = const { RefCell::new((0, 0, 0)) }); // live, clones, panicking clone
struct U { v: u32, from: &'static str, b: Box<u32> }
impl U { fn new(v: u32, from: &'static str) -> U { CL.with_borrow_mut(|c| c.0 += 1); U { v, from, b: Box::new(v) } } }
impl Drop for U { fn drop(&mut self) { if *self.b != self.v { viol("assign-value", "payload differs at drop"); } CL.with_borrow_mut(|c| c.0 -= 1) } }
impl Clone for U { fn clone(&self) -> U { let p = CL.with_borrow_mut(|c| { let n = c.1; c.1 += 1; c.2 >> n & 1 == 1 }); if p { panic!("clone") } U::new(self.v, "copy") } }
fn maybe() -> bool { CL.with_borrow_mut(|c| { let n = c.1; c.1 += 1; c.2 >> n & 1 == 1 }) }
impl CtorNew<RvalueReference<'_, U>> for U {
    type CtorType = RustMoveCtor<U>;
    type Error = std::convert::Infallible;
    fn ctor_new(mut s: RvalueReference<'_, U>) -> RustMoveCtor<U> { if maybe() { panic!("clone") } let v = s.v; let m = s.as_mut().get_mut(); m.v = 0; *m.b = 0; RustMoveCtor::new(U::new(v, "move")) }
}
impl CtorNew<ConstRvalueReference<'_, U>> for U {
    type CtorType = RustMoveCtor<U>;
    type Error = std::convert::Infallible;
    fn ctor_new(mut s: ConstRvalueReference<'_, U>) -> RustMoveCtor<U> { if maybe() { panic!("clone") } RustMoveCtor::new(U::new(s.get_ref().v, "const move")) }
}
#[derive(Clone, Copy, MoveAndAssignViaCopy)]
struct Pod(u64, u8);
fn assignments(depth: usize) {
    let n = 3usize; let per = (n * n * 5) as u64;
    par(per.pow(depth as u32), 256, |case| for pan in [0u64, 1, 2, 4, 5] {
        let ops = digits(case, per, depth);
        EVALS.fetch_add(1, Relaxed); CASES.fetch_add((pan == 0) as u64, Relaxed);
        CL.with_borrow_mut(|c| *c = (0, 0, pan));
        {
            let mut a: Vec<U> = (0..n as u32).map(|i| U::new(i + 1, "start")).collect();
            let mut m: Vec<(u32, &str)> = (0..n as u32).map(|i| (i + 1, "start")).collect();
            let mut k = 0;
            for o in &ops {
                let (kind, i, j) = (o / (n * n), o / n % n, o % n);
                if i == j { continue; }
                let [x, y] = a.get_disjoint_mut([i, j]).unwrap();
                let fails = pan >> k & 1 == 1; k += 1;
                let r = catch(|| match kind {
                    0 => Pin::new(x).assign(&*y),
                    1 => Pin::new(x).assign(copy(&*y)),
                    2 => Pin::new(x).assign(mov!(Pin::new(&mut *y))),
                    3 => Pin::new(x).assign(const_mov!(&*y)),
                    _ => unsafe { // never unwinds here: see the scenarios for that
                        if fails { panic!("clone") } CL.with_borrow_mut(|c| c.1 += 1); let v = y.v; reconstruct(Pin::new(x), RustMoveCtor::new(U::new(v, "reconstructed"))) }
                });
                if kind == 4 && fails { CL.with_borrow_mut(|c| c.1 += 1); }
                if r.is_err() != fails { viol("assign-outcome", format!("{ops:?} {pan:b}")); }
                if !fails { let v = m[j].0; m[i] = (v, ["copy", "copy", "move", "const move", "reconstructed"][kind]); if kind == 2 { m[j].0 = 0; } }
                let now: Vec<_> = a.iter().map(|u| (u.v, u.from)).collect();
                if now != m { viol("assign-value", format!("{ops:?} {pan:b}: {now:?}, expected {m:?}")); }
            }
        }
        let l = CL.with_borrow(|c| c.0);
        if l != 0 { viol("assign-drops", format!("{ops:?} {pan:b}: {l} objects left")); }
    });
    for (i, j) in (0..16).map(|k| (k / 4, k % 4)) {
        EVALS.fetch_add(1, Relaxed);
        let vals = [Pod(0, 0), Pod(u64::MAX, 255), Pod(1 << 40, 7), Pod(5, 0)];
        let (mut a, mut b) = (vals[i], vals[j]);
        a.unpin_assign(&b);
        let c = Pod::from(mov!(Pin::new(&mut b)));
        let mut d = vals[i]; d.unpin_assign(mov!(Pin::new(&mut b)));
        let e = construct(Pod::ctor_new(mov!(Pin::new(&mut b))));
        let mut f = vals[i]; Pin::new(&mut f).assign(&b);
        let mut g = vals[i]; Pin::new(&mut g).assign(mov!(Pin::new(&mut b)));
        for x in [a, b, c, d, e, f, g] { if (x.0, x.1) != (vals[j].0, vals[j].1) { viol("assign-via-copy", format!("{i} {j}")); } }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 { return child(args[2].parse().unwrap()); }
    quiet_panics();
    let th = thorough();
    let mut ops = vec![Op::Clear, Op::Mark];
    for a in ALL { ops.push(Op::Try(a)); ops.push(Op::Replace(a)); }
    let depth = if th { 5 } else { 4 };
    let masks: Vec<u64> = (0..1 << depth.min(4)).collect();
    for d in 1..=depth {
        par((ops.len() as u64).pow(d as u32), 256, |i| {
            let seq: Vec<Op> = digits(i, ops.len() as u64, d).into_iter().map(|k| ops[k]).collect();
            CASES.fetch_add(1, Relaxed);
            for &m in &masks {
                // a mask beyond the objects there can be repeats another case
                if m >> d != 0 { continue; }
                run(&seq, m, 0);
                if d < 5 { run(&seq, m, 1); run(&seq, m, 3); }
            }
        });
        if d < 5 { par((ops.len() as u64).pow(d as u32 - 1) * 5, 256, |i| {
            let mut seq = vec![Op::New(ALL[(i % 5) as usize])];
            seq.extend(digits(i / 5, ops.len() as u64, d - 1).into_iter().map(|k| ops[k]));
            CASES.fetch_add(1, Relaxed);
            for &m in &masks { if m >> d == 0 { run(&seq, m, 2); } }
        }); }
    }
    sample(|| format!("local slot, {:?}, all destructors panic", [Op::Try(A::Ok), Op::Replace(A::LatePanic), Op::Clear]));
    reconstruct_cases();
    assignments(if th { 4 } else { 3 });
    stat("evaluations", EVALS.load(Relaxed)); stat("distinct_nontrivial", CASES.load(Relaxed));
    finish()
}
