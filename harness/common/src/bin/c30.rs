//! C30: every dependency graph, every assignment of query kinds, every order of top-level queries,
//! on the real memoization macros; each call is judged by a monitor that knows which evaluations
//! are running and which defaults a value rests on.
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use vmc::*;

const MAXN: usize = 4;
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind { B, P, M }
#[derive(Clone, PartialEq, Debug)]
struct Val { db: u64, node: usize, fv: u32, hash: u64, default: bool }
fn dflt() -> Rc<Val> { Rc::new(Val { db: 0, node: 99, fv: 0, hash: 0, default: true }) }

struct World {
    n: usize, adj: u32, kinds: [Kind; MAXN], rev: bool, id: u64,
    active: RefCell<Vec<usize>>, reentered: Cell<u32>,
    evals: RefCell<[u32; MAXN]>, settled: Cell<u32>, acyc: u32,
    transitions: Cell<u64>, bad: RefCell<Option<String>>, expect_panic: Cell<bool>,
}
impl World {
    fn has(&self, i: usize, j: usize) -> bool { self.adj >> (i * self.n + j) & 1 == 1 }
    fn fail(&self, s: String) { let mut b = self.bad.borrow_mut(); if b.is_none() { *b = Some(s); } }
}
memoized::query_group! {
    pub struct Db {
        #[input]
        fn w(&self) -> Rc<World>;
        #[break_cycles_with = dflt()]
        fn b(&self, hi: u8, lo: u8) -> Rc<Val>;
        fn p(&self, hi: u8, lo: u8) -> Rc<Val>;
    }
}
fn b(db: &Db, hi: u8, lo: u8) -> Rc<Val> { body(db, (hi * 2 + lo) as usize) }
fn p(db: &Db, hi: u8, lo: u8) -> Rc<Val> { body(db, (hi * 2 + lo) as usize) }
fn m_impl(db: &Db, hi: u8, lo: u8) -> Rc<Val> { body(db, (hi * 2 + lo) as usize) }
fn handler(name: &str) -> Rc<Val> { assert_eq!(name, "m"); dflt() }
memoized::memoized!(handler, fn m(db: &crate::Db, hi: u8, lo: u8) -> ::std::rc::Rc<crate::Val> = m_impl);

fn mix(a: u64, b: u64) -> u64 { (a ^ b.wrapping_mul(0x9e3779b97f4a7c15)).rotate_left(23).wrapping_mul(0xbf58476d1ce4e5b9) }

fn body(db: &Db, i: usize) -> Rc<Val> {
    let w = db.w();
    w.evals.borrow_mut()[i] += 1;
    if (w.settled.get() & w.acyc) >> i & 1 == 1 { w.fail(format!("query {i} evaluated again although it was already answered outside any unfinished cycle")); }
    w.active.borrow_mut().push(i);
    let mut fv = 0;
    let mut h = mix(w.id, i as u64 + 1);
    let mut js: Vec<usize> = (0..w.n).filter(|&j| w.has(i, j)).collect();
    if w.rev { js.reverse(); }
    for j in js {
        let v = ask(db, j);
        fv |= v.fv;
        h = mix(h, v.hash);
    }
    assert_eq!(w.active.borrow_mut().pop(), Some(i));
    fv &= !(1 << i);
    w.reentered.set(w.reentered.get() & !(1 << i));
    if w.reentered.get() == 0 { w.settled.set(w.settled.get() | 1 << i); }
    Rc::new(Val { db: w.id, node: i, fv, hash: h, default: false })
}

/// A query made from a query body or from the outside, with the verdict of the monitor.
fn ask(db: &Db, x: usize) -> Rc<Val> {
    let w = db.w();
    w.transitions.set(w.transitions.get() + 1);
    let active = w.active.borrow().contains(&x);
    let before = w.evals.borrow()[x];
    if active {
        w.reentered.set(w.reentered.get() | 1 << x);
        if w.kinds[x] == Kind::P { w.expect_panic.set(true); }
    }
    let (hi, lo) = ((x / 2) as u8, (x % 2) as u8);
    let v = match w.kinds[x] { Kind::B => db.b(hi, lo), Kind::P => db.p(hi, lo), Kind::M => m(db, hi, lo) };
    let after = w.evals.borrow()[x];
    if active {
        if w.kinds[x] == Kind::P { w.fail(format!("query {x} reached itself and no cycle was reported")); }
        if !v.default { w.fail(format!("query {x} reached itself and did not get its default")); }
        if after != before { w.fail(format!("query {x} reached itself and was evaluated again")); }
        return Rc::new(Val { db: w.id, node: x, fv: 1 << x, hash: 77, default: true });
    }
    if v.default { w.fail(format!("query {x} got the cycle default although it is not being evaluated")); return v; }
    if v.node != x { w.fail(format!("query {x} got the value of query {}", v.node)); }
    if v.db != w.id { w.fail(format!("query {x} got a value of another database")); }
    if after == before && v.fv != 0 { w.fail(format!("query {x} was answered with a value computed under an unfinished cycle (rests on defaults of {:b})", v.fv)); }
    if after > before + 1 { w.fail(format!("query {x} evaluated {} times by one request", after - before)); }
    v
}

fn direct(n: usize, adj: u32, rev: bool, id: u64, i: usize) -> u64 {
    let mut h = mix(id, i as u64 + 1);
    let mut js: Vec<usize> = (0..n).filter(|&j| adj >> (i * n + j) & 1 == 1).collect();
    if rev { js.reverse(); }
    for j in js { h = mix(h, direct(n, adj, rev, id, j)); }
    h
}
/// nodes from which no cycle can be reached
fn acyclic_below(n: usize, adj: u32) -> u32 {
    let mut ok = 0u32;
    loop {
        let mut next = ok;
        for i in 0..n { if (0..n).all(|j| adj >> (i * n + j) & 1 == 0 || ok >> j & 1 == 1) { next |= 1 << i; } }
        if next == ok { return ok; }
        ok = next;
    }
}
thread_local! { static NEXT: Cell<u64> = const { Cell::new(1) }; }

fn history(n: usize, adj: u32, kinds: [Kind; MAXN], rev: bool, tops: &[usize]) -> u64 {
    let id = NEXT.with(|x| { x.set(x.get() + 1); x.get() });
    let w = Rc::new(World { n, adj, kinds, rev, id, active: Default::default(), reentered: Cell::new(0), evals: Default::default(),
        settled: Cell::new(0), acyc: acyclic_below(n, adj), transitions: Cell::new(0), bad: RefCell::new(None), expect_panic: Cell::new(false) });
    let db = Db::new(w.clone(), b, p);
    let mut results = vec![];
    for &t in tops {
        match catch(|| ask(&db, t)) {
            Ok(v) => {
                if w.expect_panic.get() { w.fail("a cycle through a query without default went unreported".into()); }
                if w.acyc >> t & 1 == 1 && v.hash != direct(n, adj, rev, id, t) { w.fail(format!("query {t} differs from direct evaluation")); }
                if v.fv != 0 { w.fail(format!("top-level query {t} rests on defaults")); }
                results.push(v);
            }
            Err(e) => {
                if !w.expect_panic.get() { w.fail(format!("query {t} panicked: {e}")); }
                else if !e.contains("Cycle detected") || !e.contains("'p'") { w.fail(format!("a cycle was reported as: {e}")); }
                break;
            }
        }
    }
    if let Some(s) = w.bad.borrow().clone() {
        viol("history", format!("{s}\nqueries {n}, edges {:?}, kinds {:?}, dependencies asked {}, top-level order {tops:?}",
            (0..n * n).filter(|k| adj >> k & 1 == 1).map(|k| (k / n, k % n)).collect::<Vec<_>>(), &kinds[..n], if rev { "descending" } else { "ascending" }));
    }
    w.transitions.get()
}

fn sweep(n: usize, kindsets: &[[Kind; MAXN]], tops: &[Vec<usize>]) {
    let graphs = 1u64 << (n * n);
    let tot = std::sync::atomic::AtomicU64::new(0);
    let per = kindsets.len() as u64 * 2;
    par(graphs * per, 64, |i| {
        let (g, k) = (i / per, i % per);
        let mut t = 0;
        for tp in tops { t += history(n, g as u32, kindsets[(k / 2) as usize], k % 2 == 1, tp); }
        tot.fetch_add(t, std::sync::atomic::Ordering::Relaxed);
    });
    stat("states", graphs * per);
    stat("transitions", tot.into_inner());
    stat("traces_validated_against_impl", graphs * per * tops.len() as u64);
}

fn main() {
    quiet_panics();
    use Kind::*;
    // databases: many alive at once, and many in sequence; each must answer from its own input
    {
        let k = [M, B, M, P];
        let mut dbs = vec![];
        for i in 0..700u64 {
            let w = Rc::new(World { n: 4, adj: 0b0000_1000_0100_0010, kinds: k, rev: false, id: 1_000_000 + i, active: Default::default(), reentered: Cell::new(0),
                evals: Default::default(), settled: Cell::new(0), acyc: 15, transitions: Cell::new(0), bad: RefCell::new(None), expect_panic: Cell::new(false) });
            dbs.push(Db::new(w, b, p));
        }
        for round in 0..2 {
            for (i, db) in dbs.iter().enumerate() {
                for t in [0, 2, 3, 1] { let _ = catch(|| ask(db, t)); stat("database_queries", 1); }
                if let Some(s) = db.w().bad.borrow().clone() { viol("databases", format!("database number {i}, round {round}: {s}")); }
                if db.w().evals.borrow().iter().any(|e| *e != 1) { viol("databases", format!("database number {i}, round {round}: evaluations {:?}", db.w().evals.borrow())); }
            }
            if viols() > 0 { break; }
        }
    }
    let mut mixed = vec![];
    for i in 0..27u64 { let d = digits(i, 3, 3); let f = |x: usize| [B, P, M][x]; mixed.push([f(d[0]), f(d[1]), f(d[2]), B]); }
    let nom: Vec<_> = mixed.iter().copied().filter(|k| !k[..3].contains(&M)).collect();
    let withm: Vec<_> = mixed.iter().copied().filter(|k| k[..3].contains(&M)).collect();
    let seq3: Vec<Vec<usize>> = (0..27).map(|i| digits(i, 3, 3)).collect();
    sweep(3, &nom, &seq3);
    // every database made for a `memoized!` query keeps an index for ever: fewer histories
    sweep(3, if thorough() { &withm } else { &withm[..6] }, &permutations(3));
    let all = permutations(4);
    let mut four = vec![[B, B, B, B]];
    if thorough() { for i in 0..16u32 { let k = [0, 1, 2, 3].map(|j| if i >> j & 1 == 1 { P } else { B }); if i != 0 { four.push(k); } } }
    else { four.push([B, P, B, B]); }
    sweep(4, &four, if thorough() { &all } else { &all[..] });
    sample(|| "graph 0->1->0, 1->2, kinds [B, P, M], top-level order [1, 0, 1]".into());
    finish()
}
