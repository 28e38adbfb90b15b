//! C34: every sequence of scope, report and category events up to a depth over a small set of items
//! and error shapes is run on the real error report next to a model; the pending-error and
//! fatal-error collections likewise.
use arc_anyhow::Context as _;
use error_report::*;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use vmc::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ev { Enter(usize), Exit, Report(usize), Cat(usize) }
use Ev::*;

const CATS: [Category; 10] = [Category::Function, Category::Variable, Category::Type, Category::Alias, Category::Namespace, Category::GenericInstantiation, Category::NonMovable, Category::Bridge, Category::Unsafe, Category::Constant];
const CATBITS: [u32; 10] = [1, 2, 4, 8, 16, 64, 128, 256, 512, 1024];

fn item(i: usize) -> ItemName {
    // items 1 and 2 share a name but not an id; ids are not in name order
    let (name, id) = [("z::A", 7), ("a::B", 9), ("a::B", 3), ("", 12)][i];
    ItemName { name: Rc::from(name), id, unique_name: (i == 1).then(|| Rc::from("usr1")), defining_target: (i == 2).then(|| Rc::from("//other")) }
}

/// The error and the (format, full message) pairs that must be listed for it.
fn error(i: usize) -> (arc_anyhow::Error, Vec<(&'static str, &'static str)>) {
    let x = 5;
    match i {
        0 => (anyhow!("plain"), vec![("plain", "")]),
        1 => (anyhow!("val {}", x), vec![("val {}", "val 5")]),
        2 => (anyhow!("val {}", 6), vec![("val {}", "val 6")]),
        3 => (anyhow!("inline {x}"), vec![("inline {x}", "inline 5")]),
        4 => (anyhow!(format!("dynamic {x}")), vec![("dynamic 5", "")]),
        5 => (anyhow!("val {}", x).context("outer"), vec![("val {}", "val 5")]),
        6 => (anyhow!("plain").context("c1").context("c2").context("c3"), vec![("plain", "")]),
        7 => (arc_anyhow::Error::from(ErrorList::from(vec![error(0).0, error(5).0, error(2).0])), vec![("plain", ""), ("val {}", "val 5"), ("val {}", "val 6")]),
        8 => (arc_anyhow::Error::from(ErrorList::from(vec![error(7).0.context("n"), error(4).0])).context("m"), vec![("plain", ""), ("val {}", "val 5"), ("val {}", "val 6"), ("dynamic 5", "")]),
        9 => (arc_anyhow::Error::from(std::fmt::Error), vec![("{}", "an error occurred when formatting an argument")]),
        10 => (anyhow!("id {}", "DefId(2:31 ~ core[a1b2]::x::Y)"), vec![("id {}", "id DefId(core::x::Y)")]),
        11 => (arc_anyhow::Error::msg("at DefId(0:3 ~ m[00fF]::f) and DefId(11:222 ~ n[9999]::g)"), vec![("{}", "at DefId(m::f) and DefId(n::g)")]),
        12 => (arc_anyhow::Error::from(ErrorList::from(vec![])), vec![]),
        13 => (Err::<(), _>(std::fmt::Error).with_context(|| "why").unwrap_err(), vec![("{}", "an error occurred when formatting an argument")]),
        _ => unreachable!(),
    }
}

#[derive(Default, Clone)]
struct Entry { name: String, unique: Option<String>, target: Option<String>, errors: Vec<(String, String)>, cat: u32 }

fn histories(evals: &AtomicU64, distinct: &AtomicU64, alpha: &[Ev], maxlen: usize) {
    let n = alpha.len() as u64;
    for len in 1..=maxlen {
        par(n.pow(len as u32), 256, |i| {
            let evs: Vec<Ev> = digits(i, n, len).into_iter().map(|d| alpha[d]).collect();
            // only histories whose scopes close in order
            let mut depth = 0i32;
            for e in &evs { match e { Enter(_) => depth += 1, Exit => depth -= 1, _ => {} } if depth < 0 { return; } }
            evals.fetch_add(1, Relaxed);
            if evs.iter().any(|e| matches!(e, Report(_))) { distinct.fetch_add(1, Relaxed); }
            let r = catch(|| {
                let (rep, dynrep) = ErrorReport::new_rc_or_ignore(true, SourceLanguage::Rust);
                let rep = rep.unwrap();
                let mut model: BTreeMap<u64, Entry> = BTreeMap::new();
                let mut stack: Vec<(usize, ItemScope)> = vec![];
                for e in &evs {
                    match e {
                        Enter(i) => {
                            let it = item(*i);
                            model.entry(it.id).or_insert_with(|| Entry { name: it.name.to_string(), unique: it.unique_name.as_deref().map(Into::into), target: it.defining_target.as_deref().map(Into::into), ..Default::default() });
                            stack.push((*i, ItemScope::new(&*dynrep, it)));
                        }
                        Exit => { stack.pop(); }
                        Report(k) => {
                            let (err, want) = error(*k);
                            let id = stack.last().map(|s| item(s.0).id).unwrap_or(0);
                            if !want.is_empty() { model.entry(id).or_default().errors.extend(want.into_iter().map(|(a, b)| (a.to_string(), b.to_string()))); }
                            dynrep.report(&err);
                        }
                        Cat(k) => { let id = stack.last().map(|s| item(s.0).id).unwrap_or(0); model.entry(id).or_default().cat |= CATBITS[*k]; dynrep.add_category(CATS[*k]); }
                    }
                    if let Some((i, _)) = stack.last() { dynrep.assert_in_item(item(*i)); }
                }
                while stack.pop().is_some() {}
                let json: serde_json::Value = serde_json::from_str(&rep.to_json_string()).unwrap();
                let mut want = vec![];
                for e in model.values() {
                    let mut o = serde_json::Map::new();
                    o.insert("source_language".into(), "Rust".into());
                    o.insert("name".into(), e.name.clone().into());
                    if !e.errors.is_empty() {
                        o.insert("errors".into(), e.errors.iter().map(|(f, m)| { let mut x = serde_json::Map::new(); x.insert("fmt".into(), f.clone().into()); if !m.is_empty() { x.insert("full_error".into(), m.clone().into()); } serde_json::Value::Object(x) }).collect::<Vec<_>>().into());
                    }
                    if e.cat != 0 { o.insert("category".into(), e.cat.into()); }
                    if let Some(u) = &e.unique { o.insert("unique_name".into(), u.clone().into()); }
                    if let Some(u) = &e.target { o.insert("defining_target".into(), u.clone().into()); }
                    want.push(serde_json::Value::Object(o));
                }
                (json, serde_json::Value::Array(want))
            });
            match r {
                Err(e) => viol("report-panics", format!("{evs:?}: {e}")),
                Ok((got, want)) => if got != want { viol("report", format!("{evs:?}: reported {got}, expected {want}")); },
            }
        });
    }
}

/// Misused scopes are noticed, unreported fatal or pending errors are never lost.
fn collections(evals: &AtomicU64, distinct: &AtomicU64) {
    // pending errors: A add, K consume ok, E consume err, C consolidate, O/F consolidate_on_err, D discard
    let ops = ['A', 'K', 'E', 'C', 'O', 'F', 'D', 'I'];
    for len in 0..=5usize {
        par(8u64.pow(len as u32), 64, |i| {
            let seq: Vec<char> = digits(i, 8, len).into_iter().map(|d| ops[d]).collect();
            evals.fetch_add(1, Relaxed);
            distinct.fetch_add(1, Relaxed);
            let mut pend: Vec<String> = vec![];
            let mut wrong = None;
            let dropped = catch(|| {
                let es = errors::Errors::new();
                for (n, o) in seq.iter().enumerate() {
                    let mk = || anyhow!("e{}", n).context("c");
                    let text = format!("c: e{n}");
                    match o {
                        'A' => { es.add(mk()); pend.push(text); }
                        'K' => if es.consume_error(Ok(3)) != Some(3) { wrong = Some(n) },
                        'E' => { if es.consume_error(Err::<u8, _>(mk())).is_some() { wrong = Some(n) } pend.push(text); }
                        'C' => { let r = es.consolidate(); let w = std::mem::take(&mut pend); match r { Ok(()) => if !w.is_empty() { wrong = Some(n) }, Err(l) => if w.is_empty() || l.to_string() != w.join("\n") { wrong = Some(n) } } }
                        'O' => match es.consolidate_on_err(Ok(4)) { Ok(4) => {} _ => wrong = Some(n) },
                        'F' => { pend.push(text); let w = std::mem::take(&mut pend); match es.consolidate_on_err(Err::<u8, _>(mk())) { Ok(_) => wrong = Some(n), Err(l) => if l.to_string() != w.join("\n") { wrong = Some(n) } } }
                        'D' => { es.discard(); pend.clear(); }
                        _ => if es.is_empty() != pend.is_empty() { wrong = Some(n) },
                    }
                }
            });
            if let Some(n) = wrong { viol("pending-errors", format!("{seq:?}: step {n}")); }
            match dropped {
                Ok(()) => if !pend.is_empty() { viol("pending-errors-lost", format!("{seq:?}: {pend:?} dropped silently")); },
                Err(m) => if pend.is_empty() { viol("pending-errors-panic", format!("{seq:?}: {m}")); } else if !pend.iter().all(|p| m.contains(p.strip_prefix("c: ").map(|_| "c").unwrap())) { viol("pending-errors-panic", format!("{seq:?}: {m}")); },
            }
        });
    }
    // fatal errors
    for len in 0..=6usize {
        for i in 0..3u64.pow(len as u32) {
            let seq = digits(i, 3, len);
            evals.fetch_add(1, Relaxed);
            let mut pend: Vec<String> = vec![];
            let mut wrong = false;
            let dropped = catch(|| {
                let f = FatalErrors::new();
                for (n, o) in seq.iter().enumerate() {
                    match o {
                        0 => { f.report(&format!("fatal {n}")); pend.push(format!("fatal {n}")); }
                        1 => { f.report("same"); pend.push("same".into()); }
                        _ => { let t = f.take_string(); let lines: Vec<String> = t.lines().filter(|l| !l.is_empty()).map(Into::into).collect(); if lines != pend { wrong = true; } pend.clear(); }
                    }
                }
            });
            if wrong { viol("fatal-errors", format!("{seq:?}")); }
            if dropped.is_ok() != pend.is_empty() { viol("fatal-errors-lost", format!("{seq:?}: pending {pend:?}, drop {dropped:?}")); }
            if let Err(m) = dropped { if !pend.iter().all(|p| m.contains(p.as_str())) { viol("fatal-errors-lost", format!("{seq:?}: {m}")); } }
        }
    }
    // scopes that close out of order, and items that share an id
    for a in 0..4 { for b in 0..4 {
        evals.fetch_add(1, Relaxed);
        let r = ErrorReport::new(SourceLanguage::Cpp);
        let old = r.enter_item(item(a));
        if old.is_some() { viol("scope", format!("entering {a} first returned {old:?}")); }
        let inner = r.enter_item(item(b));
        if inner != Some(item(a)) { viol("scope", format!("entering {b} inside {a} returned {inner:?}")); }
        if catch(|| r.assert_in_item(item(b))).is_err() { viol("scope", format!("not in {b}")); }
        if a != b && catch(|| r.assert_in_item(item(a))).is_ok() { viol("scope", format!("in {a} and {b} at once")); }
        if a != b && catch(|| r.exit_item(item(a), None)).is_ok() { viol("scope", format!("{a} closed while in {b}")); }
    } }
    let r = ErrorReport::new(SourceLanguage::Cpp);
    r.enter_item(item(0));
    if catch(|| { r.enter_item(ItemName { name: "other".into(), ..item(0) }); }).is_ok() { viol("scope", "two items with one id".to_string()); }
    if !ErrorReport::new(SourceLanguage::Cpp).to_json_string().trim().eq("[]") { viol("report", "an empty report is not []".to_string()); }
    if ErrorReport::new_rc_or_ignore(false, SourceLanguage::Rust).0.is_some() { viol("report", "disabled report".to_string()); }
}

/// Messages, identity and causes of errors under every short chain of wrappings.
fn wrappings(evals: &AtomicU64, distinct: &AtomicU64) {
    for base in 0..14usize { for len in 0..=4usize { for i in 0..3u64.pow(len as u32) {
        evals.fetch_add(1, Relaxed);
        distinct.fetch_add(1, Relaxed);
        let (mut e, _) = error(base);
        let mut want = format!("{e:#}");
        let (mut top, inner) = (e.to_string(), format!("{}", e.root_cause()));
        for (n, o) in digits(i, 3, len).into_iter().enumerate() {
            match o {
                0 => { e = e.context(format!("w{n}")); want = format!("w{n}: {want}"); top = format!("w{n}"); }
                1 => { let c = e.clone(); if c != e { viol("identity", format!("{base}: a clone differs from its original")); } e = c; }
                _ => { e = Err::<(), _>(e).with_context(|| format!("v{n}")).unwrap_err(); want = format!("v{n}: {want}"); top = format!("v{n}"); }
            }
        }
        if e.to_string() != top || format!("{e:#}") != want { viol("message", format!("error {base} wrapping {i}/{len}: {e} / {e:#}, expected {top} / {want}")); }
        if format!("{}", e.root_cause()) != inner { viol("cause", format!("error {base} wrapping {i}/{len}: cause {}, expected {inner}", e.root_cause())); }
        if error(base).0 == e { viol("identity", format!("{base}: equal to an unrelated error")); }
    } } }
    // ensure! and bail! decide on the condition alone
    fn f(c: bool, k: u8) -> arc_anyhow::Result<u8> { match k { 0 => ensure!(c, "a"), 1 => ensure!(c, "b {}", k), 2 => ensure!(c, format!("d{k}")), _ => if !c { bail!("x {}", k) } } Ok(k) }
    for c in [false, true] { for k in 0..4 {
        evals.fetch_add(1, Relaxed);
        let want = if c { Ok(k) } else { Err(["a".to_string(), "b 1".into(), "d2".into(), "x 3".into()][k as usize].clone()) };
        if f(c, k).map_err(|e| e.to_string()) != want { viol("ensure", format!("{c} {k}")); }
    } }
}

fn main() {
    quiet_panics();
    let (evals, distinct) = (AtomicU64::new(0), AtomicU64::new(0));
    let (small, big) = if thorough() { (6, 4) } else { (5, 3) };
    histories(&evals, &distinct, &[Enter(0), Enter(1), Enter(2), Exit, Report(0), Report(1), Report(2), Report(8), Report(10), Cat(2), Cat(5)], small);
    let mut all: Vec<Ev> = (0..4).map(Enter).collect();
    all.push(Exit);
    all.extend((0..14).map(Report));
    all.extend((0..10).map(Cat));
    histories(&evals, &distinct, &all, big);
    collections(&evals, &distinct);
    wrappings(&evals, &distinct);
    sample(|| "enter z::A; report ErrorList[..] in context; enter a::B; add Type; exit; report val 6".into());
    stat("evaluations", evals.into_inner());
    stat("distinct_nontrivial", distinct.into_inner());
    finish()
}
