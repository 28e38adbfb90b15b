//! Reporting and enumeration helpers of the component harnesses. The Python side reads the lines
//! `STAT name=value`, `SAMPLE text` and `VIOL key<TAB>text` from standard output.
use std::collections::BTreeMap;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

static STATS: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
static VIOLS: AtomicUsize = AtomicUsize::new(0);
static SAMPLES: AtomicUsize = AtomicUsize::new(0);
static HANDOUT: AtomicU64 = AtomicU64::new(0);

pub fn stat(name: &str, n: u64) { *STATS.lock().unwrap().entry(name.into()).or_insert(0) += n; }
pub fn sample(s: impl FnOnce() -> String) {
    if SAMPLES.load(Relaxed) < 8 && SAMPLES.fetch_add(1, Relaxed) < 8 { println!("SAMPLE {}", s().replace('\n', "\\n")); }
}
/// `key` names the kind of failure, `text` the exact input or history.
pub fn viol(key: &str, text: impl AsRef<str>) {
    if VIOLS.fetch_add(1, Relaxed) < 400 { println!("VIOL {}\t{}", key, text.as_ref().replace('\n', "\\n")); }
}
pub fn viols() -> usize { VIOLS.load(Relaxed) }
pub fn thorough() -> bool { std::env::var("VERIF_TIER").as_deref() == Ok("thorough") }
pub fn finish() -> ! {
    for (k, v) in STATS.lock().unwrap().iter() { println!("STAT {k}={v}"); }
    println!("DONE");
    std::process::exit(if viols() > 0 { 1 } else { 0 })
}
/// Silences the default panic message; panics of the code under test are caught and judged.
pub fn quiet_panics() {
    if std::env::var_os("VMC_LOUD").is_none() { std::panic::set_hook(Box::new(|_| {})); }
}
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
        else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".into() }
    })
}
/// Runs f(i) for every i < n on all cores, in blocks.
pub fn par(n: u64, block: u64, f: impl Fn(u64) + Sync) {
    HANDOUT.store(0, Relaxed);
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, || loop {
                let b = HANDOUT.fetch_add(block, Relaxed);
                if b >= n { break; }
                for i in b..(b + block).min(n) { f(i); }
            }).unwrap();
        }
    });
}
/// Every sequence over 0..base of length len, as digits.
pub fn digits(mut i: u64, base: u64, len: usize) -> Vec<usize> {
    let mut v = Vec::with_capacity(len);
    for _ in 0..len { v.push((i % base) as usize); i /= base; }
    v
}
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]]; }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..n { let mut q = p.clone(); q.insert(i, n - 1); out.push(q); }
    }
    out
}
pub fn fnv(b: &[u8]) -> u64 { b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3)) }
