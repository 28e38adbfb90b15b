//! C22: every byte sequence over all UTF-8 classes, every chunking, every kind of write, every failing write.
use lossy_formatter::LossyFormatter;
use std::cell::{Cell, RefCell};
use std::fmt::{self, Display, Write};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use vmc::*;

#[path = "/repo/support/cc_std_impl/lossy_utf8.rs"]
mod lossy;
use lossy::lossy_utf8::{LossyUtf8Display, debug_bytes};

static EVALS: AtomicU64 = AtomicU64::new(0);
static DISTINCT: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Debug, PartialEq)]
enum Op { Slice(Vec<u8>), Byte(u8), Fill(usize, u8), Flush }

struct W<'a> { text: &'a RefCell<String>, left: Cell<i64>, failed: &'a Cell<bool> }
impl fmt::Write for W<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.left.get() == 0 { self.failed.set(true); return Err(fmt::Error); }
        self.left.set(self.left.get() - 1);
        self.text.borrow_mut().push_str(s);
        Ok(())
    }
}
struct Run<F>(F);
impl<F: Fn(&mut LossyFormatter)> Display for Run<F> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { (self.0)(&mut LossyFormatter::new(f)); Ok(()) }
}

/// Text of a history: segments between flushes are decoded on their own; `done` bytes of the last one count.
/// Returns (text without the pending bytes, text with them flushed).
fn expect(segments: &[Vec<u8>]) -> (String, String) {
    let mut t = String::new();
    for s in &segments[..segments.len() - 1] { t += &String::from_utf8_lossy(s); }
    let last = segments.last().unwrap();
    let with = t.clone() + &String::from_utf8_lossy(last);
    // pending: an incomplete but so far valid suffix
    let mut cut = last.len();
    let mut i = 0;
    while i < last.len() {
        match std::str::from_utf8(&last[i..]) {
            Ok(_) => break,
            Err(e) => { i += e.valid_up_to(); match e.error_len() { Some(n) => i += n, None => { cut = i; break } } }
        }
    }
    (t + &String::from_utf8_lossy(&last[..cut]), with)
}

/// Runs the history with the writer failing at write call `fail` (-1: never); returns whether it failed.
fn run(ops: &[Op], fail: i64) -> bool {
    EVALS.fetch_add(1, Relaxed);
    let text = RefCell::new(String::new());
    let failed = Cell::new(false);
    let w = W { text: &text, left: Cell::new(fail), failed: &failed };
    let bad = RefCell::new(None::<(String, String)>);
    let r = catch(|| {
        let mut w = w;
        let _ = write!(w, "{}", Run(|f: &mut LossyFormatter| {
            let mut segs = vec![vec![]];
            for (i, op) in ops.iter().enumerate() {
                let (want, got): (usize, usize) = match op {
                    Op::Slice(s) => { let n = f.write_slice(s); segs.last_mut().unwrap().extend_from_slice(&s[..n.min(s.len())]); (s.len(), n) }
                    Op::Byte(b) => { let ok = f.write_byte(*b).is_ok(); if ok { segs.last_mut().unwrap().push(*b); } (1, ok as usize) }
                    Op::Fill(n, b) => { let k = f.write_fill(*n, *b); segs.last_mut().unwrap().extend(std::iter::repeat_n(*b, k.min(*n))); (*n, k) }
                    Op::Flush => { let ok = f.flush(); if ok { segs.push(vec![]); } (1, ok as usize) }
                };
                if got > want { *bad.borrow_mut() = Some(("count-too-large".into(), format!("operation {i} reports {got} of {want}"))); return; }
                if (got < want) != failed.get() {
                    *bad.borrow_mut() = Some((if failed.get() { "error-not-reported" } else { "error-reported-without-one" }.into(),
                        format!("operation {i} reports {got} of {want}, the writer {}", if failed.get() { "failed" } else { "did not fail" }))); return;
                }
                let (nf, wf) = expect(&segs);
                let t = text.borrow();
                let ok = if failed.get() { *t == nf || *t == wf } else { *t == nf };
                if !ok {
                    *bad.borrow_mut() = Some((if failed.get() { "text-at-error" } else { "wrong-text" }.into(),
                        format!("after operation {i} the text is {t:?}; the consumed bytes {segs:x?} decode to {nf:?} (flushed: {wf:?})"))); return;
                }
                if failed.get() {   // keep using it: no panic, and the writer keeps failing
                    drop(t);
                    for op in &ops[i..] { match op { Op::Slice(s) => { let _ = f.write_slice(s); } Op::Byte(b) => { let _ = f.write_byte(*b); }
                        Op::Fill(n, b) => { let _ = f.write_fill(*n, *b); } Op::Flush => { let _ = f.flush(); } } }
                    return;
                }
            }
        }));
    });
    if let Err(e) = r { viol("panic", format!("{ops:x?} failing at write {fail}: {e}")); }
    if let Some((k, t)) = bad.into_inner() { viol(&k, format!("{ops:x?} failing at write {fail}: {t}")); }
    failed.get()
}
fn all_failures(ops: &[Op]) {
    DISTINCT.fetch_add(1, Relaxed);
    run(ops, -1);
    let mut k = 0;
    while run(ops, k) { k += 1; if k > 64 { viol("too-many-writes", format!("{ops:x?}")); break; } }
}

fn main() {
    quiet_panics();
    let t = thorough();
    // one byte of every class and both sides of every boundary
    let cls: Vec<u8> = vec![b'a', 0, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff];
    let n = cls.len() as u64;
    for len in 1..=(if t { 5 } else { 4 }) {
        par(n.pow(len as u32), 1024, |i| {
            let b: Vec<u8> = digits(i, n, len).into_iter().map(|d| cls[d]).collect();
            // every chunking of the sequence; for length 5 only byte by byte, whole and two-part
            for mask in 0..1u32 << (len - 1) {
                if len == 5 && mask.count_ones() > 1 && mask != 15 { continue; }
                let mut ops = vec![]; let mut cur = vec![];
                for (j, x) in b.iter().enumerate() {
                    cur.push(*x);
                    if j + 1 == len || mask >> j & 1 == 1 { ops.push(Op::Slice(std::mem::take(&mut cur))); }
                }
                ops.push(Op::Flush);
                run(&ops, -1); DISTINCT.fetch_add(1, Relaxed);
                if len <= 3 { all_failures(&ops); }
            }
            let mut ops: Vec<Op> = b.iter().map(|x| Op::Byte(*x)).collect(); ops.push(Op::Flush);
            if len <= 3 { all_failures(&ops); } else { run(&ops, -1); }
            // lossy display and debug text of the other implementation
            if len <= 4 {
                let want = String::from_utf8_lossy(&b).into_owned();
                if format!("{}", LossyUtf8Display(&b)) != want { viol("lossy-display", format!("{b:x?}")); }
                struct D<'a>(&'a [u8]);
                impl fmt::Debug for D<'_> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { debug_bytes(self.0, f) } }
                let dbg = format!("{:?}", D(&b));
                if unescape(&dbg).as_deref() != Some(&b[..]) { viol("debug-bytes", format!("{b:x?} is shown as {dbg}")); }
            }
        });
    }
    // every sequence of operations of every kind
    let small: Vec<u8> = vec![b'a', 0x80, 0x9f, 0xbf, 0xc3, 0xe2, 0xed, 0xf0, 0xff];
    let mut pool: Vec<Op> = vec![Op::Flush, Op::Slice(vec![])];
    for b in &small { pool.push(Op::Byte(*b)); }
    for c in [0usize, 1, 2, 5] { for b in [b'x', 0x80u8, 0xe2, 0xf0, 0xff] { pool.push(Op::Fill(c, b)); } }
    for s in [&[0xe2u8, 0x82][..], &[0xe2, 0x82, 0xac], &[0xf0, 0x9f, 0x92], &[0x96, b'!'], &[0x82, 0xac, 0xf0], b"hi", &[0xed, 0xa0], &[0xf0, 0x9f, b' ', 0x80]] { pool.push(Op::Slice(s.to_vec())); }
    let m = pool.len() as u64;
    for len in 1..=(if t { 4 } else { 3 }) {
        par(m.pow(len as u32), 256, |i| {
            let mut ops: Vec<Op> = digits(i, m, len).into_iter().map(|d| pool[d].clone()).collect();
            ops.push(Op::Flush);
            if len < 4 { all_failures(&ops) } else { run(&ops, -1); DISTINCT.fetch_add(1, Relaxed); }
        });
    }
    if t {   // all byte triples, in one piece and byte by byte
        par(1 << 24, 4096, |i| {
            let b = [i as u8, (i >> 8) as u8, (i >> 16) as u8];
            run(&[Op::Byte(b[0]), Op::Byte(b[1]), Op::Byte(b[2]), Op::Flush], -1);
            run(&[Op::Byte(b[0]), Op::Slice(b[1..].to_vec()), Op::Flush], -1);
        });
    } else {
        par(1 << 16, 1024, |i| { let b = [i as u8, (i >> 8) as u8]; run(&[Op::Byte(b[0]), Op::Byte(b[1]), Op::Flush], -1); run(&[Op::Slice(b.to_vec()), Op::Flush], -1); });
    }
    sample(|| format!("{:x?}", [Op::Slice(vec![0xe2, 0x82]), Op::Fill(2, b'x'), Op::Flush]));
    sample(|| format!("{:x?}", [Op::Byte(0xf0), Op::Slice(vec![0x9f, 0x92, 0x96]), Op::Flush]));
    stat("evaluations", EVALS.load(Relaxed)); stat("distinct_nontrivial", DISTINCT.load(Relaxed));
    finish()
}

/// Bytes denoted by a quoted, escaped text (Rust byte-string and char escapes), None if malformed.
fn unescape(s: &str) -> Option<Vec<u8>> {
    let s = s.strip_prefix('"')?.strip_suffix('"')?;
    let mut out = vec![]; let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '"' { return None; }
        if c != '\\' { let mut b = [0; 4]; out.extend_from_slice(c.encode_utf8(&mut b).as_bytes()); continue; }
        match it.next()? {
            '0' => out.push(0), 'n' => out.push(b'\n'), 't' => out.push(b'\t'), 'r' => out.push(b'\r'),
            '\\' => out.push(b'\\'), '"' => out.push(b'"'), '\'' => out.push(b'\''),
            'x' => { let h: String = [it.next()?, it.next()?].iter().collect(); out.push(u8::from_str_radix(&h, 16).ok()?); }
            'u' => { if it.next()? != '{' { return None; } let mut h = String::new(); loop { match it.next()? { '}' => break, c => h.push(c) } }
                     let mut b = [0; 4]; out.extend_from_slice(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?.encode_utf8(&mut b).as_bytes()); }
            _ => return None,
        }
    }
    Some(out)
}
