// Drives C++ formatting (support/internal/fmt.h) into a Rust formatter over every operation sequence.
#![allow(warnings)]
extern crate lossy_formatter_for_bindings;
use lossy_formatter::LossyFormatter;
use std::cell::{Cell, RefCell};
use std::fmt::{self, Display, Write};
use vmc::*;

unsafe extern "C" { fn cpp_fmt(lf: *mut LossyFormatter<'_, '_>, ops: *const COp, n: usize, kind: i32) -> bool; }
#[repr(C)] #[derive(Clone, Copy)] struct COp { kind: i32, byte: u8, count: usize, data: *const u8 }
#[derive(Clone, Debug)] enum Op { Slice(Vec<u8>), Byte(u8), Fill(usize, u8), Flush }

struct W<'a> { text: &'a RefCell<String>, calls: Cell<i64>, fail: i64, once: bool, failed: &'a Cell<bool> }
impl fmt::Write for W<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let c = self.calls.get(); self.calls.set(c + 1);
        if self.fail >= 0 && (c == self.fail || (!self.once && c > self.fail)) { self.failed.set(true); return Err(fmt::Error); }
        self.text.borrow_mut().push_str(s); Ok(())
    }
}
struct Run<F>(F);
impl<F: Fn(&mut LossyFormatter)> Display for Run<F> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { (self.0)(&mut LossyFormatter::new(f)); Ok(()) }
}
fn full(ops: &[Op], kind: i32) -> String {
    let mut segs = vec![vec![]];
    for o in ops { match o { Op::Slice(s) => segs.last_mut().unwrap().extend_from_slice(s), Op::Byte(b) => segs.last_mut().unwrap().push(*b),
        Op::Fill(n, b) => segs.last_mut().unwrap().extend(std::iter::repeat_n(*b, *n)), Op::Flush => if kind == 0 { segs.push(vec![]) } } }
    segs.iter().map(|s| String::from_utf8_lossy(s).into_owned()).collect()
}
fn run(ops: &[Op], kind: i32, fail: i64, once: bool, evals: &mut u64) -> bool {
    *evals += 1;
    let c: Vec<COp> = ops.iter().map(|o| match o {
        Op::Slice(s) => COp { kind: 0, byte: 0, count: s.len(), data: if s.is_empty() { std::ptr::null() } else { s.as_ptr() } },
        Op::Byte(b) => COp { kind: 1, byte: *b, count: 1, data: std::ptr::null() },
        Op::Fill(n, b) => COp { kind: 2, byte: *b, count: *n, data: std::ptr::null() },
        Op::Flush => COp { kind: 3, byte: 0, count: 0, data: std::ptr::null() } }).collect();
    let text = RefCell::new(String::new()); let failed = Cell::new(false); let ok = Cell::new(false);
    { let mut w = W { text: &text, calls: Cell::new(0), fail, once, failed: &failed };
      let _ = write!(w, "{}", Run(|f: &mut LossyFormatter| { ok.set(unsafe { cpp_fmt(f, c.as_ptr(), c.len(), kind) }); })); }
    let want = full(ops, kind); let text = text.into_inner();
    let how = ["operator<<", "AbslStringify"][kind as usize];
    if ok.get() == failed.get() { viol("fmt-result", format!("{how} of {ops:x?}, writer failing at {fail}: Fmt returned {}", ok.get())); }
    if failed.get() && !want.starts_with(&text) || !failed.get() && text != want {
        viol("fmt-text", format!("{how} of {ops:x?}, writer failing at {fail}{}: the text is {text:?}, expected {want:?}", if once { " only" } else { "" })); }
    failed.get()
}
#[unsafe(no_mangle)] extern "C" fn verif_main() {
    let (mut evals, mut distinct) = (0, 0);
    let mut pool: Vec<Op> = vec![Op::Flush, Op::Slice(vec![])];
    for b in [b'a', 0, 0x80, 0xbf, 0xc3, 0xe2, 0xf0, 0xff] { pool.push(Op::Byte(b)); }
    for c in [0usize, 1, 3] { for b in [b'x', 0x80u8, 0xe2, 0xff] { pool.push(Op::Fill(c, b)); } }
    for s in [&[0xe2u8, 0x82][..], &[0xe2, 0x82, 0xac], &[0xf0, 0x9f, 0x92], &[0x96, b'!'], b"hi\0", &[0xed, 0xa0]] { pool.push(Op::Slice(s.to_vec())); }
    let m = pool.len() as u64;
    for len in 0..=(if thorough() { 4 } else { 3 }) { for i in 0..m.pow(len as u32) {
        let ops: Vec<Op> = digits(i, m, len).into_iter().map(|d| pool[d].clone()).collect();
        for kind in 0..2 { distinct += 1; run(&ops, kind, -1, false, &mut evals);
            if len < 4 { for once in [false, true] { let mut k = 0; while run(&ops, kind, k, once, &mut evals) { k += 1; if k > 64 { break; } } } } }
    } }
    stat("evaluations", evals); stat("distinct_nontrivial", distinct);
    finish()
}
