//! The Rust future under test: every poll asks the driver what to do next.
use std::alloc::{GlobalAlloc, Layout, System};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Mutex;
use std::task::{Context, Poll, Waker};
struct Counting;
static BLOCKS: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BLOCKS.fetch_add(1, Ordering::Relaxed); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { BLOCKS.fetch_sub(1, Ordering::Relaxed); unsafe { System.dealloc(p, l) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { unsafe { System.realloc(p, l, n) } }
}
#[global_allocator]
static A: Counting = Counting;
#[unsafe(no_mangle)]
extern "C" fn c13_blocks() -> u64 { BLOCKS.load(Ordering::Relaxed) as u64 }
unsafe extern "C" {
    fn c13_born(key: u64);
    fn c13_died(key: u64);
    fn c13_act() -> u32;
    fn c13_check();
    fn c13_elsewhere(f: extern "C" fn(*mut Waker), w: *mut Waker);
}
extern "C" fn fire(w: *mut Waker) { unsafe { Box::from_raw(w).wake() } }
pub struct Tok(u64);
impl Tok {
    pub fn new(id: u64, kind: u64) -> Tok { let k = (id & 15) * 4 + kind; unsafe { c13_born(k) }; Tok(k) }
    pub fn id(&self) -> u64 { self.0 / 4 }
}
impl Drop for Tok { fn drop(&mut self) { unsafe { c13_died(self.0) } } }
static SLOTS: Mutex<[Option<Waker>; 2]> = Mutex::new([None, None]);
fn take(k: usize) -> Waker { SLOTS.lock().unwrap()[k].take().unwrap() }
fn put(k: usize, w: Waker) { let old = SLOTS.lock().unwrap()[k].replace(w); drop(old) }
#[unsafe(no_mangle)]
extern "C" fn c13_op(op: u32, k: u32) -> u32 {
    let k = k as usize;
    let w = take(k);
    match op {
        0 => { w.wake_by_ref(); put(k, w) }
        1 => w.wake(),
        2 => drop(w),
        _ => { let c = w.clone(); put(k, w); put(1 - k, c) }
    }
    0
}
pub struct Script { mine: Option<Waker> }
impl Script { pub fn new() -> Script { Script { mine: None } } }
impl Future for Script {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        loop {
            let a = unsafe { c13_act() };
            let w = cx.waker();
            match a & 255 {
                0 => return Poll::Pending,
                1 => return Poll::Ready(()),
                2 | 18 | 19 => w.wake_by_ref(),
                3 => put((a >> 8) as usize, w.clone()),
                4 => w.clone().wake(),
                5 => drop(w.clone()),
                x @ 6..8 => { let w = take(x as usize - 6); w.wake_by_ref(); put(x as usize - 6, w) }
                x @ 8..10 => take(x as usize - 8).wake(),
                x @ 10..12 => drop(take(x as usize - 10)),
                x @ 12..14 => { c13_op(3, x - 12); }
                x @ 14..16 => { let mut s = take(x as usize - 14); s.clone_from(w); put(x as usize - 14, s) }
                x @ 16..18 => put(x as usize - 16, w.clone()),
                20 => self.mine = Some(w.clone()),
                21 => self.mine.take().unwrap().wake(),
                22 => unsafe { c13_elsewhere(fire, Box::into_raw(Box::new(w.clone()))) },
                _ => { let c = w.clone(); let d = c.clone(); c.wake(); d.wake() }
            }
            unsafe { c13_check() };
        }
    }
}
