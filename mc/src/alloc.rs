//! An allocator that counts the live bytes of each thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    /// what was ever asked for
    static TOTAL: Cell<usize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

pub struct Counting;

#[inline]
fn add(n: isize) {
    hook::point(hook::ALLOC);
    let _ = LIVE.try_with(|l| {
        let now = l.get().wrapping_add(n);
        l.set(now);
        if n > 0 {
            TOTAL.with(|t| t.set(t.get().wrapping_add(n as usize)));
            PEAK.with(|p| if now > p.get() { p.set(now) });
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { add(l.size() as isize); System.alloc(l) }
    #[inline]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { add(l.size() as isize); System.alloc_zeroed(l) }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { add(-(l.size() as isize)); System.dealloc(p, l) }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { add(n as isize - l.size() as isize); System.realloc(p, l, n) }
}

/// Bytes this thread has allocated and not given back.
pub fn live() -> isize { LIVE.with(|l| l.get()) }

/// The bytes asked for and the most bytes in use at once while doing `f`.
pub fn used<T>(f: impl FnOnce() -> T) -> (T, usize, usize) {
    let (live, total) = (live(), TOTAL.with(|t| t.get()));
    PEAK.with(|p| p.set(live));
    let r = f();
    (r, TOTAL.with(|t| t.get()).wrapping_sub(total), (PEAK.with(|p| p.get()) - live) as usize)
}
