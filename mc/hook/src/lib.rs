//! Points at which the explorer can step in: the code of the user that the library calls, calls of the allocator,
//! and, where the code is compiled with coverage callbacks, every edge and every access to static memory.
//!
//! A crate of its own, as it must not be compiled with these callbacks itself.

use std::cell::Cell;

pub const CALLBACK: u8 = 1;
pub const ALLOC: u8 = 2;
pub const EDGE: u8 = 3;

/// Told the number of the point, gives the number of the next one to be told about.
pub type Run = *mut (dyn FnMut(u64) -> u64);

thread_local! {
    static LEVEL: Cell<u8> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static TARGET: Cell<u64> = const { Cell::new(0) };
    static RUN: Cell<Option<Run>> = const { Cell::new(None) };
}

#[inline(never)]
pub fn point(level: u8) {
    let _ = LEVEL.try_with(|l| if level <= l.get() { reached() });
}

#[inline(never)]
fn reached() {
    if std::thread::panicking() { return; }
    let n = COUNT.with(|c| { c.set(c.get() + 1); c.get() });
    if n != TARGET.with(|t| t.get()) { return; }
    let Some(run) = RUN.with(|r| r.get()) else { return };
    let level = LEVEL.with(|l| l.replace(0));
    let next = unsafe { (*run)(n) };
    TARGET.with(|t| t.set(next));
    LEVEL.with(|l| l.set(level));
}

/// A point in the code of the user.
#[inline(never)]
pub fn y() { point(CALLBACK) }

struct Saved(u8, u64, u64, Option<Run>);
impl Drop for Saved {
    fn drop(&mut self) {
        LEVEL.with(|l| l.set(self.0));
        COUNT.with(|c| c.set(self.1));
        TARGET.with(|t| t.set(self.2));
        RUN.with(|r| r.set(self.3));
    }
}

/// Do `f` with `run` told about point number `target`; gives the number of points there were.
pub fn with(level: u8, target: u64, run: &mut dyn FnMut(u64) -> u64, f: &mut dyn FnMut()) -> u64 {
    let run: Run = unsafe { std::mem::transmute(run as *mut (dyn FnMut(u64) -> u64 + '_)) };
    let saved = Saved(LEVEL.with(|l| l.replace(0)), COUNT.with(|c| c.replace(0)), TARGET.with(|t| t.replace(target)), RUN.with(|r| r.replace(Some(run))));
    LEVEL.with(|l| l.set(level));
    f();
    LEVEL.with(|l| l.set(0));
    let n = COUNT.with(|c| c.get());
    drop(saved);
    n
}

/// Do `f` with no points.
pub fn without<T>(f: impl FnOnce() -> T) -> T {
    struct L(u8);
    impl Drop for L { fn drop(&mut self) { LEVEL.with(|l| l.set(self.0)) } }
    let _l = L(LEVEL.with(|l| l.replace(0)));
    f()
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn __sanitizer_cov_trace_pc() { point(EDGE) }

extern "C" {
    static __data_start: u8;
    static _end: u8;
}
#[inline(always)]
fn access(p: *const u8) {
    unsafe { if p >= &raw const __data_start && p < &raw const _end { point(EDGE) } }
}
macro_rules! accesses { ($($n:ident)*) => { $( #[no_mangle] #[inline(never)] pub extern "C" fn $n(p: *const u8) { access(p) } )* } }
accesses! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}
