//! Counting allocator: peak of memory allocated by the current thread while armed,
//! and refusal of absurd single allocations.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Tracking;

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

const REFUSE: usize = 2 << 30;

fn note(d: i64) {
    let _ = ARMED.try_with(|a| {
        if a.get() {
            LIVE.with(|l| {
                l.set(l.get() + d);
                PEAK.with(|p| p.set(p.get().max(l.get())));
            })
        }
    });
}
fn refuse(n: usize) -> bool {
    n > REFUSE && ARMED.try_with(|a| a.get()).unwrap_or(false)
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        note(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        note(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if refuse(n) {
            return std::ptr::null_mut();
        }
        note(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Runs f and returns the peak of memory allocated by this thread during it.
pub fn measured<T>(f: impl FnOnce() -> T) -> (T, u64) {
    LIVE.with(|l| l.set(0));
    PEAK.with(|l| l.set(0));
    ARMED.with(|a| a.set(true));
    let r = f();
    ARMED.with(|a| a.set(false));
    (r, PEAK.with(|p| p.get()).max(0) as u64)
}
