//! Counting allocator: net bytes allocated by the current thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static ASKED: Cell<u64> = const { Cell::new(0) };
}

fn ask(n: usize) {
    let _ = ASKED.try_with(|a| a.set(a.get() + n as u64));
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64);
            ask(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64);
            ask(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as i64 - l.size() as i64);
            ask(n);
        }
        q
    }
}

/// Net bytes of this thread.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// All bytes this thread ever asked for; a reallocation counts in full.
pub fn asked() -> u64 {
    ASKED.with(|a| a.get())
}

/// Highest `live()` since the last `reset_peak`.
pub fn peak() -> i64 {
    PEAK.with(|l| l.get())
}

pub fn reset_peak() {
    PEAK.with(|p| p.set(live()))
}
