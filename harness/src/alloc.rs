//! Allocation monitor: a global allocator that keeps per-thread statistics so a check can state
//! "processing this input never asked for more than N bytes at once / in total".
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Monitor;

thread_local! {
    static MAX_REQ: Cell<usize> = const { Cell::new(0) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static COUNT: Cell<usize> = const { Cell::new(0) };
    static CAP: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn note(size: usize) -> bool {
    let _ = COUNT.try_with(|c| c.set(c.get() + 1));
    let _ = MAX_REQ.try_with(|m| {
        if size > m.get() {
            m.set(size);
        }
    });
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + size as isize);
        let _ = PEAK.try_with(|p| {
            if l.get() > p.get() {
                p.set(l.get());
            }
        });
    });
    CAP.try_with(|c| size <= c.get()).unwrap_or(true)
}
fn unnote(size: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - size as isize));
}

unsafe impl GlobalAlloc for Monitor {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !note(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !note(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unnote(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        unnote(l.size());
        if !note(n) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Stats {
    pub max_request: usize,
    pub peak_live: usize,
    pub count: usize,
}

pub fn reset() {
    MAX_REQ.with(|c| c.set(0));
    LIVE.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    COUNT.with(|c| c.set(0));
}
pub fn stats() -> Stats {
    Stats {
        max_request: MAX_REQ.with(Cell::get),
        peak_live: PEAK.with(Cell::get).max(0) as usize,
        count: COUNT.with(Cell::get),
    }
}
