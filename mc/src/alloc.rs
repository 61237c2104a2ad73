//! The allocator of the explorer: counts allocations per thread, and is where a thread that takes
//! part in an exploration of interleavings may be preempted (see `sched`).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    /// Called at the allocations with these numbers.
    static STOPS: Cell<(u64, u64)> = const { Cell::new((u64::MAX, u64::MAX)) };
    static HOOK: Cell<Option<fn()>> = const { Cell::new(None) };
}

pub struct Counting;

fn point() {
    let _ = COUNT.try_with(|c| {
        let n = c.get() + 1;
        c.set(n);
        let s = STOPS.get();
        if n == s.0 || n == s.1 {
            if let Some(f) = HOOK.get() {
                f();
            }
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        more(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point();
        more(n);
        System.realloc(p, l, n)
    }
}

fn more(n: usize) {
    let _ = BYTES.try_with(|c| c.set(c.get() + n as u64));
}

pub fn bytes() -> u64 {
    BYTES.with(|c| c.get())
}

pub fn count() -> u64 {
    COUNT.with(|c| c.get())
}

/// Call `f` on this thread at the `a`th and `b`th allocation from now on.
pub fn stop_at(a: u64, b: u64, f: fn()) {
    let n = count();
    HOOK.set(Some(f));
    STOPS.set((n.saturating_add(a), n.saturating_add(b)));
}

pub fn no_stop() {
    STOPS.set((u64::MAX, u64::MAX));
}
