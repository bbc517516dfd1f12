//! A counting allocator: what the current thread holds, its peak, and what it asked for in total.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if n > 0 {
            let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
            let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
        }
    });
}

// SAFETY: everything is passed on to the system allocator; the counters neither allocate nor have destructors.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let q = System.realloc(p, l, new);
        if !q.is_null() {
            add(new as i64 - l.size() as i64);
        }
        q
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Use {
    /// held at the end more than at the start
    pub kept: i64,
    /// the most that was held at one time, above the start
    pub peak: i64,
    /// sum of all requests
    pub total: u64,
}

/// what `f` does to the memory of this thread
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Use) {
    let (live, total) = (LIVE.with(Cell::get), TOTAL.with(Cell::get));
    let outer = PEAK.with(|p| p.replace(live));
    let v = f();
    let u = Use { kept: LIVE.with(Cell::get) - live, peak: PEAK.with(Cell::get) - live, total: TOTAL.with(Cell::get) - total };
    PEAK.with(|p| p.set(p.get().max(outer)));
    (v, u)
}
