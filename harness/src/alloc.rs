//! Counting allocator: bytes in use by the current thread, and their peak.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
fn add(n: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        // old and new block may exist at the same time
        add(new as isize);
        let q = System.realloc(p, l, new);
        add(-(l.size() as isize));
        q
    }
}
/// Run a closure and say how far above the starting level the bytes in use went.
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let start = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(start));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    (r, (peak - start).max(0) as usize)
}
/// Bytes in use by this thread.
pub fn live() -> isize {
    LIVE.with(|l| l.get())
}
