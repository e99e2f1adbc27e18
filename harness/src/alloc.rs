//! Counting allocator: live and peak bytes per thread, and a hard cap.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};

/// A single case never legitimately needs anything near this much.
pub const HARD_CAP: isize = 2 << 30;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}

/// Set when an allocation was refused, just before the process aborts.
pub static REFUSED: AtomicBool = AtomicBool::new(false);

pub struct Counting;

fn add(n: isize) -> bool {
    LIVE.try_with(|l| {
        let v = l.get() + n;
        if v > HARD_CAP {
            return false;
        }
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        true
    })
    .unwrap_or(true)
}

fn asked(n: usize) {
    let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as isize) {
            REFUSED.store(true, Ordering::SeqCst);
            return std::ptr::null_mut();
        }
        asked(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !add(n as isize - l.size() as isize) {
            REFUSED.store(true, Ordering::SeqCst);
            return std::ptr::null_mut();
        }
        asked(n);
        System.realloc(p, l, n)
    }
}

/// Run `f` and return its result and the peak number of bytes that were
/// live above the starting point while it ran (this thread only).
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    (r, (peak - base).max(0) as usize)
}

/// Run `f` and return its result and the number of bytes that were asked for
/// in all while it ran, whether given back or not (this thread only).
pub fn total_of<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let base = TOTAL.with(|t| t.get());
    let r = f();
    (r, TOTAL.with(|t| t.get()) - base)
}
