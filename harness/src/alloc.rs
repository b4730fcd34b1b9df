//! Allocator that counts each thread's live and peak heap and refuses absurd requests.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
/// A single request above this fails, whatever the machine has.
pub const CAP: usize = 256 << 20;

pub struct Counting;

fn add(n: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

/// A refused request counts towards the peak as if it had been granted.
fn attempt(n: isize) {
    add(n);
    add(-n);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > CAP {
            attempt(l.size() as isize);
            return std::ptr::null_mut();
        }
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > CAP {
            attempt(l.size() as isize);
            return std::ptr::null_mut();
        }
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > CAP {
            attempt(n as isize);
            return std::ptr::null_mut();
        }
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

/// Start measuring: returns the level to subtract.
pub fn mark() -> isize {
    let v = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(v));
    v
}
/// Peak heap since `mark`.
pub fn peak(mark: isize) -> usize {
    (PEAK.with(|p| p.get()) - mark).max(0) as usize
}
