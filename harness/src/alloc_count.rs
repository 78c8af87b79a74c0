//! A counting allocator; only the binaries that install it count.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! { static N: Cell<u64> = const { Cell::new(0) }; }

pub struct Counting;

fn bump() {
    let _ = N.try_with(|n| n.set(n.get() + 1));
}

// SAFETY: forwards to System
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        bump();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        bump();
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        bump();
        System.alloc_zeroed(l)
    }
}

/// Allocations made by this thread so far.
pub fn count() -> u64 {
    N.with(|n| n.get())
}
