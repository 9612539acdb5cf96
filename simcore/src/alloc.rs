//! Allocation seam: the simulator bounds a single allocation, so that "corrupt
//! length field -> request the whole address space" behaves the same on every
//! machine (the allocation fails) instead of depending on overcommit.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct SimAlloc;
pub static LIMIT: AtomicUsize = AtomicUsize::new(256 << 20);

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT.load(Ordering::Relaxed) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT.load(Ordering::Relaxed) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > LIMIT.load(Ordering::Relaxed) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}
