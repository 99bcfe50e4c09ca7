//! Counts what the server's threads hold, and turns allocations into scheduling points.
use crate::kernel;
use crate::sys::active;
use std::alloc::{GlobalAlloc, Layout, System};

pub struct Counting;

/// more than this at once is refused, as a machine would
const MAX: usize = 6 << 30;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !active() {
            return System.alloc(l);
        }
        if l.size() > MAX {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            kernel::on_alloc(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !active() {
            return System.alloc_zeroed(l);
        }
        if l.size() > MAX {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            kernel::on_alloc(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if active() {
            kernel::LIVE -= l.size() as i64;
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !active() {
            return System.realloc(p, l, n);
        }
        if n > MAX {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            kernel::LIVE -= l.size() as i64;
            kernel::on_alloc(n);
        }
        q
    }
}
