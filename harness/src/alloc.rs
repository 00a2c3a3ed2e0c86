//! Small blocks never grow in place: glibc grows a block in the arena it came from, and blocks that
//! wandered between threads would make all workers queue for one arena.
use std::alloc::{GlobalAlloc, Layout, System};

struct Alloc;

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        if l.size() > 1024 || size > 2048 {
            return System.realloc(p, l, size);
        }
        let q = System.alloc(Layout::from_size_align_unchecked(size, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(size));
            System.dealloc(p, l);
        }
        q
    }
}

#[global_allocator]
static ALLOC: Alloc = Alloc;
