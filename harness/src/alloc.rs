//! Reports every allocation with its size, so that a release with another size is seen.
use std::alloc::{GlobalAlloc, Layout, System};
extern "C" {
    fn sym_alloc(p: *mut u8, n: usize, align: usize);
    fn sym_dealloc(p: *mut u8, n: usize, align: usize);
}
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        sym_alloc(p, l.size(), l.align());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        sym_alloc(p, l.size(), l.align());
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sym_dealloc(p, l.size(), l.align());
        let p = System.realloc(p, l, n);
        sym_alloc(p, n, l.align());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sym_dealloc(p, l.size(), l.align());
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;
