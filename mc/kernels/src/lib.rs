//! Shared pieces of the example-kernel explorer.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static BAD: Cell<u64> = const { Cell::new(0) };
}

/// System allocator that remembers the layout of every block and notices a
/// block being released with another one.
pub struct Checking;
unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let head = l.align().max(16);
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + head, head));
        if p.is_null() {
            return p;
        }
        let u = p.add(head);
        *(u as *mut usize).sub(1) = l.size();
        *(u as *mut usize).sub(2) = l.align();
        u
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let size = *(u as *mut usize).sub(1);
        let align = *(u as *mut usize).sub(2);
        if size != l.size() || align != l.align() {
            let _ = BAD.try_with(|b| b.set(b.get() + 1));
        }
        let head = align.max(16);
        System.dealloc(u.sub(head), Layout::from_size_align_unchecked(size + head, head));
    }
}
#[global_allocator]
static A: Checking = Checking;

/// Blocks this thread released with a layout other than their own.
pub fn bad_frees() -> u64 {
    BAD.with(|b| b.get())
}

#[allow(dead_code, unused_imports)]
pub mod slice_sum {
    include!(concat!(env!("OUT_DIR"), "/slice_sum.rs"));
}
