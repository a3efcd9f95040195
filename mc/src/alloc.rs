//! An allocator that makes memory errors visible and repeatable.
//!
//! Fresh memory is filled with one pattern and freed memory with another, every reallocation moves
//! the block, and each block ends in a guard that is checked when it is freed. A read of memory
//! that was never written, a use after free or a write past the end then changes what the code
//! under test does, in the same way on every run.

use std::alloc::{GlobalAlloc, Layout, System};

pub struct Guarded;

const FRESH: u8 = 0xA5;
const FREED: u8 = 0x5E;
const GUARD: [u8; 16] = [0xC3; 16];
const FILL_MAX: usize = 1 << 14;

fn padded(l: Layout) -> Layout {
    unsafe { Layout::from_size_align_unchecked(l.size() + GUARD.len(), l.align()) }
}

unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(padded(l));
        if !p.is_null() {
            std::ptr::write_bytes(p, FRESH, l.size().min(FILL_MAX));
            std::ptr::copy_nonoverlapping(GUARD.as_ptr(), p.add(l.size()), GUARD.len());
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let mut g = [0u8; 16];
        std::ptr::copy_nonoverlapping(p.add(l.size()), g.as_mut_ptr(), 16);
        if g != GUARD {
            let m = b"error: memory past the end of an allocation was overwritten\n";
            libc::write(2, m.as_ptr() as *const libc::c_void, m.len());
            libc::abort();
        }
        std::ptr::write_bytes(p, FREED, l.size().min(FILL_MAX));
        System.dealloc(p, padded(l));
    }
}

#[global_allocator]
static ALLOC: Guarded = Guarded;
