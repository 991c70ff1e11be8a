//! Counts what this thread has allocated and not freed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static BYTES: Cell<isize> = const { Cell::new(0) };
    static COUNT: Cell<isize> = const { Cell::new(0) };
}

struct Counting;

fn add(bytes: isize, count: isize) {
    let _ = BYTES.try_with(|b| b.set(b.get() + bytes));
    let _ = COUNT.try_with(|c| c.set(c.get() + count));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize, 1);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize), -1);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize, 1);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize - l.size() as isize, 0);
        unsafe { System.realloc(p, l, n) }
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

/// (bytes, allocations) of this thread that are alive
pub fn live() -> (isize, isize) {
    (BYTES.get(), COUNT.get())
}
