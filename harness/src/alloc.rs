//! Counts live bytes per thread and poisons released memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
fn add(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
pub fn untracked() -> i64 {
    0
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        unsafe {
            if l.size() <= 4096 {
                std::ptr::write_bytes(p, 0xdd, l.size());
            }
            System.dealloc(p, l)
        }
    }
}
