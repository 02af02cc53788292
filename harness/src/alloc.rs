//! Counting allocator. It gives the checks two deterministic observations instead of clocks:
//! the largest single allocation of a case, and the number of allocations (work) it made.
//! Requests beyond a hard limit fail as on a machine without that memory, and a case that
//! makes more allocations than its budget ends the process with a message; both are reported
//! with the tape of the case by the driver.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub const HARD_LIMIT: usize = 1 << 30;

pub struct Counting;

thread_local! {
    static MAX: Cell<usize> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
}

#[inline]
fn tick(n: usize) -> bool {
    let _ = MAX.try_with(|m| {
        if n > m.get() {
            m.set(n)
        }
    });
    let _ = COUNT.try_with(|c| {
        let v = c.get() + 1;
        c.set(v);
        let over = BUDGET.try_with(|b| v > b.get()).unwrap_or(false);
        if over {
            let msg = b"WORK-BUDGET-EXCEEDED\n";
            unsafe {
                write(2, msg.as_ptr(), msg.len());
            }
            std::process::abort();
        }
    });
    n <= HARD_LIMIT
}

extern "C" {
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if tick(l.size()) {
            System.alloc(l)
        } else {
            std::ptr::null_mut()
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if tick(l.size()) {
            System.alloc_zeroed(l)
        } else {
            std::ptr::null_mut()
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if tick(n) {
            System.realloc(p, l, n)
        } else {
            std::ptr::null_mut()
        }
    }
}

pub fn begin_case() {
    BUDGET.with(|b| b.set(u64::MAX));
}
pub fn end_case() {
    BUDGET.with(|b| b.set(u64::MAX));
}

/// Run `f` and return its result with the largest single allocation it requested.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    MAX.with(|m| m.set(0));
    let r = f();
    (r, MAX.with(|m| m.get()))
}

/// Run `f` with a budget of `n` allocations.
pub fn budget<T>(n: u64, f: impl FnOnce() -> T) -> T {
    COUNT.with(|c| c.set(0));
    BUDGET.with(|b| b.set(n));
    let r = f();
    BUDGET.with(|b| b.set(u64::MAX));
    r
}
