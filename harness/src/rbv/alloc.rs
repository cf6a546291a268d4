//! A global allocator that gives the current thread an allocation budget: exceeding it fails the allocation, which
//! aborts the process (attributed to the running case by the parent). Deterministic, unlike a memory watchdog.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BUDGET: Cell<i64> = const { Cell::new(i64::MAX) };
}

pub struct Budgeted;

fn charge(n: i64) -> bool {
    LIVE.try_with(|l| {
        let v = l.get() + n;
        let over = n > 0 && v > BUDGET.with(|b| b.get());
        if over {
            let msg = b"RBV: allocation budget of the case exceeded\n";
            unsafe { libc::write(2, msg.as_ptr() as *const _, msg.len()) };
            BUDGET.with(|b| b.set(i64::MAX));
            return false;
        }
        l.set(v);
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        true
    })
    .unwrap_or(true)
}

unsafe impl GlobalAlloc for Budgeted {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !charge(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !charge(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        charge(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !charge(n as i64 - l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

/// Runs `f` with at most `bytes` of additional live heap on this thread; returns the peak used.
pub fn with_budget<T>(bytes: usize, f: impl FnOnce() -> T) -> (T, usize) {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            BUDGET.with(|b| b.set(i64::MAX));
        }
    }
    LIVE.with(|l| l.set(0));
    PEAK.with(|p| p.set(0));
    BUDGET.with(|b| b.set(bytes as i64));
    let _r = Reset;
    let v = f();
    BUDGET.with(|b| b.set(i64::MAX));
    (v, PEAK.with(|p| p.get()).max(0) as usize)
}
