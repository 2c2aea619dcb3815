//! Per-thread accounting of live heap memory. A request that would take one thread past the limit is refused,
//! which aborts the process; the supervising process then attributes the abort to the execution in progress.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static PAUSED: Cell<bool> = const { Cell::new(false) };
}
/// While it lives, allocations of this thread are not counted: they are the environment's.
pub struct Pause(bool);
pub fn pause() -> Pause {
    Pause(PAUSED.try_with(|p| p.replace(true)).unwrap_or(true))
}
impl Drop for Pause {
    fn drop(&mut self) {
        let _ = PAUSED.try_with(|p| p.set(self.0));
    }
}
/// Bytes allocated by this thread so far, freed or not.
pub fn total() -> u64 {
    TOTAL.with(|t| t.get())
}
pub fn reset_live() {
    LIVE.with(|l| l.set(0));
    LIMIT.with(|l| l.set(2 << 30));
}
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
/// Limits this thread to `bytes` more than it uses now, until the next execution starts.
pub fn limit(bytes: i64) {
    let n = live();
    LIMIT.with(|l| l.set(n + bytes));
}
pub fn unlimited() {
    LIMIT.with(|l| l.set(2 << 30));
}
#[inline]
fn take(n: usize) -> bool {
    if PAUSED.try_with(|p| p.get()).unwrap_or(true) {
        return true;
    }
    let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
    LIVE.try_with(|l| {
        let v = l.get().saturating_add(n as i64);
        if LIMIT.try_with(|m| v > m.get()).unwrap_or(false) {
            false
        } else {
            l.set(v);
            true
        }
    })
    .unwrap_or(true)
}
#[inline]
fn give(n: usize) {
    if PAUSED.try_with(|p| p.get()).unwrap_or(true) {
        return;
    }
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        crate::sched::allocation();
        if !take(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        crate::sched::allocation();
        if !take(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        give(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && !take(n - l.size()) {
            return std::ptr::null_mut();
        }
        if n < l.size() {
            give(l.size() - n)
        }
        System.realloc(p, l, n)
    }
}
