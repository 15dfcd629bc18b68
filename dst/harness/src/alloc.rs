//! Process allocator: notices shared memory handed to it and oversized requests.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};

pub struct Watch;
/// A single request above this fails, as it would under an address-space limit.
pub static LIMIT: AtomicUsize = AtomicUsize::new(1 << 40);
pub static REFUSED: AtomicU64 = AtomicU64::new(0);
pub static BIGGEST: AtomicUsize = AtomicUsize::new(0);

/// Allocation work a run may do before it counts as one that never ends.
pub const MAX_COUNT: u64 = 60_000_000;
pub const MAX_BYTES: u64 = 100 << 30;
static COUNT: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicU64 = AtomicU64::new(0);
pub fn reset_budget() {
    COUNT.store(0, Ordering::Relaxed);
    BYTES.store(0, Ordering::Relaxed);
}
/// False once the budget is used up (then every further request of the run fails).
#[inline]
fn spend(n: usize) -> bool {
    let c = COUNT.fetch_add(1, Ordering::Relaxed);
    let b = BYTES.fetch_add(n as u64, Ordering::Relaxed);
    if c < MAX_COUNT && b < MAX_BYTES {
        return true;
    }
    over(n)
}
#[cold]
fn over(n: usize) -> bool {
    // small requests and the simulator's own always succeed, so that the run can be ended
    if n < 1024 || !simrt::in_task() || simrt::dying() || std::thread::panicking() {
        return true;
    }
    COUNT.store(0, Ordering::Relaxed);
    BYTES.store(0, Ordering::Relaxed);
    BUDGET_HIT.store(true, Ordering::Relaxed);
    false
}
pub static BUDGET_HIT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

#[inline]
fn shared(p: *mut u8) -> bool {
    model::mpi::region::contains(p as usize)
}
#[cold]
fn report(what: &str, p: *mut u8, size: usize) {
    if !simrt::in_task() || simrt::dying() || std::thread::panicking() {
        return;
    }
    let w = model::mpi::window_at(p as usize)
        .or_else(|| model::shmem::segment_at(p as usize))
        .unwrap_or_else(|| "no live mapping".into());
    simrt::violation("C04", format!("allocator.shared: {what} of {size} bytes inside shared memory: {w}"));
}
#[cold]
fn refuse(size: usize) -> bool {
    if !simrt::in_task() || size <= LIMIT.load(Ordering::Relaxed) {
        return false;
    }
    REFUSED.fetch_add(1, Ordering::Relaxed);
    BIGGEST.fetch_max(size, Ordering::Relaxed);
    true
}
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !spend(l.size()) || (l.size() > 1 << 24 && refuse(l.size())) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !spend(l.size()) || (l.size() > 1 << 24 && refuse(l.size())) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if shared(p) {
            report("free", p, l.size());
            return;
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if shared(p) {
            report("realloc", p, l.size());
            let q = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            return q;
        }
        if n > 1 << 24 && refuse(n) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}
/// With the limit in force, an over-large request ends the task with a panic.
pub fn install_hook() {
    std::alloc::set_alloc_error_hook(|l| {
        if BUDGET_HIT.swap(false, Ordering::Relaxed) {
            std::panic::panic_any("the run allocates without end".to_string());
        }
        std::panic::panic_any(format!("out of memory: request of {} bytes", l.size()));
    });
}
