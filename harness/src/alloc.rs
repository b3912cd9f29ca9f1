//! Hostile global allocator.
//!
//! * new memory is filled with 0xA5, freed memory with 0xDD;
//! * freed blocks stay in quarantine, so stale pointers read poison;
//! * every resize moves the block (an allocator is allowed to do that);
//! * live bytes, peak and largest request are counted (leak and memory-bound
//!   monitors), and a runaway allocation ends the process with status 77.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static LARGEST: AtomicUsize = AtomicUsize::new(0);
pub static COUNT: AtomicUsize = AtomicUsize::new(0);
pub static MOVES: AtomicUsize = AtomicUsize::new(0);
pub const BUDGET: usize = 3 << 30;

pub const EXIT_ALLOC: i32 = 77;

pub struct Hostile;

const Q: usize = 4096;
const QMAX: usize = 1 << 12; // only blocks up to this size wait in quarantine
struct Quarantine {
    slots: [(usize, usize, usize); Q],
    next: usize,
}
static mut QUARANTINE: Quarantine = Quarantine { slots: [(0, 0, 0); Q], next: 0 };
static QLOCK: AtomicBool = AtomicBool::new(false);

extern "C" {
    fn _exit(code: i32) -> !;
    fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
}

fn count_alloc(n: usize) {
    let live = LIVE.fetch_add(n, SeqCst) + n;
    PEAK.fetch_max(live, SeqCst);
    LARGEST.fetch_max(n, SeqCst);
    COUNT.fetch_add(1, SeqCst);
}

fn over_budget(n: usize) -> bool {
    // Zeroed requests are lazily mapped: they are only recorded.
    LIVE.load(SeqCst).saturating_add(n) > BUDGET
}

unsafe impl GlobalAlloc for Hostile {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if over_budget(l.size()) {
            let m = b"ALLOC-BUDGET exceeded\n";
            write(2, m.as_ptr() as *const std::ffi::c_void, m.len());
            _exit(EXIT_ALLOC);
        }
        let p = System.alloc(l);
        if !p.is_null() {
            count_alloc(l.size());
            std::ptr::write_bytes(p, 0xA5, l.size());
        }
        p
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            count_alloc(l.size());
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), SeqCst);
        if l.size() <= QMAX {
            std::ptr::write_bytes(p, 0xDD, l.size());
            while QLOCK.compare_exchange(false, true, SeqCst, SeqCst).is_err() {
                std::hint::spin_loop();
            }
            let q = &mut *std::ptr::addr_of_mut!(QUARANTINE);
            let i = q.next;
            q.next = (i + 1) % Q;
            let old = q.slots[i];
            q.slots[i] = (p as usize, l.size(), l.align());
            QLOCK.store(false, SeqCst);
            if old.0 != 0 {
                System.dealloc(old.0 as *mut u8, Layout::from_size_align_unchecked(old.1, old.2));
            }
        } else {
            if l.size() <= 1 << 22 {
                std::ptr::write_bytes(p, 0xDD, l.size());
            }
            System.dealloc(p, l);
        }
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, new_size: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(new_size, l.align());
        let np = self.alloc(nl);
        if !np.is_null() {
            MOVES.fetch_add(1, SeqCst);
            std::ptr::copy_nonoverlapping(p, np, std::cmp::min(l.size(), new_size));
            self.dealloc(p, l);
        }
        np
    }
}

/// Starts a measurement of peak and largest request.
pub fn reset_peak() -> usize {
    let live = LIVE.load(SeqCst);
    PEAK.store(live, SeqCst);
    LARGEST.store(0, SeqCst);
    live
}

pub fn live() -> usize {
    LIVE.load(SeqCst)
}
pub fn peak() -> usize {
    PEAK.load(SeqCst)
}
pub fn largest() -> usize {
    LARGEST.load(SeqCst)
}
pub fn enabled() -> bool {
    cfg!(not(feature = "plainalloc"))
}
