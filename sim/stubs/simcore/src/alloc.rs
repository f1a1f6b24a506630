//! Global allocator that fills fresh memory with a pattern (so that reads of
//! uninitialised memory are deterministic and visibly wrong), scribbles over
//! freed memory and reports frees of memory that an unfinished send still owns.
use std::alloc::GlobalAlloc;
use std::alloc::Layout;
use std::alloc::System;
use std::sync::atomic::AtomicBool;
use std::sync::atomic::AtomicUsize;
use std::sync::atomic::Ordering;

pub struct SimAlloc;

pub static POISON: AtomicBool = AtomicBool::new(false);
pub const MAX_FLIGHT: usize = 4096;
pub static NUM_FLIGHT: AtomicUsize = AtomicUsize::new(0);
// (start, end, message id)
pub static mut FLIGHT: [(usize, usize, u64); MAX_FLIGHT] = [(0, 0, 0); MAX_FLIGHT];
pub static mut FREED: [u64; MAX_FLIGHT] = [0; MAX_FLIGHT];
pub static NUM_FREED: AtomicUsize = AtomicUsize::new(0);

pub fn fly(start: usize, len: usize, id: u64) {
    if len == 0 {
        return;
    }
    let n = NUM_FLIGHT.load(Ordering::Relaxed);
    if n < MAX_FLIGHT {
        unsafe { FLIGHT[n] = (start, start + len, id) };
        NUM_FLIGHT.store(n + 1, Ordering::Relaxed);
    }
}

pub fn land(id: u64) {
    let mut n = NUM_FLIGHT.load(Ordering::Relaxed);
    let mut i = 0;
    while i < n {
        unsafe {
            if FLIGHT[i].2 == id {
                FLIGHT[i] = FLIGHT[n - 1];
                n -= 1;
            } else {
                i += 1;
            }
        }
    }
    NUM_FLIGHT.store(n, Ordering::Relaxed);
}

pub fn take_freed() -> Vec<u64> {
    let n = NUM_FREED.swap(0, Ordering::Relaxed);
    (0..n).map(|i| unsafe { FREED[i] }).collect()
}

fn check_free(start: usize, len: usize) {
    let n = NUM_FLIGHT.load(Ordering::Relaxed);
    for i in 0..n {
        let (a, b, id) = unsafe { FLIGHT[i] };
        if start < b && a < start + len {
            let k = NUM_FREED.load(Ordering::Relaxed);
            if k < MAX_FLIGHT {
                unsafe { FREED[k] = id };
                NUM_FREED.store(k + 1, Ordering::Relaxed);
            }
        }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() && POISON.load(Ordering::Relaxed) {
            std::ptr::write_bytes(p, 0xA5, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if NUM_FLIGHT.load(Ordering::Relaxed) > 0 {
            check_free(p as usize, l.size());
        }
        if POISON.load(Ordering::Relaxed) {
            std::ptr::write_bytes(p, 0xDD, l.size());
        }
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !POISON.load(Ordering::Relaxed) && NUM_FLIGHT.load(Ordering::Relaxed) == 0 {
            return System.realloc(p, l, new);
        }
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}
