//! Global allocator that owns the "answer of the allocator": it measures every thread's live bytes,
//! peak and largest request, and refuses requests above a per-thread cap.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Track;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    static CAP: Cell<usize> = const { Cell::new(DEFAULT_CAP) };
    static REFUSED: Cell<usize> = const { Cell::new(0) };
    static BAND: Cell<(usize, usize, bool)> = const { Cell::new((1, 0, false)) };
}
static TOTAL: AtomicUsize = AtomicUsize::new(0);

/// No single request above this is granted: the harness never lets the code under test take the machine down.
pub const DEFAULT_CAP: usize = 256 << 20;
/// Process-wide ceiling.
pub const PROCESS_CAP: usize = 12 << 30;

fn grant(size: usize) -> bool {
    let cap = CAP.try_with(|c| c.get()).unwrap_or(DEFAULT_CAP);
    let _ = LARGEST.try_with(|l| {
        if size > l.get() {
            l.set(size)
        }
    });
    let (lo, hi, refuse) = BAND.try_with(|b| b.get()).unwrap_or((1, 0, false));
    if lo <= size && size <= hi {
        let _ = REFUSED.try_with(|r| r.set(r.get() + 1));
        if refuse {
            return false;
        }
    }
    if size > cap || TOTAL.load(Ordering::Relaxed).saturating_add(size) > PROCESS_CAP {
        let _ = REFUSED.try_with(|r| r.set(r.get() + 1));
        return false;
    }
    true
}
fn add(n: usize) {
    if n >= 4096 {
        TOTAL.fetch_add(n, Ordering::Relaxed);
    }
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as isize;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
fn sub(n: usize) {
    if n >= 4096 {
        TOTAL.fetch_sub(n, Ordering::Relaxed);
    }
    let _ = LIVE.try_with(|l| l.set(l.get() - n as isize));
}

unsafe impl GlobalAlloc for Track {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grant(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        sub(l.size());
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grant(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !grant(new) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, new);
        if !q.is_null() {
            // both blocks may coexist inside the allocator for a moment; count the larger view
            sub(l.size());
            add(new);
        }
        q
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Usage {
    pub peak: usize,
    pub largest: usize,
    pub refused: usize,
}

/// Bytes this thread has requested and not given back (those another thread gave back included).
pub fn live() -> isize {
    LIVE.with(|l| l.get())
}
/// Run `f` with requests above `cap` refused; report what it requested on this thread.
pub fn measure<T>(cap: usize, f: impl FnOnce() -> T) -> (T, Usage) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    LARGEST.with(|l| l.set(0));
    REFUSED.with(|r| r.set(0));
    let old = CAP.with(|c| c.replace(cap));
    struct Restore(usize);
    impl Drop for Restore {
        fn drop(&mut self) {
            CAP.with(|c| c.set(self.0));
        }
    }
    let r = Restore(old);
    let out = f();
    drop(r);
    let u = Usage {
        peak: (PEAK.with(|p| p.get()) - base).max(0) as usize,
        largest: LARGEST.with(|l| l.get()),
        refused: REFUSED.with(|r| r.get()),
    };
    (out, u)
}

/// Run `f` with every request of a size in `lo..=hi` refused (or, as a probe, only counted).
pub fn band<T>(lo: usize, hi: usize, refuse: bool, f: impl FnOnce() -> T) -> (T, Usage) {
    struct Restore;
    impl Drop for Restore {
        fn drop(&mut self) {
            BAND.with(|b| b.set((1, 0, false)));
        }
    }
    measure(DEFAULT_CAP, || {
        BAND.with(|b| b.set((lo, hi, refuse)));
        let _r = Restore;
        f()
    })
}
