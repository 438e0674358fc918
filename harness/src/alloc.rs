//! Counting allocator: bytes live and peak on the current thread while a measurement is on.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

/// Runaway fuse: more than this many live bytes on one thread during a measured call aborts the
/// process (the parent then isolates the case). No generated input needs anything near it.
const FUSE: i64 = 2 << 30;

fn add(n: i64) {
    let _ = ON.try_with(|on| {
        if on.get() {
            LIVE.with(|l| {
                let v = l.get() + n;
                l.set(v);
                PEAK.with(|p| {
                    if v > p.get() {
                        p.set(v)
                    }
                });
                if v > FUSE {
                    std::process::abort();
                }
            })
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

struct Off(bool);
impl Drop for Off {
    fn drop(&mut self) {
        ON.with(|o| o.set(self.0));
    }
}

/// Runs `f` and returns its result with the peak number of bytes it had allocated at once.
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, u64) {
    let prev = ON.with(|o| o.replace(true));
    let _off = Off(prev);
    LIVE.with(|l| l.set(0));
    PEAK.with(|p| p.set(0));
    let r = f();
    let peak = PEAK.with(|p| p.get()).max(0) as u64;
    (r, peak)
}
