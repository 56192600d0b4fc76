//! Counting allocator: peak of live bytes per thread, and a hard cap per thread so that a runaway
//! allocation aborts quickly instead of exhausting the machine.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CAP: Cell<i64> = const { Cell::new(i64::MAX) };
    static COUNTDOWN: Cell<u64> = const { Cell::new(0) };
    static HOOK: Cell<Option<fn()>> = const { Cell::new(None) };
}

/// Calls `f` once, at this thread's `n`-th allocation from now (1 being the next one).
pub fn hook_at(n: u64, f: fn()) {
    HOOK.with(|h| h.set(Some(f)));
    COUNTDOWN.with(|c| c.set(n));
}
/// Cancels the hook, returning how many allocations were still to go.
pub fn unhook() -> u64 {
    HOOK.with(|h| h.set(None));
    COUNTDOWN.with(|c| c.replace(0))
}

#[inline]
fn tick() {
    let _ = COUNTDOWN.try_with(|c| {
        let n = c.get();
        if n > 0 {
            c.set(n - 1);
            if n == 1 {
                if let Some(f) = HOOK.with(|h| h.take()) {
                    f()
                }
            }
        }
    });
}

fn add(n: i64) -> bool {
    LIVE.try_with(|l| {
        let v = l.get() + n;
        if n > 0 && CAP.with(|c| v > c.get()) {
            return false;
        }
        l.set(v);
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        true
    })
    .unwrap_or(true)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        tick();
        if !add(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        tick();
        if !add(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        tick();
        // Old and new block may be live together for a moment.
        if !add(n as i64) {
            return std::ptr::null_mut();
        }
        let r = System.realloc(p, l, n);
        add(-(if r.is_null() { n as i64 } else { l.size() as i64 }));
        r
    }
}

/// Runs `f`, returning its result and the peak of bytes live above the level at the start.
/// Allocations beyond `cap` bytes above the start fail (and abort the process).
pub fn peak_of<T>(cap: i64, f: impl FnOnce() -> T) -> (T, i64) {
    let start = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(start));
    let old = CAP.with(|c| c.replace(start + cap));
    struct Restore(i64);
    impl Drop for Restore {
        fn drop(&mut self) {
            CAP.with(|c| c.set(self.0))
        }
    }
    let r = Restore(old);
    let v = f();
    drop(r);
    (v, PEAK.with(|p| p.get()) - start)
}
