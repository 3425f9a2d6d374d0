//! Allocator that records, per thread, the largest allocation and the bytes in use, and on request
//! which blocks are live.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// Blocks that can be tracked at a time.
const SLOTS: usize = 1024;
thread_local! {
    static MAX: Cell<usize> = const { Cell::new(0) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
    static TRACK: Cell<u8> = const { Cell::new(0) };
    static USED: Cell<usize> = const { Cell::new(0) };
    static LOST: Cell<bool> = const { Cell::new(false) };
    static BLOCKS: [Cell<(usize, usize, u8)>; SLOTS] = const { [const { Cell::new((0, 0, 0)) }; SLOTS] };
}
pub struct A;
fn quiet() -> bool {
    QUIET.try_with(|q| q.get() > 0).unwrap_or(true)
}
fn note(n: usize) {
    if quiet() {
        return;
    }
    let _ = MAX.try_with(|m| if n > m.get() { m.set(n) });
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + n as isize);
        let v = l.get();
        let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
    });
}
fn gone(n: usize) {
    if quiet() {
        return;
    }
    let _ = LIVE.try_with(|l| l.set(l.get() - n as isize));
}
fn tracking() -> u8 {
    match quiet() {
        true => 0,
        false => TRACK.try_with(|t| t.get()).unwrap_or(0),
    }
}
fn enter(p: *mut u8, n: usize, tag: u8) {
    let _ = BLOCKS.try_with(|b| {
        let used = USED.with(|u| u.get());
        for k in 0..used.min(SLOTS) {
            if b[k].get().0 == 0 {
                b[k].set((p as usize, n, tag));
                return;
            }
        }
        if used < SLOTS {
            b[used].set((p as usize, n, tag));
            USED.with(|u| u.set(used + 1));
        } else {
            LOST.with(|l| l.set(true));
        }
    });
}
/// Forget a block; its tag if it was tracked.
fn leave(p: *mut u8) -> u8 {
    let used = USED.try_with(|u| u.get()).unwrap_or(0);
    if used == 0 {
        return 0;
    }
    BLOCKS
        .try_with(|b| {
            for c in &b[..used] {
                if c.get().0 == p as usize {
                    let t = c.get().2;
                    c.set((0, 0, 0));
                    return t;
                }
            }
            0
        })
        .unwrap_or(0)
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        let t = tracking();
        if t > 0 {
            let p = System.alloc_zeroed(l);
            enter(p, l.size(), t);
            return p;
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        let p = System.alloc_zeroed(l);
        let t = tracking();
        if t > 0 {
            enter(p, l.size(), t);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        gone(l.size());
        leave(p);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        gone(l.size());
        note(n);
        let t = leave(p).max(tracking());
        let q = System.realloc(p, l, n);
        if t > 0 {
            if n > l.size() {
                std::ptr::write_bytes(q.add(l.size()), 0, n - l.size());
            }
            enter(q, n, t);
        }
        q
    }
}
#[global_allocator]
static G: A = A;

/// Run `f`; returns its result, the largest single allocation and the peak of additional bytes.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize, usize) {
    MAX.with(|m| m.set(0));
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let peak = PEAK.with(|p| p.get()) - base;
    (r, MAX.with(|m| m.get()), peak.max(0) as usize)
}
/// While it lives, allocations of this thread belong to the harness and are not counted.
pub struct Quiet;
impl Quiet {
    pub fn new() -> Quiet {
        QUIET.with(|q| q.set(q.get() + 1));
        Quiet
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        let _ = QUIET.try_with(|q| q.set(q.get() - 1));
    }
}
/// Remember the blocks allocated by `f` for as long as they live, under a tag above 0.
pub fn tracked<T>(tag: u8, f: impl FnOnce() -> T) -> T {
    struct Off(u8);
    impl Drop for Off {
        fn drop(&mut self) {
            let _ = TRACK.try_with(|t| t.set(self.0));
        }
    }
    let _o = Off(TRACK.with(|t| t.replace(tag)));
    f()
}
/// Start without tracked blocks.
pub fn untrack() {
    USED.with(|u| u.set(0));
    LOST.with(|l| l.set(false));
    BLOCKS.with(|b| b.iter().for_each(|c| c.set((0, 0, 0))));
}
/// Visit the live blocks of a tag; false if there were too many to track.
pub fn live_blocks(tag: u8, mut f: impl FnMut(&[u8])) -> bool {
    let used = USED.with(|u| u.get());
    BLOCKS.with(|b| {
        for c in &b[..used] {
            let (p, n, t) = c.get();
            if p != 0 && n > 0 && t == tag {
                f(unsafe { std::slice::from_raw_parts(p as *const u8, n) });
            }
        }
    });
    !LOST.with(|l| l.get())
}
