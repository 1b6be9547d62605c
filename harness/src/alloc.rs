//! Counting allocator: what the current thread allocates.

use std::alloc::GlobalAlloc;
use std::alloc::Layout;
use std::alloc::System;
use std::cell::Cell;

pub struct Counting;

#[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
pub struct Counts {
    pub allocs: u64,
    pub frees: u64,
    pub reallocs: u64,
    /// Reallocations to more than before.
    pub grows: u64,
    pub live_blocks: i64,
    pub live_bytes: i64,
    /// Size of the last block obtained.
    pub last: u64,
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(true) };
    static C: Cell<Counts> = const { Cell::new(Counts {
        allocs: 0, frees: 0, reallocs: 0, grows: 0, live_blocks: 0, live_bytes: 0, last: 0,
    }) };
}

fn note(f: impl FnOnce(&mut Counts)) {
    let _ = ON.try_with(|on| {
        if on.get() {
            let _ = C.try_with(|c| {
                let mut x = c.get();
                f(&mut x);
                c.set(x);
            });
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(|c| {
            c.allocs += 1;
            c.live_blocks += 1;
            c.live_bytes += l.size() as i64;
            c.last = l.size() as u64;
        });
        unsafe { System.alloc(l) }
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(|c| {
            c.allocs += 1;
            c.live_blocks += 1;
            c.live_bytes += l.size() as i64;
            c.last = l.size() as u64;
        });
        unsafe { System.alloc_zeroed(l) }
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(|c| {
            c.frees += 1;
            c.live_blocks -= 1;
            c.live_bytes -= l.size() as i64;
        });
        unsafe { System.dealloc(p, l) }
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(|c| {
            c.reallocs += 1;
            c.grows += (n > l.size()) as u64;
            c.live_bytes += n as i64 - l.size() as i64;
            c.last = n as u64;
        });
        unsafe { System.realloc(p, l, n) }
    }
}

pub fn counts() -> Counts {
    C.with(|c| c.get())
}

/// What `f` allocates and frees.
pub fn cost<R>(f: impl FnOnce() -> R) -> (R, Counts) {
    let a = counts();
    let r = f();
    let b = counts();
    let c = Counts {
        allocs: b.allocs - a.allocs,
        frees: b.frees - a.frees,
        reallocs: b.reallocs - a.reallocs,
        grows: b.grows - a.grows,
        live_blocks: b.live_blocks - a.live_blocks,
        live_bytes: b.live_bytes - a.live_bytes,
        last: b.last,
    };
    (r, c)
}

/// What `f` allocates is the harness's business.
pub fn unseen<R>(f: impl FnOnce() -> R) -> R {
    let was = ON.with(|o| o.replace(false));
    let r = f();
    ON.with(|o| o.set(was));
    r
}
