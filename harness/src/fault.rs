//! Fault points: places in user callbacks where a panic can be injected.

use std::cell::Cell;

use crate::mon::Injected;

pub const KEY: u32 = 1;
pub const CLONE: u32 = 2;
pub const CALLBACK: u32 = 4;
pub const DEBUG: u32 = 8;
pub const DROP: u32 = 16;
pub const ITER: u32 = 32;
pub const DEFAULT: u32 = 64;

thread_local! {
    static MASK: Cell<u32> = const { Cell::new(0) };
    static TARGET: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static FIRED: Cell<&'static str> = const { Cell::new("") };
    static KIND: Cell<u32> = const { Cell::new(0) };
}

pub fn disarm() {
    MASK.with(|m| m.set(0));
}

/// Count points of `mask`; panic at the `target`-th (from 1), never if 0.
pub fn arm(mask: u32, target: u64) {
    MASK.with(|m| m.set(mask));
    TARGET.with(|m| m.set(target));
    COUNT.with(|m| m.set(0));
    FIRED.with(|m| m.set(""));
    KIND.with(|m| m.set(0));
}

pub fn count() -> u64 {
    COUNT.with(|c| c.get())
}

/// Name of the point that fired since `arm`.
pub fn fired() -> &'static str {
    FIRED.with(|c| c.get())
}

/// Kind of the point that fired since `arm`, or 0.
pub fn fired_kind() -> u32 {
    KIND.with(|c| c.get())
}

#[inline]
pub fn point(kind: u32, name: &'static str) {
    if MASK.with(|m| m.get()) & kind == 0 {
        return;
    }
    if kind == DROP && std::thread::panicking() {
        // A second panic would abort: that is Rust, not the library.
        return;
    }
    let n = COUNT.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if n == TARGET.with(|t| t.get()) {
        FIRED.with(|f| f.set(name));
        KIND.with(|f| f.set(kind));
        MASK.with(|m| m.set(0));
        std::panic::panic_any(Injected(name));
    }
}
