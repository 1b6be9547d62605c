//! Counts the instructions a piece of code executes, by single-stepping the thread.

use std::arch::asm;
use std::cell::Cell;

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
}

const SIGTRAP: i32 = 5;
const SA_SIGINFO: i32 = 4;
const SA_RESTART: i32 = 0x1000_0000;
const TRAP_FLAG: u64 = 0x100;
/// Where the flags register is in `ucontext_t` of x86-64 Linux.
const FLAGS_AT: usize = 40 + 17 * 8;

/// Nobody needs to know how much more than this it was.
pub const LIMIT: u64 = 20_000;

thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
}

unsafe extern "C" fn on_trap(_: i32, _: *mut u8, context: *mut u8) {
    let n = STEPS.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if n >= LIMIT {
        let flags = context.add(FLAGS_AT) as *mut u64;
        *flags &= !TRAP_FLAG;
    }
}

/// False if this machine cannot single-step.
pub fn install() -> bool {
    let handler: unsafe extern "C" fn(i32, *mut u8, *mut u8) = on_trap;
    let a = SigAction {
        handler: handler as *const () as usize,
        mask: [0; 16],
        flags: SA_SIGINFO | SA_RESTART,
        restorer: 0,
    };
    // SAFETY: the handler is async-signal-safe: it touches a thread local without destructor.
    if unsafe { sigaction(SIGTRAP, &a, std::ptr::null_mut()) } != 0 {
        return false;
    }
    let spin = |n: u64| steps(|| (0..std::hint::black_box(n)).fold(0, |a, b| std::hint::black_box(a + b))).1;
    let (a, b) = (spin(10), spin(1000));
    a >= 10 && b >= a + 990
}

/// Instructions executed by `f`, up to `LIMIT`.
#[inline(never)]
pub fn steps<R>(f: impl FnOnce() -> R) -> (R, u64) {
    STEPS.with(|c| c.set(0));
    // SAFETY: the trap flag only has the handler called.
    unsafe { asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
    let r = f();
    unsafe { asm!("pushfq", "and qword ptr [rsp], -257", "popfq") }
    (r, STEPS.with(|c| c.get()))
}
