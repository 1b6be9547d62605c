//! C04: ordinal order agrees with `Ord`, for the provided mappings.
//! (Derived ones are in the generated program of `../derived`.)
use std::cmp::Ordering as Ord3;
use std::convert::Infallible as Never;
use std::num::*;
use std::sync::atomic::AtomicU64;
use std::sync::atomic::Ordering::Relaxed;

use either::Either;
use harness::leaf::Leaf;
use harness::order::agree;
use harness::order::ops;
use harness::order::Ops;
use harness::mon::violate;
use harness::mon::Ctx;

macro_rules! list {
    ($($t:ty;)*) => { vec![$(ops::<$t>(stringify!($t))),*] };
}

fn types() -> Vec<Ops> {
    #[allow(unused_mut)]
    let mut v = list! {
        bool; (); Ord3; char; u8; i8; u16; i16; Never;
        NonZeroU8; NonZeroI8; NonZeroU16; NonZeroI16; NonZeroU32; NonZeroI32; NonZeroUsize; NonZeroIsize;
        Option<()>; Option<bool>; Option<u8>; Option<i8>; Option<Never>; Option<char>; Option<Option<bool>>; Option<NonZeroI16>;
        Result<bool, ()>; Result<(), bool>; Result<u8, i8>; Result<i16, u16>; Result<Never, i8>; Result<i8, Never>; Result<Option<bool>, Result<i8, Ord3>>;
        Either<bool, ()>; Either<(), bool>; Either<i8, u8>; Either<Never, i8>; Either<i8, Never>; Either<Ord3, Option<i8>>;
        Box<bool>; Box<i8>; Box<Option<i8>>; Box<(bool, Ord3)>;
        [bool; 0]; [bool; 1]; [bool; 5]; [i8; 2]; [Ord3; 4]; [Option<bool>; 3]; [[bool; 2]; 3]; [(bool, Ord3); 2]; [Never; 2]; [(); 4]; [bool; 20]; [NonZeroI8; 2];
        (bool,); (i8,); (bool, Ord3); (Ord3, bool); (i8, u8); (bool, i8, Ord3); ((), bool); (bool, ()); (Never, bool); (bool, Never);
        (Ord3, bool, Ord3, bool); (bool, Ord3, bool, Ord3, bool); (Ord3, bool, bool, bool, Ord3, bool); (bool, Ord3, (), bool, bool, Ord3, bool);
        (bool, bool, bool, bool, bool, bool, bool, Ord3); (Ord3, bool, bool, bool, bool, bool, bool, bool, Ord3); (bool, bool, bool, bool, bool, bool, bool, bool, bool, Ord3);
        (bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, Ord3); (Ord3, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, Ord3);
        (Option<i8>, Result<bool, Ord3>); Option<(i8, [bool; 2])>; Result<(bool, i8), [Ord3; 2]>; (Box<i8>, Option<Box<bool>>); ((bool, Ord3), (Ord3, bool)); (char, i8); (i16, bool, u8);
    };
    #[cfg(target_pointer_width = "64")]
    v.extend(list! {
        u32; i32; NonZeroU64; NonZeroI64; Option<u32>; Option<i32>; Result<u32, i32>; (i32, i16); (i16, i32); Option<(i32, bool)>; [i16; 3]; (NonZeroI32, i8); Box<NonZeroI64>; (NonZeroI64,); ((), i32, ());
    });
    v
}

fn sweep<T: Leaf + Ord>(ctx: &Ctx) {
    let next = AtomicU64::new(0);
    const STEP: u64 = 1 << 22;
    let count = T::COUNT as u64;
    std::thread::scope(|s| {
        for _ in 0..ctx.threads {
            s.spawn(|| loop {
                let a = next.fetch_add(STEP, Relaxed);
                if a >= count {
                    break;
                }
                let b = (a + STEP).min(count);
                let work = || {
                    let mut prev = T::nth(a as u128);
                    let mut po = prev.ordinal();
                    for i in a + 1..=b.min(count - 1) {
                        let v = T::nth(i as u128);
                        let o = v.ordinal();
                        if !(prev < v) || !(po < o) {
                            violate(format!("{}: {prev:?} < {v:?} but their ordinals are {po} and {o}", T::NAME));
                        }
                        prev = v;
                        po = o;
                    }
                };
                if std::panic::catch_unwind(work).is_err() {
                    ctx.cases(&format!("{}: sweep from {a}", T::NAME), 1, |_, _| work());
                }
            });
        }
    });
    ctx.bulk("neighbours swept", count - 1, count - 1);
}

fn main() {
    let ctx = Ctx::from_args();
    if std::env::args().any(|a| a == "--sweep") {
        #[cfg(target_pointer_width = "64")]
        {
            sweep::<u32>(&ctx);
            sweep::<i32>(&ctx);
        }
        sweep::<NonZeroU32>(&ctx);
        sweep::<NonZeroI32>(&ctx);
        sweep::<char>(&ctx);
        sweep::<u16>(&ctx);
        sweep::<i16>(&ctx);
        sweep::<NonZeroU16>(&ctx);
        sweep::<NonZeroI16>(&ctx);
    }
    agree(&ctx, &types());
    ctx.finish();
}
