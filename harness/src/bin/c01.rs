//! C01: built-in types map one-to-one onto 0..ORDINAL_SIZE.
//!
//! `--sweep` walks every value and every ordinal of all types of up to 2^32 values;
//! without it the large types are sampled.
use std::sync::atomic::AtomicU64;
use std::sync::atomic::Ordering::Relaxed;

use harness::leaf::interesting;
use harness::leaf::Leaf;
use harness::mon::catch;
use harness::mon::violate;
use harness::mon::Case;
use harness::mon::Caught;
use harness::mon::Ctx;
use harness::op;
use harness::rng::Rng;

fn guard<R>(what: impl Fn() -> String, f: impl FnOnce() -> R) -> R {
    match catch(f) {
        Caught::Ok(r) => r,
        Caught::Injected => unreachable!(),
        Caught::Panic(m) => violate(format!("{} panicked: {m}", what())),
    }
}

/// value -> ordinal -> value
fn value<T: Leaf>(i: u128) -> usize {
    let v = T::nth(i);
    let o = v.ordinal();
    if o >= T::ORDINAL_SIZE {
        violate(format!("{}: {v:?}.ordinal() = {o} is not below ORDINAL_SIZE {}", T::NAME, T::ORDINAL_SIZE));
    }
    match T::from_ordinal(o) {
        Some(w) if w == v => {}
        w => violate(format!("{}: {v:?} has ordinal {o}, which maps back to {w:?}", T::NAME)),
    }
    o
}

/// ordinal -> value -> ordinal
fn number<T: Leaf>(o: usize) {
    match T::from_ordinal(o) {
        Some(v) => {
            let p = v.ordinal();
            if o >= T::ORDINAL_SIZE {
                violate(format!("{}: from_ordinal({o}) = Some({v:?}) beyond ORDINAL_SIZE {}", T::NAME, T::ORDINAL_SIZE));
            }
            if p != o {
                violate(format!("{}: from_ordinal({o}) = Some({v:?}), whose ordinal is {p}", T::NAME));
            }
        }
        None => {
            if o < T::ORDINAL_SIZE {
                violate(format!("{}: from_ordinal({o}) = None below ORDINAL_SIZE {}", T::NAME, T::ORDINAL_SIZE));
            }
        }
    }
}

fn size<T: Leaf>(case: &mut Case) {
    op!("{}: ORDINAL_SIZE = {}, {} values", T::NAME, T::ORDINAL_SIZE, T::COUNT);
    if T::ORDINAL_SIZE as u128 != T::COUNT {
        violate(format!("{}: ORDINAL_SIZE is {}, the type has {} values", T::NAME, T::ORDINAL_SIZE, T::COUNT));
    }
    case.obs(T::ORDINAL_SIZE as u64);
    case.mark();
}

fn window<T: Leaf>(lo: u128, hi: u128) {
    // One guard per window; on a panic find the culprit.
    let all = |a: u128, b: u128| {
        for i in a..b {
            if i < T::COUNT {
                value::<T>(i);
            }
            if i <= usize::MAX as u128 {
                number::<T>(i as usize);
            }
        }
    };
    if let Caught::Panic(m) = catch(|| all(lo, hi)) {
        for i in lo..hi {
            guard(|| format!("{}: conversion of #{i}", T::NAME), || all(i, i + 1));
        }
        violate(format!("{}: panic in #{lo}..{hi}: {m}", T::NAME));
    }
}

fn leaf<T: Leaf>(ctx: &Ctx, dict: &[u128], sweep: bool) {
    let small = T::COUNT <= if harness::mon::small() { 300 } else { 1 << 21 };
    ctx.cases(&format!("{}: size and boundaries", T::NAME), 1, |_, case| {
        size::<T>(case);
        let mut xs = interesting(dict, T::COUNT);
        xs.push(usize::MAX as u128);
        for x in xs {
            case.obs(x as u64);
            window::<T>(x.min(usize::MAX as u128 + 1), x.min(usize::MAX as u128) + 1);
            case.count("boundary values and ordinals");
        }
    });
    if small {
        ctx.cases(&format!("{}: all values and ordinals", T::NAME), 1, |_, case| {
            let n = T::COUNT;
            let mut i = 0;
            while i < n {
                window::<T>(i, (i + 4096).min(n));
                i += 4096;
            }
            // Distinct values, distinct ordinals: the round trip shows it, count anyway.
            let mut seen = vec![false; T::ORDINAL_SIZE];
            for i in 0..n {
                let o = T::nth(i).ordinal();
                if std::mem::replace(&mut seen[o], true) {
                    violate(format!("{}: ordinal {o} given twice", T::NAME));
                }
                case.obs(o as u64);
            }
            case.add("values checked exhaustively", n as u64);
            case.mark();
            let past = if harness::mon::small() { 600 } else { 1 << 17 };
            window::<T>(n, n + past);
            case.add("ordinals beyond the end", past as u64);
        });
    }
    // Random values and ordinals, dense windows at random places.
    let n = ctx.n(60, 1500);
    ctx.cases(&format!("{}: random", T::NAME), n, |rng: &mut Rng, case| {
        for _ in 0..if harness::mon::small() { 20 } else { 200 } {
            let bits = rng.below(65) as u32;
            let raw = rng.u64() as u128 >> (64 - bits.max(1));
            let i = match rng.below(4) {
                0 => raw,
                1 => T::COUNT.wrapping_sub(raw + 1) & (u64::MAX as u128),
                2 => T::COUNT + raw,
                // Equal to something valid after truncation.
                _ => (rng.u64() as u128 % T::COUNT.max(1)) | (raw << rng.below(64)) & (u64::MAX as u128),
            };
            let w = if rng.chance(1, 8) { rng.range(2, 64) as u128 } else { 1 };
            let i = i.min(usize::MAX as u128);
            op!("{}: #{i}..+{w}", T::NAME);
            window::<T>(i, i + w);
            case.obs(i as u64);
            case.add("random values and ordinals", w as u64);
        }
        case.mark();
    });
    const STEP: u64 = 1 << 22;
    if sweep && T::COUNT < 1 << 32 {
        // Ordinals beyond the end.
        let top = if ctx.thorough { 1u64 << 35 } else { 1 << 32 };
        let next = AtomicU64::new(0);
        std::thread::scope(|s| {
            for _ in 0..ctx.threads {
                s.spawn(|| loop {
                    let a = next.fetch_add(STEP, Relaxed).max(T::COUNT as u64);
                    if a >= top {
                        break;
                    }
                    let b = (a / STEP + 1) * STEP;
                    if std::panic::catch_unwind(|| (a..b).for_each(|o| number::<T>(o as usize))).is_err() {
                        ctx.cases(&format!("{}: past the end from {a}", T::NAME), 1, |_, _| {
                            window::<T>(a as u128, b as u128);
                        });
                    }
                });
            }
        });
        ctx.bulk("ordinals beyond the end swept", top - T::COUNT as u64, 0);
    }
    if sweep && !small && T::COUNT <= 1 << 32 {
        let next = AtomicU64::new(0);
        std::thread::scope(|s| {
            for _ in 0..ctx.threads {
                s.spawn(|| loop {
                    let a = next.fetch_add(STEP, Relaxed);
                    if a as u128 >= T::COUNT {
                        break;
                    }
                    let b = ((a + STEP) as u128).min(T::COUNT);
                    if std::panic::catch_unwind(|| {
                        for i in a as u128..b {
                            value::<T>(i);
                            number::<T>(i as usize);
                        }
                    })
                    .is_err()
                    {
                        // Again, as a case that reports what it sees.
                        ctx.cases(&format!("{}: sweep from {a}", T::NAME), 1, |_, _| {
                            window::<T>(a as u128, b);
                        });
                    }
                });
            }
        });
        ctx.bulk("values swept", T::COUNT as u64, T::COUNT as u64);
    }
}

fn main() {
    let ctx = Ctx::from_args();
    let args: Vec<String> = std::env::args().collect();
    let sweep = args.iter().any(|a| a == "--sweep");
    let dict = harness::mon::dict();
    macro_rules! each {
        ($($t:ty,)*) => { $(leaf::<$t>(&ctx, &dict, sweep);)* };
    }
    use std::num::*;
    each! {
        bool, (), std::cmp::Ordering, std::convert::Infallible, char,
        u8, i8, u16, i16,
        NonZeroU8, NonZeroI8, NonZeroU16, NonZeroI16, NonZeroU32, NonZeroI32,
        NonZeroUsize, NonZeroIsize,
    }
    #[cfg(target_pointer_width = "64")]
    each! { u32, i32, NonZeroU64, NonZeroI64, }
    ctx.finish();
}
