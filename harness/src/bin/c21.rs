//! C21: the same results in every build profile, pointer width and byte order.
//!
//! Names and random choices depend on nothing of the target, so that the digests of
//! what each group observed can be compared between configurations.
use std::cmp::Ordering as Ord3;
use std::convert::Infallible as Never;
use std::num::*;

use either::Either;
use harness::check_eq;
use harness::dynmap::H;
use harness::forks;
use harness::forks::Eq64;
use harness::forks::Record;
use harness::iterdrive::drive;
use harness::iterdrive::wrap_clone_exact;
use harness::iterdrive::How;
use harness::iterdrive::Obs;
use harness::iterdrive::NO;
use harness::keys::Color;
use harness::keys::Key;
use harness::keys::Mixed;
use harness::keys::OKey;
use harness::keys::TestKey;
use harness::leaf::Leaf;
use harness::maps::size;
use harness::maps::Total;
use harness::model::Model;
use harness::mon;
use harness::mon::Case;
use harness::mon::Ctx;
use harness::op;
use harness::own;
use harness::rng::Rng;
use harness::tracked::Tracked;
use harness::vals::TestVal;
use harness::vals::Wide;
use harness::w_map;
use harness::w_set;
use harness::w_total;
use ordinal_map::map::total::OrdinalTotalArrayMap;
use ordinal_map::map::total::OrdinalTotalMap;
use ordinal_map::map::OrdinalArrayMap;
use ordinal_map::map::OrdinalMap;
use ordinal_map::set::ordinal_array_set_s;
use ordinal_map::set::OrdinalArraySet;
use ordinal_map::set::OrdinalSet;
use ordinal_map::set::OrdinalSet64;
use ordinal_map::AtomicOrdinal;

// ---------------------------------------------------------------- values

/// Ordinals of a type around every place where a conversion could go wrong.
fn places(rng: &mut Rng, n: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (0..40).collect();
    for b in 5..=32 {
        let p = 1u64 << b;
        v.extend([p - 2, p - 1, p, p + 1, n.wrapping_sub(p), n.wrapping_sub(p + 1), (n / 2).wrapping_add(p), (n / 2).wrapping_sub(p)]);
    }
    v.extend((0..6).flat_map(|i| [n.wrapping_sub(i), n.wrapping_add(i), (n / 2).wrapping_sub(i), n / 2 + i]));
    v.extend([0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff_ffff, 0x7fff_ffff, 0x8000_0000]);
    for _ in 0..60 {
        v.push(rng.u64() % n.max(1));
        v.push(n + rng.u64() % 1000);
    }
    v.retain(|x| *x <= u32::MAX as u64);
    if mon::small() {
        v.retain(|x| x % 5 < 2);
    }
    v
}

fn values<T: Model>(rng: &mut Rng, case: &mut Case) {
    let n = T::size() as u64;
    check_eq!(T::ORDINAL_SIZE as u64, n, "ORDINAL_SIZE");
    for x in places(rng, n) {
        op!("#{x} of {n}");
        let got = T::from_ordinal(x as usize).map(|v| v.rank() as u64);
        check_eq!(got, (x < n).then_some(x), "rank of from_ordinal({x})");
        case.obs(got.unwrap_or(u64::MAX));
        if x < n {
            let v = T::make(x as u128);
            check_eq!(v.ordinal() as u64, x, "ordinal of {}", v.show());
            case.obs(v.ordinal() as u64);
        }
        case.events += 2;
    }
    case.mark();
    // A walk from both ends.
    let mut it = T::all_values();
    let (mut lo, mut hi) = (0, n);
    for _ in 0..30 {
        check_eq!(it.len() as u64, hi - lo, "len()");
        check_eq!(it.size_hint(), (it.len(), Some(it.len())), "size_hint()");
        let k = rng.below(40) as u64;
        let way = rng.below(4);
        let got = match way {
            0 => it.next(),
            1 => it.next_back(),
            2 => it.nth(k as usize),
            _ => it.nth_back(k as usize),
        };
        let got = got.map(|v| v.rank() as u64);
        op!("way {way}, {k}: {got:?} of {lo}..{hi}");
        let skip = if way < 2 { 0 } else { k };
        if way % 2 == 0 {
            check_eq!(got, (skip < hi - lo).then(|| lo + skip), "value from the front");
            lo = (lo + skip + 1).min(hi);
        } else {
            check_eq!(got, (skip < hi - lo).then(|| hi - 1 - skip), "value from the back");
            hi = hi.saturating_sub(skip + 1).max(lo);
        }
        case.obs(got.unwrap_or(u64::MAX));
        case.events += 1;
    }
}

/// Every value of a type of 16 bits or fewer, in both directions.
fn every<T: Leaf>(_: &mut Rng, case: &mut Case) {
    let n = T::COUNT as usize;
    check_eq!(T::ORDINAL_SIZE, n, "ORDINAL_SIZE");
    let step = if mon::small() { 1 + n / 700 } else { 1 };
    for i in (0..n).step_by(step) {
        let v = T::nth(i as u128);
        check_eq!(v.ordinal(), i, "ordinal of {v:?}");
        check_eq!(T::from_ordinal(i), Some(v), "from_ordinal({i})");
        case.obs(v.ordinal() as u64);
    }
    for i in n..n + 300 {
        check_eq!(T::from_ordinal(i), None, "from_ordinal({i})");
    }
    case.events += 2 * n as u64 / step as u64;
    case.mark();
}

fn ordered<T: Model + Ord>(rng: &mut Rng, case: &mut Case) {
    let n = T::size() as u64;
    let ps: Vec<u64> = places(rng, n).into_iter().filter(|x| *x < n).collect();
    for _ in 0..if ps.is_empty() { 0 } else { 100 } {
        let (a, b) = (*rng.pick(&ps), *rng.pick(&ps));
        let (x, y) = (T::make(a as u128), T::make(b as u128));
        op!("{} and {}", x.show(), y.show());
        check_eq!(x.cmp(&y), a.cmp(&b), "order of {} and {}", x.show(), y.show());
        check_eq!(x.ordinal().cmp(&y.ordinal()), a.cmp(&b), "order of the ordinals of {} and {}", x.show(), y.show());
        case.obs((a < b) as u64);
        case.events += 1;
    }
    if n > 1 {
        case.mark();
    }
}

/// The cell in one thread.
fn cell<T: Model + std::fmt::Debug>(rng: &mut Rng, case: &mut Case) {
    use std::sync::atomic::Ordering::*;
    let n = T::size() as u64;
    let ps: Vec<u64> = places(rng, n).into_iter().filter(|x| *x < n).collect();
    let mut now = *rng.pick(&ps);
    let c = AtomicOrdinal::new(T::make(now as u128));
    for _ in 0..20 {
        let v = *rng.pick(&ps);
        match rng.below(4) {
            0 => {
                op!("store #{v}");
                c.store(T::make(v as u128), *rng.pick(&[Relaxed, Release, SeqCst]));
                now = v;
            }
            1 => {
                let old = if rng.chance(1, 2) { now } else { *rng.pick(&ps) };
                op!("exchange #{old} for #{v}");
                let r = c.compare_exchange(T::make(old as u128), T::make(v as u128), AcqRel, Acquire);
                let r = r.map(|v| v.rank() as u64).map_err(|v| v.rank() as u64);
                check_eq!(r, if old == now { Ok(now) } else { Err(now) }, "result of an exchange");
                if old == now {
                    now = v;
                }
            }
            2 => check_eq!(format!("{c:?}"), format!("{:?}", T::make(now as u128)), "Debug of the cell"),
            _ => {}
        }
        let got = c.load(*rng.pick(&[Relaxed, Acquire, SeqCst])).rank() as u64;
        check_eq!(got, now, "value of the cell");
        case.obs(got);
        case.events += 1;
    }
    case.mark();
}

macro_rules! value_types {
    ($ctx:expr, $n:expr, [$($t:ty),* $(,)?]) => {
        $($ctx.cases(concat!("values of ", stringify!($t)), $n, values::<$t>);)*
    };
}

macro_rules! each {
    ($ctx:expr, $n:expr, $what:literal, $f:ident, [$($t:ty),* $(,)?]) => {
        $($ctx.cases(concat!($what, " ", stringify!($t)), $n, $f::<$t>);)*
    };
}

// ---------------------------------------------------------------- containers

macro_rules! sparse_protos {
    ($($k:ty, $v:ty;)*) => { vec![$(
        w_map::Proto {
            label: concat!("OrdinalMap<", stringify!($k), ", ", stringify!($v), ">"),
            make: || Box::new(H(OrdinalMap::<$k, $v>::new())),
        },
        w_map::Proto {
            label: concat!("OrdinalArrayMap<", stringify!($k), ", ", stringify!($v), ">"),
            make: || Box::new(H(OrdinalArrayMap::<$k, $v, { size::<$k>() }>::new())),
        }),*]
    };
}

fn make<M: Total + 'static>(f: &mut dyn FnMut(usize) -> u64) -> w_total::Map
where
    M::V: TestVal + 'static,
    M::K: 'static,
{
    Box::new(H(M::make(|k| M::V::mk(f(k.idx())))))
}

fn try_make<M: Total + 'static>(f: &mut dyn FnMut(usize) -> Result<u64, String>) -> Result<w_total::Map, String>
where
    M::V: TestVal + 'static,
    M::K: 'static,
{
    let m = M::try_make(|k| f(k.idx()).map(M::V::mk))?;
    Ok(Box::new(H(m)))
}

macro_rules! total_protos {
    ($($k:ty, $v:ty;)*) => { vec![$(
        w_total::Proto {
            label: concat!("OrdinalTotalMap<", stringify!($k), ", ", stringify!($v), ">"),
            make: make::<OrdinalTotalMap<$k, $v>>,
            try_make: try_make::<OrdinalTotalMap<$k, $v>>,
            n: <$k as TestKey>::N,
            array: None,
        },
        w_total::Proto {
            label: concat!("OrdinalTotalArrayMap<", stringify!($k), ", ", stringify!($v), ">"),
            make: make::<OrdinalTotalArrayMap<$k, $v, { size::<$k>() }>>,
            try_make: try_make::<OrdinalTotalArrayMap<$k, $v, { size::<$k>() }>>,
            n: <$k as TestKey>::N,
            array: Some(w_total::array_case::<$k, $v, { size::<$k>() }>),
        }),*]
    };
}

macro_rules! set_protos {
    ([$($k:ty),*] small [$($s:ty),*]) => { vec![$(
        w_set::Proto {
            label: concat!("OrdinalSet<", stringify!($k), ">"),
            make: || Box::new(OrdinalSet::<$k>::new()),
        },
        w_set::Proto {
            label: concat!("OrdinalArraySet<", stringify!($k), ">"),
            make: || Box::new(OrdinalArraySet::<$k, { ordinal_array_set_s::<$k>() }>::new()),
        },)*
        $(w_set::Proto {
            label: concat!("OrdinalSet64<", stringify!($s), ">"),
            make: || Box::new(OrdinalSet64::<$s>::new()),
        }),*]
    };
}

fn iterated<K: TestKey + 'static>(rng: &mut Rng, case: &mut Case) {
    let q = (0..K::N).map(|i| -> Obs { (i as u64, NO) }).collect();
    if K::N > 0 {
        case.mark();
    }
    drive(rng, case, "all_values", wrap_clone_exact(K::all_values(), |k: K| (k.idx() as u64, NO)), q, &How { exact_hint: true });
}

fn main() {
    let ctx = Ctx::from_args();
    let n = ctx.n(300, 6_000);
    each!(&ctx, 1, "every value of", every, [bool, u8, i8, u16, i16, NonZeroU8, NonZeroI8, NonZeroU16, NonZeroI16, char]);
    value_types!(&ctx, n, [
        bool, (), Ord3, Never, char, u8, i8, u16, i16, NonZeroU8, NonZeroI8, NonZeroU16, NonZeroI16, NonZeroU32, NonZeroI32,
        Option<bool>, Option<char>, Option<Never>, Option<i16>, Option<Key<{ u32::MAX as usize - 1 }>>, Result<u8, i16>, Result<Never, NonZeroI32>,
        Either<i8, bool>, Either<Key<0x7fff_ffff>, Key<0x8000_0000>>, Box<i16>, Box<NonZeroI32>, [bool; 31], [i8; 3], [Never; 2], [Ord3; 20],
        (u16, u8), (i8, u16, Ord3), (Key<65_537>, Key<65_535>), (NonZeroI32,), ((), NonZeroU32), (bool, Never), [NonZeroI16; 1],
        (Option<i8>, Result<bool, Ord3>, [bool; 4]), Key<{ u32::MAX as usize }>, Key<0x8000_0001>,
    ]);
    each!(&ctx, n, "order of", ordered, [
        bool, char, u8, i8, u16, i16, NonZeroI8, NonZeroI16, NonZeroU32, NonZeroI32, Option<i8>, Result<i16, u8>, Either<i8, bool>,
        [i8; 3], (i8, u16), (NonZeroI16, bool), Box<NonZeroI32>,
    ]);
    each!(&ctx, n, "cell of", cell, [
        bool, char, i8, u16, i16, NonZeroI16, NonZeroU32, NonZeroI32, Option<i16>, (u16, u8), [i8; 3], Box<i16>, Key<{ u32::MAX as usize }>, Either<i8, bool>,
    ]);
    let sparse = sparse_protos! {
        Key<0>, u64;
        Key<3>, u64;
        Key<65>, Wide;
        u8, u64;
        Color, String;
        Mixed, Option<u8>;
        OKey<5>, Tracked;
        NonZeroI8, ();
    };
    w_map::walk(&ctx, &sparse, w_map::Focus::All, n);
    let total = total_protos! {
        Key<0>, u64;
        Key<3>, Wide;
        Key<65>, u64;
        i8, u64;
        Color, String;
        Option<bool>, Option<u8>;
        OKey<5>, Tracked;
    };
    w_total::walk(&ctx, &total, w_total::Focus::All, n);
    let sets = set_protos!(
        [Key<0>, Key<3>, Key<63>, Key<64>, Key<65>, Key<129>, u8, i8, Color, OKey<70>, NonZeroI8]
        small [Key<0>, Key<3>, Key<31>, Key<32>, Key<33>, Key<63>, Key<64>, Color, Mixed, bool, ()]
    );
    w_set::walk_histories(&ctx, &sets, n);
    w_set::walk_iterators(&ctx, &sets, n);
    each!(&ctx, n, "values, iterated,", iterated, [Key<0>, Key<1>, Key<5>, Key<70>, OKey<6>, u8, i8, Color, Mixed, bool, NonZeroI8, Never]);
    ctx.cases("texts of maps", n, forks::sparse::<OrdinalMap<Key<9>, Record>>);
    ctx.cases("texts of array maps", n, forks::sparse::<OrdinalArrayMap<Color, u64, 4>>);
    ctx.cases("texts of total maps", n, forks::total::<OrdinalTotalMap<Color, String>>);
    ctx.cases("texts of total array maps", n, forks::total::<OrdinalTotalArrayMap<Key<5>, u64, 5>>);
    ctx.cases("texts of views", n, forks::views::<Key<5>, u64, 5>);
    ctx.cases("texts of sets", n, forks::set::<OrdinalSet<Key<65>>>);
    ctx.cases("texts of array sets", n, forks::set::<OrdinalArraySet<Color, 1>>);
    ctx.cases("texts of small sets", n, forks::set::<Eq64<Key<64>>>);
    for (name, h) in own::histories() {
        ctx.cases(&format!("ownership in a history of {name}"), n, h);
    }
    if !mon::small() {
        harness::huge::sparses(&ctx, ctx.n(16, 200));
        harness::huge::totals(&ctx, ctx.n(8, 80));
        harness::huge::sets(&ctx, ctx.n(32, 400));
    }
    ctx.finish();
}
