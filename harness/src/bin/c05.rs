//! C05: enumerating all values yields each value once, in order, from both ends.
use std::cmp::Ordering as Ord3;
use std::convert::Infallible as Never;
use std::num::*;

use either::Either;
use harness::check;
use harness::check_eq;
use harness::iterdrive::drive;
use harness::iterdrive::skip_amount;
use harness::iterdrive::wrap_clone_exact;
use harness::iterdrive::BoxIt;
use harness::iterdrive::How;
use harness::iterdrive::Obs;
use harness::iterdrive::NO;
use harness::keys::Key;
use harness::keys::OKey;
use harness::keys::TestKey;
use harness::model::Model;
use harness::mon::Case;
use harness::mon::Ctx;
use harness::op;
use harness::ordm;
use harness::rng::Rng;
use ordinal_map::Ordinal;
use ordinal_map::OrdinalValues;

/// The iterator seen through ranks, with everything a user can ask of it.
trait Dyn {
    fn next(&mut self) -> Option<u128>;
    fn next_back(&mut self) -> Option<u128>;
    fn nth(&mut self, n: usize) -> Option<u128>;
    fn nth_back(&mut self, n: usize) -> Option<u128>;
    fn len(&self) -> usize;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn dup(&self) -> Box<dyn Dyn>;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<u128>;
    fn debug(&self) -> Option<String>;
    /// Visits from one end; true stops.
    fn any(&mut self, back: bool, f: &mut dyn FnMut(u128) -> bool) -> bool;
}

struct It<T: Ordinal> {
    it: OrdinalValues<T>,
    rank: fn(&T) -> u128,
    text: Option<fn(&OrdinalValues<T>) -> String>,
}

impl<T: Ordinal + 'static> Dyn for It<T> {
    fn next(&mut self) -> Option<u128> {
        self.it.next().map(|v| (self.rank)(&v))
    }
    fn next_back(&mut self) -> Option<u128> {
        self.it.next_back().map(|v| (self.rank)(&v))
    }
    fn nth(&mut self, n: usize) -> Option<u128> {
        self.it.nth(n).map(|v| (self.rank)(&v))
    }
    fn nth_back(&mut self, n: usize) -> Option<u128> {
        self.it.nth_back(n).map(|v| (self.rank)(&v))
    }
    fn len(&self) -> usize {
        self.it.len()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
    fn dup(&self) -> Box<dyn Dyn> {
        Box::new(It {
            it: self.it.clone(),
            rank: self.rank,
            text: self.text,
        })
    }
    fn count(self: Box<Self>) -> usize {
        self.it.count()
    }
    fn last(self: Box<Self>) -> Option<u128> {
        let rank = self.rank;
        self.it.last().map(|v| rank(&v))
    }
    fn debug(&self) -> Option<String> {
        self.text.map(|f| f(&self.it))
    }
    fn any(&mut self, back: bool, f: &mut dyn FnMut(u128) -> bool) -> bool {
        let rank = self.rank;
        if back {
            self.it.by_ref().rev().any(|v| f(rank(&v)))
        } else {
            self.it.any(|v| f(rank(&v)))
        }
    }
}

struct Ty {
    name: &'static str,
    size: u128,
    make: fn() -> Box<dyn Dyn>,
    /// Text of a value, as `Debug` gives it.
    show: Option<fn(u128) -> String>,
}

macro_rules! list {
    ($($t:ty;)*) => { vec![$(Ty {
        name: stringify!($t),
        size: <$t as Model>::size(),
        make: || Box::new(It { it: <$t as Ordinal>::all_values(), rank: |v| Model::rank(v), text: Some(|it| format!("{it:?}")) }),
        show: Some(|r| format!("{:?}", <$t as Model>::make(r))),
    }),*] };
}

fn types() -> Vec<Ty> {
    #[allow(unused_mut)]
    let mut v = list! {
        bool; (); Ord3; char; u8; i8; u16; i16; Never;
        NonZeroU8; NonZeroI8; NonZeroU16; NonZeroI16; NonZeroU32; NonZeroI32; NonZeroUsize; NonZeroIsize;
        Option<bool>; Option<Never>; Option<char>; Result<bool, Ord3>; Result<Never, u8>; Either<bool, u8>; Either<Never, Never>; Box<u8>; Box<(bool, Ord3)>;
        [bool; 0]; [bool; 4]; [Ord3; 3]; [Never; 2]; [u8; 2]; (bool,); (u8, bool); (Ord3, bool, Ord3); (Never, bool); ((), ()); (bool, bool, bool, bool, bool, bool, bool, bool, bool, Ord3);
        Key<0>; Key<1>; Key<2>; Key<3>; Key<64>; Key<1000>; Key<65537>; Key<{ usize::MAX }>; Key<{ usize::MAX - 1 }>; Key<{ usize::MAX / 2 + 1 }>;
    };
    #[cfg(target_pointer_width = "64")]
    v.extend(list! { u32; i32; NonZeroU64; NonZeroI64; Option<u32>; (u32, bool); (i32, NonZeroI32); Result<u32, i32>; [bool; 63]; [u8; 7]; Key<4294967296>; Key<4294967297>; });
    v
}

/// What remains: ranks `lo..hi`.
struct State {
    lo: u128,
    hi: u128,
    size: u128,
}

fn text_check(t: &Ty, it: &dyn Dyn, s: &State, case: &mut Case) {
    let Some(text) = it.debug() else { return };
    let show = t.show.unwrap();
    case.count("debug texts");
    if s.lo == s.hi {
        // No value may be shown: nothing remains.
        let named = |r: u128| s.size > 0 && r < s.size && words(&show(r)).iter().any(|w| words(&text).contains(w));
        check!(
            !named(s.size.wrapping_sub(1)) && !named(0),
            "{}: Debug of an empty iterator is {text}",
            t.name
        );
        return;
    }
    let first = show(s.lo);
    let last = show(s.hi - 1);
    let w = words(&text);
    let wf = words(&first);
    let wl = words(&last);
    check!(
        w.starts_with(&wf),
        "{}: Debug is {text}, the first remaining value is {first}",
        t.name
    );
    if s.hi < s.size {
        check!(
            w.ends_with(&wl),
            "{}: Debug is {text}, the last remaining value is {last}",
            t.name
        );
    }
    // Nothing but the two ends.
    let rest = &w[wf.len()..];
    check!(
        rest.is_empty() || rest == &wl[..],
        "{}: Debug is {text} with {first} to {last} remaining",
        t.name
    );
    if s.hi - s.lo == 1 && s.hi < s.size {
        check!(
            rest.is_empty() || rest == &wl[..],
            "{}: Debug is {text}, only {first} remains",
            t.name
        );
    }
}

/// Words of a Debug text: identifiers and (negative) numbers, char literals whole.
fn words(s: &str) -> Vec<String> {
    let mut v = Vec::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '\'' {
            let mut j = i + 1;
            while j < cs.len() && (cs[j] != '\'' || j == i + 1) {
                j += if cs[j] == '\\' { 2 } else { 1 };
            }
            v.push(cs[i..(j + 1).min(cs.len())].iter().collect());
            i = j + 1;
        } else if cs[i].is_alphanumeric() || (cs[i] == '-' && i + 1 < cs.len() && cs[i + 1].is_ascii_digit()) {
            let mut j = i + 1;
            while j < cs.len() && (cs[j].is_alphanumeric() || cs[j] == '_') {
                j += 1;
            }
            v.push(cs[i..j].iter().collect());
            i = j;
        } else {
            i += 1;
        }
    }
    v
}

fn len_check(it: &dyn Dyn, s: &State, case: &mut Case) {
    let n = s.hi - s.lo;
    check_eq!(it.len() as u128, n, "len()");
    check_eq!(it.size_hint(), (n as usize, Some(n as usize)), "size_hint()");
    case.count("length checks");
}

/// How many to pass over: any number of a few values, not too far into many.
fn skip(rng: &mut Rng, n: u128) -> usize {
    if n <= 5000 {
        skip_amount(rng, n as usize)
    } else if !harness::mon::small() && rng.chance(1, 80) {
        // Past any sixteen-bit count.
        rng.range(65_530, 66_600)
    } else {
        rng.below(if harness::mon::small() { 300 } else { 2000 })
    }
}

fn walk(rng: &mut Rng, case: &mut Case, t: &Ty, mut it: Box<dyn Dyn>, mut s: State, depth: usize) {
    let steps = rng.range(0, if harness::mon::small() { 6 } else { 40 });
    let style = rng.below(4);
    len_check(&*it, &s, case);
    for _ in 0..steps {
        let n = s.hi - s.lo;
        let o = match style {
            0 => rng.below(2),
            _ => rng.below(10),
        };
        match o {
            0 => {
                let e = (n > 0).then(|| s.lo);
                s.lo += e.is_some() as u128;
                op!("next() -> {e:?}");
                check_eq!(it.next(), e, "{}: next()", t.name);
                case.obs(e.unwrap_or(u128::MAX) as u64);
            }
            1 => {
                let e = (n > 0).then(|| s.hi - 1);
                s.hi -= e.is_some() as u128;
                op!("next_back() -> {e:?}");
                check_eq!(it.next_back(), e, "{}: next_back()", t.name);
                case.obs(e.unwrap_or(u128::MAX) as u64);
            }
            2 | 3 => {
                // Skipping may visit what it skips.
                let k = skip(rng, n);
                let e = ((k as u128) < n).then(|| s.lo + k as u128);
                s.lo = e.map_or(s.hi, |e| e + 1);
                op!("nth({k}) -> {e:?}");
                check_eq!(it.nth(k), e, "{}: nth({k})", t.name);
                case.obs(e.unwrap_or(u128::MAX) as u64);
            }
            4 | 5 => {
                let k = skip(rng, n);
                let e = ((k as u128) < n).then(|| s.hi - 1 - k as u128);
                s.hi = e.unwrap_or(s.lo);
                op!("nth_back({k}) -> {e:?}");
                check_eq!(it.nth_back(k), e, "{}: nth_back({k})", t.name);
                case.obs(e.unwrap_or(u128::MAX) as u64);
            }
            6 => {
                let back = rng.chance(1, 2);
                let stop = rng.below(6);
                let mut seen = Vec::new();
                let found = it.any(back, &mut |r| {
                    seen.push(r);
                    seen.len() > stop
                });
                let m = (stop as u128 + 1).min(n);
                let e: Vec<u128> = (0..m).map(|i| if back { s.hi - 1 - i } else { s.lo + i }).collect();
                op!("any() up to {} from the {}", m, if back { "back" } else { "front" });
                check_eq!(seen, e, "{}: values visited by any()", t.name);
                check_eq!(found, n > stop as u128, "{}: any()", t.name);
                if back {
                    s.hi -= m;
                } else {
                    s.lo += m;
                }
            }
            7 => {
                if depth < 2 {
                    op!("clone, walk it");
                    walk(rng, case, t, it.dup(), State { lo: s.lo, hi: s.hi, size: s.size }, depth + 1);
                    op!("back to the original");
                    case.count("clones walked");
                }
            }
            8 => text_check(t, &*it, &s, case),
            _ => len_check(&*it, &s, case),
        }
        if rng.chance(1, 3) {
            len_check(&*it, &s, case);
        }
        case.count("steps");
    }
    text_check(t, &*it, &s, case);
    len_check(&*it, &s, case);
    let n = s.hi - s.lo;
    match rng.below(4) {
        0 => {
            op!("count()");
            check_eq!(it.count() as u128, n, "{}: count()", t.name);
        }
        1 => {
            op!("last()");
            check_eq!(it.last(), (n > 0).then(|| s.hi - 1), "{}: last()", t.name);
        }
        2 if n < 3000 => {
            op!("to the end");
            while s.lo < s.hi {
                if rng.chance(1, 2) {
                    check_eq!(it.next(), Some(s.lo), "{}: next()", t.name);
                    s.lo += 1;
                } else {
                    check_eq!(it.next_back(), Some(s.hi - 1), "{}: next_back()", t.name);
                    s.hi -= 1;
                }
                case.count("steps");
            }
            for _ in 0..3 {
                check_eq!(it.next(), None, "{}: next() at the end", t.name);
                check_eq!(it.next_back(), None, "{}: next_back() at the end", t.name);
                check_eq!(it.nth(1), None, "{}: nth() at the end", t.name);
                check_eq!(it.nth_back(1), None, "{}: nth_back() at the end", t.name);
                len_check(&*it, &s, case);
                text_check(t, &*it, &s, case);
            }
            check_eq!(it.dup().last(), None, "{}: last() at the end", t.name);
            check_eq!(it.count(), 0, "{}: count() at the end", t.name);
            case.count("walked to the end");
        }
        _ => {}
    }
}

fn keys<K: TestKey + 'static>() -> (usize, fn() -> BoxIt<'static>) {
    (K::N, || wrap_clone_exact(K::all_values(), |k: K| (k.idx() as u64, NO)))
}

fn main() {
    let ctx = Ctx::from_args();
    let all = types();
    let n = all.len();
    ctx.sample(format!("{n} types"));
    let rounds = ctx.n(120, 6_000);
    ctx.cases("walks over the values of a type", n * rounds, |rng, case| {
        let t = &all[case.index % n];
        op!("{}::all_values(), {} values", t.name, t.size);
        case.obs(case.index as u64 % n as u64);
        if t.size > 0 {
            case.mark();
        }
        walk(rng, case, t, (t.make)(), State { lo: 0, hi: t.size, size: t.size }, 0);
    });
    // Every method of the iterator interface.
    let kinds: Vec<(usize, fn() -> BoxIt<'static>)> = vec![
        keys::<Key<0>>(),
        keys::<Key<1>>(),
        keys::<Key<2>>(),
        keys::<Key<5>>(),
        keys::<Key<70>>(),
        keys::<OKey<6>>(),
        keys::<bool>(),
        keys::<u8>(),
        keys::<i8>(),
        keys::<Box<u8>>(),
        keys::<()>(),
        keys::<Never>(),
        keys::<Option<bool>>(),
        keys::<(bool, Option<bool>)>(),
        keys::<harness::keys::Color>(),
        keys::<harness::keys::Mixed>(),
        keys::<NonZeroI8>(),
        keys::<u16>(),
    ];
    let m = kinds.len();
    let rounds = ctx.n(150, 8_000);
    ctx.cases("iterator interface", m * rounds, |rng, case| {
        let (n, make) = kinds[case.index % m];
        if n > 1000 && !rng.chance(1, 20) {
            return;
        }
        let q = (0..n).map(|i| -> Obs { (i as u64, NO) }).collect();
        case.obs(n as u64);
        if n > 0 {
            case.mark();
        }
        drive(rng, case, "all_values", make(), q, &How { exact_hint: true });
    });
    let n = ctx.n(200, 10_000);
    ordm::values::<0>(&ctx, n / 10);
    ordm::values::<1>(&ctx, n / 10);
    ordm::values::<2>(&ctx, n);
    ordm::values::<7>(&ctx, n);
    ordm::values::<64>(&ctx, n);
    ordm::values::<300>(&ctx, n / 4);
    ctx.finish();
}
