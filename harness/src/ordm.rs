//! The methods of an iterator that look at the items themselves: comparisons,
//! extremes, sortedness, partitions. The key types order their values otherwise
//! than their ordinals do, so that knowing the ordinals is no substitute for
//! comparing the items.
use std::cmp::Ordering;
use std::collections::VecDeque;
use std::fmt::Debug;

use ordinal_map::map::total::OrdinalTotalArrayMap;
use ordinal_map::map::total::OrdinalTotalMap;
use ordinal_map::map::OrdinalArrayMap;
use ordinal_map::map::OrdinalMap;
use ordinal_map::set::OrdinalSet;
use ordinal_map::set::OrdinalSet64;
use ordinal_map::Ordinal;

use crate::check;
use crate::check_eq;
use crate::mon::Case;
use crate::mon::Ctx;
use crate::op;
use crate::rng::Rng;

/// `N` values in an order of their own: evens before odds, each descending.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Odd<const N: usize>(pub usize);

impl<const N: usize> Ordinal for Odd<N> {
    const ORDINAL_SIZE: usize = N;
    fn ordinal(&self) -> usize {
        self.0
    }
    fn from_ordinal(o: usize) -> Option<Self> {
        (o < N).then_some(Odd(o))
    }
}

impl<const N: usize> Ord for Odd<N> {
    fn cmp(&self, o: &Self) -> Ordering {
        (self.0 % 2, o.0).cmp(&(o.0 % 2, self.0))
    }
}

impl<const N: usize> PartialOrd for Odd<N> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}

/// An iterator that uses only `next` and `next_back` of the library: what the
/// other methods are defined by.
struct Steps<I>(I);

impl<I: Iterator> Iterator for Steps<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}

fn rest<I: Iterator + Clone>(it: &I) -> VecDeque<I::Item> {
    Steps(it.clone()).collect()
}

/// Every method against the same method of a deque with the same items.
fn methods<I>(rng: &mut Rng, case: &mut Case, name: &str, mut it: I, key: impl Fn(&I::Item) -> usize)
where
    I: DoubleEndedIterator + Clone,
    I::Item: Ord + Clone + Debug,
{
    let other = it.clone();
    let q = rest(&it);
    let n = q.len();
    let (mut front, mut back) = (0, 0);
    if rng.chance(2, 3) {
        front = rng.below(n + 1).min(rng.below(n + 1));
        back = rng.below(n - front + 1).min(rng.below(n - front + 1));
    }
    for _ in 0..front {
        it.next();
    }
    for _ in 0..back {
        it.next_back();
    }
    let q: VecDeque<I::Item> = q.range(front..n - back).cloned().collect();
    op!("{name}: {front} taken from the front, {back} from the back, {} left", q.len());
    let i = || it.clone();
    let e = || q.iter().cloned();
    check_eq!(i().max(), e().max(), "{name}: max()");
    check_eq!(i().min(), e().min(), "{name}: min()");
    check_eq!(i().rev().max(), e().rev().max(), "{name}: rev().max()");
    check_eq!(i().rev().min(), e().rev().min(), "{name}: rev().min()");
    let m = rng.range(2, 9);
    let k = |x: &I::Item| key(x) * 7 % m;
    check_eq!(i().max_by_key(k), e().max_by_key(k), "{name}: max_by_key()");
    check_eq!(i().min_by_key(k), e().min_by_key(k), "{name}: min_by_key()");
    let by = |a: &I::Item, b: &I::Item| k(a).cmp(&k(b));
    check_eq!(i().max_by(by), e().max_by(by), "{name}: max_by()");
    check_eq!(i().min_by(by), e().min_by(by), "{name}: min_by()");
    check_eq!(i().is_sorted(), e().is_sorted(), "{name}: is_sorted()");
    check_eq!(i().is_sorted_by_key(|x| key(&x)), e().is_sorted_by_key(|x| key(&x)), "{name}: is_sorted_by_key()");
    check_eq!(i().is_sorted_by(|a, b| key(a) > key(b)), e().is_sorted_by(|a, b| key(a) > key(b)), "{name}: is_sorted_by()");
    check_eq!(
        i().reduce(|a, b| if key(&a) % m > key(&b) % m { a } else { b }),
        e().reduce(|a, b| if key(&a) % m > key(&b) % m { a } else { b }),
        "{name}: reduce()"
    );
    let p = |x: &I::Item| key(x) % m == 0;
    let (g0, g1): (Vec<_>, Vec<_>) = i().partition(p);
    let (e0, e1): (Vec<_>, Vec<_>) = e().partition(p);
    check_eq!((g0, g1), (e0, e1), "{name}: partition()");
    check_eq!(i().all(|x| p(&x)), e().all(|x| p(&x)), "{name}: all()");
    check_eq!(i().find(p), e().find(p), "{name}: find()");
    check_eq!(i().rfind(p), e().rfind(p), "{name}: rfind()");
    check_eq!(i().position(|x| p(&x)), e().position(|x| p(&x)), "{name}: position()");
    // Comparisons with what is left of another walk over the same things.
    let mut o = other;
    for _ in 0..rng.below(3) {
        o.next();
    }
    for _ in 0..rng.below(3) {
        o.next_back();
    }
    let r = rest(&o);
    let l = || r.iter().cloned();
    check_eq!(i().cmp(o.clone()), e().cmp(l()), "{name}: cmp()");
    check_eq!(i().partial_cmp(o.clone()), e().partial_cmp(l()), "{name}: partial_cmp()");
    check_eq!(i().eq(o.clone()), e().eq(l()), "{name}: eq()");
    check_eq!(i().ne(o.clone()), e().ne(l()), "{name}: ne()");
    check_eq!(i().lt(o.clone()), e().lt(l()), "{name}: lt()");
    check_eq!(i().le(o.clone()), e().le(l()), "{name}: le()");
    check_eq!(i().gt(o.clone()), e().gt(l()), "{name}: gt()");
    check_eq!(i().ge(o.clone()), e().ge(l()), "{name}: ge()");
    check!(i().eq(e()), "{name}: eq() with the items themselves");
    // By reference: the adaptors take what they say and leave the rest.
    let mut a = i();
    let t = rng.below(q.len() + 2);
    let g: Vec<_> = a.by_ref().take(t).collect();
    check_eq!(g, e().take(t).collect::<Vec<_>>(), "{name}: by_ref().take({t})");
    check_eq!(Vec::from(rest(&a)), e().skip(t).collect::<Vec<_>>(), "{name}: the rest after take({t})");
    let mut a = i();
    let g: Vec<_> = a.by_ref().rev().take(t).collect();
    check_eq!(g, e().rev().take(t).collect::<Vec<_>>(), "{name}: by_ref().rev().take({t})");
    check_eq!(rest(&a).len(), q.len().saturating_sub(t), "{name}: the rest after rev().take({t})");
    let both: Vec<_> = i().zip(o.clone()).map(|(a, b)| (key(&a), key(&b))).collect();
    let want: Vec<_> = e().zip(l()).map(|(a, b)| (key(&a), key(&b))).collect();
    check_eq!(both, want, "{name}: zip()");
    let g: Vec<_> = i().chain(o.clone()).map(|x| key(&x)).collect();
    let w: Vec<_> = e().chain(l()).map(|x| key(&x)).collect();
    check_eq!(g, w, "{name}: chain()");
    case.count("iterators compared");
    case.add("items compared", q.len() as u64);
}

fn subset(rng: &mut Rng, n: usize) -> Vec<usize> {
    let d = *rng.pick(&[1, 2, 5, 10]);
    let mut v: Vec<usize> = (0..n).filter(|_| rng.below(10) < d).collect();
    for i in (1..v.len()).rev() {
        v.swap(i, rng.below(i + 1));
    }
    v
}

pub fn values<const N: usize>(ctx: &Ctx, n: usize) {
    ctx.cases(&format!("items of all_values, {N} values"), n, |rng, case| {
        methods(rng, case, "all_values()", Odd::<N>::all_values(), |k| k.0);
    });
}

pub fn sets<const N: usize>(ctx: &Ctx, n: usize) {
    ctx.cases(&format!("items of sets, {N} values"), n, |rng, case| {
        let xs = subset(rng, N);
        op!("elements {xs:?}");
        let s: OrdinalSet<Odd<N>> = xs.iter().map(|&x| Odd(x)).collect();
        methods(rng, case, "OrdinalSet", s.iter(), |k| k.0);
    });
}

pub fn sets64<const N: usize>(ctx: &Ctx, n: usize) {
    ctx.cases(&format!("items of single-word sets, {N} values"), n, |rng, case| {
        let xs = subset(rng, N);
        op!("elements {xs:?}");
        let s: OrdinalSet64<Odd<N>> = xs.iter().map(|&x| Odd(x)).collect();
        methods(rng, case, "OrdinalSet64", s.iter(), |k| k.0);
    });
}

pub fn maps<const N: usize>(ctx: &Ctx, n: usize) {
    ctx.cases(&format!("items of maps, {N} keys"), n, |rng, case| {
        let xs = subset(rng, N);
        let f = rng.below(1000);
        let val = |x: usize| Odd::<64>((x * 37 + f) % 64);
        op!("keys {xs:?}");
        let m: OrdinalMap<Odd<N>, Odd<64>> = xs.iter().map(|&x| (Odd(x), val(x))).collect();
        methods(rng, case, "OrdinalMap::iter", m.iter(), |k| k.0 .0);
        methods(rng, case, "OrdinalMap::keys", m.keys(), |k| k.0);
        methods(rng, case, "OrdinalMap::values", m.values(), |k| k.0);
        methods(rng, case, "OrdinalMap::into_iter", m.into_iter(), |k| k.0 .0);
        let m: OrdinalArrayMap<Odd<N>, Odd<64>, N> = xs.iter().map(|&x| (Odd(x), val(x))).collect();
        methods(rng, case, "OrdinalArrayMap::iter", m.iter(), |k| k.0 .0);
        methods(rng, case, "OrdinalArrayMap::keys", m.keys(), |k| k.0);
        methods(rng, case, "OrdinalArrayMap::values", m.values(), |k| k.0);
        methods(rng, case, "OrdinalArrayMap::into_iter", m.into_iter(), |k| k.0 .0);
        let m: OrdinalTotalMap<Odd<N>, Odd<64>> = OrdinalTotalMap::new(|k: Odd<N>| val(k.0));
        methods(rng, case, "OrdinalTotalMap::iter", m.iter(), |k| k.0 .0);
        methods(rng, case, "OrdinalTotalMap::keys", m.keys(), |k| k.0);
        methods(rng, case, "OrdinalTotalMap::into_iter", m.clone().into_iter(), |k| k.0 .0);
        methods(rng, case, "OrdinalTotalMap::into_keys", m.into_keys(), |k| k.0);
        let m: OrdinalTotalArrayMap<Odd<N>, Odd<64>, N> = OrdinalTotalArrayMap::new(|k: Odd<N>| val(k.0));
        methods(rng, case, "OrdinalTotalArrayMap::iter", m.iter(), |k| k.0 .0);
        methods(rng, case, "OrdinalTotalArrayMap::keys", m.keys(), |k| k.0);
        methods(rng, case, "OrdinalTotalArrayMap::into_iter", m.clone().into_iter(), |k| k.0 .0);
        methods(rng, case, "OrdinalTotalArrayMap::into_keys", m.into_keys(), |k| k.0);
    });
}
