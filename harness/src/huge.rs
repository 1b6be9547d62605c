//! Containers over types of up to millions of values: a history touches few keys, chosen so
//! that any narrowing of an ordinal, a word index or a length makes two of them coincide.

use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::ops::Index;
use std::ops::IndexMut;

use ordinal_map::map::total::OrdinalTotalArrayMap;
use ordinal_map::map::total::OrdinalTotalMap;
use ordinal_map::map::OrdinalArrayMap;
use ordinal_map::map::OrdinalMap;
use ordinal_map::set::ordinal_array_set_s;
use ordinal_map::set::OrdinalArraySet;
use ordinal_map::set::OrdinalSet;
use ordinal_map::Ordinal;

use crate::check_eq;
use crate::heap::AnySet;
use crate::keys::Key;
use crate::keys::TestKey;
use crate::maps::Sparse;
use crate::maps::Total;
use crate::mon::Case;
use crate::mon::Ctx;
use crate::op;
use crate::rng::Rng;

/// Keys near each other, and keys a power of two (or a word count of one) apart.
fn places(rng: &mut Rng, n: usize) -> Vec<usize> {
    let mut v = Vec::new();
    for _ in 0..rng.range(1, 3) {
        let base = match rng.below(4) {
            0 => rng.below(n.min(200)),
            1 => n - 1 - rng.below(n.min(200)),
            _ => rng.below(n),
        };
        v.push(base);
        for b in 0..usize::BITS {
            let d = 1usize << b;
            if d >= n {
                break;
            }
            for k in [d, d - 1, d + 1, d.wrapping_mul(3)] {
                for x in [base.wrapping_add(k), base.wrapping_sub(k)] {
                    if x < n {
                        v.push(x);
                    }
                }
            }
            v.extend([d, d - 1].iter().filter(|x| **x < n));
        }
    }
    v.push(0);
    v.push(n - 1);
    v
}

pub fn set<S: AnySet>(rng: &mut Rng, case: &mut Case) {
    let n = S::T::N;
    let mut s = S::make();
    let mut model = BTreeSet::new();
    let ps = places(rng, n);
    for _ in 0..rng.range(1, 40) {
        let i = *rng.pick(&ps);
        op!("insert({i}) of {n}");
        check_eq!(s.insert(S::T::at(i)), model.insert(i), "insert({i}) into a set of {n} values");
        case.obs(i as u64);
        if rng.chance(1, 8) {
            probe_set(rng, case, &s, &model, &ps);
        }
    }
    case.mark();
    probe_set(rng, case, &s, &model, &ps);
    if n <= 2_000_000 && case.index % 8 == 0 {
        // Everything, value by value.
        let mut want = model.iter().copied().peekable();
        for k in S::T::all_values() {
            let i = k.idx();
            let e = want.next_if_eq(&i).is_some();
            check_eq!(s.contains(&k), e, "contains({i}) of {n} values");
        }
        check_eq!(want.next(), None, "values seen");
        case.add("lookups", n as u64);
        let c: S = model.iter().map(|i| S::T::at(*i)).collect();
        let texts = (format!("{s:?}"), format!("{c:?}"));
        check_eq!(texts.0, texts.1, "the text of the same set, collected");
        let want: Vec<String> = model.iter().map(|i| S::T::dbg(*i)).collect();
        check_eq!(texts.0, format!("{{{}}}", want.join(", ")), "the text of a set");
        if let Some((front, back)) = s.listed() {
            let want: Vec<usize> = model.iter().copied().collect();
            check_eq!(front, want, "elements of a set over {n} values");
            check_eq!(back, want, "elements of a set over {n} values, from the back");
        }
    }
}

fn probe_set<S: AnySet>(rng: &mut Rng, case: &mut Case, s: &S, model: &BTreeSet<usize>, ps: &[usize]) {
    for i in ps.iter().chain(model) {
        check_eq!(s.contains(&S::T::at(*i)), model.contains(i), "contains({i}) of {} values", S::T::N);
    }
    for _ in 0..20 {
        let i = rng.below(S::T::N);
        check_eq!(s.contains(&S::T::at(i)), model.contains(&i), "contains({i}) of {} values", S::T::N);
    }
    case.add("lookups", (ps.len() + model.len() + 20) as u64);
    case.events += (ps.len() + model.len() + 20) as u64;
}

/// Sparse maps from many keys to small numbers.
pub fn sparse<M: Sparse<V = u32>>(rng: &mut Rng, case: &mut Case) {
    let n = M::K::N;
    let mut m = M::make();
    let mut model: BTreeMap<usize, u32> = BTreeMap::new();
    let ps = places(rng, n);
    for step in 0..rng.range(1, 50) {
        let i = *rng.pick(&ps);
        let v = step as u32 * 1000 + rng.below(1000) as u32;
        let k = M::K::at(i);
        case.obs(i as u64);
        match rng.below(8) {
            0..=3 => {
                op!("insert({i}, {v}) of {n}");
                check_eq!(m.insert(k, v), model.insert(i, v), "insert({i}) into a map of {n} keys");
            }
            4 => {
                op!("remove({i}) of {n}");
                check_eq!(m.remove(&k), model.remove(&i), "remove({i}) from a map of {n} keys");
            }
            5 => {
                op!("entry({i}) of {n}");
                let g = {
                    let e = m.entry(k);
                    check_eq!(e.key().idx(), i, "key of an entry");
                    *e.or_insert(v)
                };
                check_eq!(g, *model.entry(i).or_insert(v), "or_insert({i}) in a map of {n} keys");
            }
            6 => {
                op!("get_mut({i}) of {n}");
                let g = m.get_mut(&k);
                check_eq!(g.as_deref(), model.get(&i), "get_mut({i}) in a map of {n} keys");
                if let Some(x) = g {
                    *x = v;
                    model.insert(i, v);
                }
            }
            _ => probe_sparse(case, &m, &model, &ps),
        }
    }
    case.mark();
    probe_sparse(case, &m, &model, &ps);
    if case.index % 8 == 0 {
        check_eq!(m.len(), model.len(), "len()");
        let got: Vec<(usize, u32)> = m.iter().map(|(k, v)| (k.idx(), *v)).collect();
        let want: Vec<(usize, u32)> = model.iter().map(|(k, v)| (*k, *v)).collect();
        check_eq!(got, want, "entries of a map of {n} keys");
        let mut back: Vec<(usize, u32)> = m.iter_mut().rev().map(|(k, v)| (k.idx(), *v)).collect();
        back.reverse();
        check_eq!(back, want, "entries of a map of {n} keys, from the back");
        let far: Vec<usize> = m.keys().rev().take(3).map(|k| k.idx()).collect();
        let e: Vec<usize> = model.keys().rev().take(3).copied().collect();
        check_eq!(far, e, "last keys of a map of {n} keys");
        let got: Vec<(usize, u32)> = m.into_it().map(|(k, v)| (k.idx(), v)).collect();
        check_eq!(got, want, "entries of a map of {n} keys, by value");
        case.add("full iterations", 3);
    }
}

fn probe_sparse<M: Sparse<V = u32>>(case: &mut Case, m: &M, model: &BTreeMap<usize, u32>, ps: &[usize]) {
    for i in ps.iter().chain(model.keys()) {
        let k = M::K::at(*i);
        check_eq!(m.get(&k), model.get(i), "get({i}) of {} keys", M::K::N);
        check_eq!(m.contains_key(&k), model.contains_key(i), "contains_key({i}) of {} keys", M::K::N);
    }
    case.add("lookups", 2 * ps.len() as u64);
    case.events += ps.len() as u64;
}

/// Total maps of many keys.
pub fn total<M: Total>(rng: &mut Rng, case: &mut Case)
where
    for<'a> M: IndexMut<&'a M::K> + Index<&'a M::K, Output = M::V>,
    M::V: Copy + PartialEq + From<u32>,
{
    let n = M::K::N;
    let salt = rng.u64() as u32;
    let first = |i: usize| M::V::from((i as u32).wrapping_mul(2_654_435_761) ^ salt);
    let mut calls = 0;
    let mut m = M::make(|k| {
        let i = k.idx();
        check_eq!(i, calls, "key given to the initialiser");
        calls += 1;
        first(i)
    });
    check_eq!(calls, n, "initialiser calls");
    check_eq!(m.len(), n, "len()");
    let mut model: BTreeMap<usize, M::V> = BTreeMap::new();
    let ps = places(rng, n);
    let holds = |model: &BTreeMap<usize, M::V>, i: usize| model.get(&i).copied().unwrap_or(first(i));
    for step in 0..rng.range(1, 30) as u32 {
        let i = *rng.pick(&ps);
        let k = M::K::at(i);
        let v = M::V::from(step);
        let e = holds(&model, i);
        case.obs(i as u64);
        match rng.below(3) {
            0 => {
                op!("insert({i}) of {n}");
                check_eq!(m.insert(k, v), e, "insert({i}) into a map of {n} keys");
            }
            1 => {
                op!("get_mut({i}) of {n}");
                let x = m.get_mut(&k);
                check_eq!(*x, e, "get_mut({i}) in a map of {n} keys");
                *x = v;
            }
            _ => {
                op!("[{i}] of {n}");
                check_eq!(m[&k], e, "[{i}] in a map of {n} keys");
                m[&k] = v;
            }
        }
        model.insert(i, v);
    }
    case.mark();
    for i in &ps {
        check_eq!(*m.get(&M::K::at(*i)), holds(&model, *i), "get({i}) of {n} keys");
    }
    for (at, (k, v)) in m.iter().enumerate() {
        if k.idx() != at || *v != holds(&model, at) {
            check_eq!((k.idx(), *v), (at, holds(&model, at)), "entry {at} of a map of {n} keys");
        }
    }
    let far: Vec<(usize, M::V)> = m.iter().rev().take(3).map(|(k, v)| (k.idx(), *v)).collect();
    let e: Vec<(usize, M::V)> = (0..n).rev().take(3).map(|i| (i, holds(&model, i))).collect();
    check_eq!(far, e, "last entries of a map of {n} keys");
    case.add("lookups", 2 * ps.len() as u64);
    case.add("full iterations", 2);
    case.events += ps.len() as u64 + n as u64;
}

macro_rules! groups {
    ($ctx:expr, $n:expr, $f:ident, [$($t:ty),* $(,)?]) => {
        $($ctx.cases(concat!("huge ", stringify!($t)), $n, |r, c| $f::<$t>(r, c));)*
    };
}

pub fn sets(ctx: &Ctx, n: usize) {
    groups!(ctx, n, set, [
        OrdinalSet<u16>,
        OrdinalArraySet<u16, { ordinal_array_set_s::<u16>() }>,
        OrdinalSet<Key<65_537>>,
        OrdinalSet<Key<70_000>>,
        OrdinalArraySet<Key<70_000>, { ordinal_array_set_s::<Key<70_000>>() }>,
        OrdinalSet<Key<131_073>>,
        OrdinalArraySet<Key<200_001>, { ordinal_array_set_s::<Key<200_001>>() }>,
        OrdinalSet<char>,
        OrdinalArraySet<char, { ordinal_array_set_s::<char>() }>,
    ]);
    // Storage the operating system provides on touch; looked up but never swept.
    #[cfg(all(target_pointer_width = "64", not(miri)))]
    groups!(ctx, n / 2, set, [
        OrdinalSet<(u8, u16)>,
        OrdinalSet<Key<{ (1 << 24) + 1 }>>,
        OrdinalSet<u32>,
        OrdinalSet<Key<{ u32::MAX as usize + 70 }>>,
    ]);
}

pub fn sparses(ctx: &Ctx, n: usize) {
    groups!(ctx, n, sparse, [
        OrdinalMap<u16, u32>,
        OrdinalMap<Key<65_537>, u32>,
        OrdinalMap<Key<70_000>, u32>,
        OrdinalMap<Key<131_073>, u32>,
        OrdinalMap<char, u32>,
        OrdinalArrayMap<Key<65_540>, u32, 65_540>,
        OrdinalArrayMap<Key<140_000>, u32, 140_000>,
    ]);
}

pub fn totals(ctx: &Ctx, n: usize) {
    groups!(ctx, n, total, [
        OrdinalTotalMap<u16, u32>,
        OrdinalTotalMap<Key<65_537>, u32>,
        OrdinalTotalMap<Key<70_000>, u32>,
        OrdinalTotalMap<Key<131_073>, u32>,
        OrdinalTotalMap<char, u32>,
        OrdinalTotalArrayMap<Key<65_540>, u32, 65_540>,
        OrdinalTotalArrayMap<Key<140_000>, u32, 140_000>,
    ]);
}
