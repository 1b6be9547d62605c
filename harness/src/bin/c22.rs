//! C22: containers read by many threads at once, moved between threads, and used through
//! disjoint mutable views.
//!
//! Run under ThreadSanitizer and Miri for races; natively for the results.
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::num::NonZeroI8;
use std::panic::resume_unwind;
use std::sync::atomic::AtomicBool;
use std::sync::atomic::AtomicU64;
use std::sync::atomic::AtomicUsize;
use std::sync::atomic::Ordering::*;
use std::sync::Arc;
use std::sync::Mutex;
use std::thread;

use harness::check;
use harness::check_eq;
use harness::heap::AnySet;
use harness::keys::Color;
use harness::keys::Key;
use harness::keys::Mixed;
use harness::keys::TestKey;
use harness::maps::size;
use harness::maps::Sparse;
use harness::maps::Total;
use harness::mon;
use harness::mon::Case;
use harness::mon::Ctx;
use harness::op;
use harness::rng::hash_str;
use harness::rng::mix;
use harness::rng::Rng;
use harness::vals::TestVal;
use ordinal_map::map::total::OrdinalTotalArrayMap;
use ordinal_map::map::total::OrdinalTotalMap;
use ordinal_map::map::Entry;
use ordinal_map::map::OrdinalArrayMap;
use ordinal_map::map::OrdinalMap;
use ordinal_map::set::ordinal_array_set_s;
use ordinal_map::set::OrdinalArraySet;
use ordinal_map::set::OrdinalSet;
use ordinal_map::set::OrdinalSet64;
use ordinal_map::AtomicOrdinal;
use ordinal_map::Ordinal;

/// Hash of a sequence.
#[derive(Default)]
struct Seen(u64);

impl Seen {
    fn add(&mut self, x: u64) {
        self.0 = mix(self.0 ^ x).wrapping_add(x);
    }
}

/// Uses an iterator from both ends, hashing what it yields.
fn walk<I: DoubleEndedIterator>(r: &mut Rng, mut it: I, f: impl Fn(I::Item) -> u64) -> u64 {
    let mut h = Seen::default();
    match r.below(6) {
        0 => it.for_each(|x| h.add(f(x))),
        1 => it.rev().for_each(|x| h.add(f(x))),
        2 => h.add(it.count() as u64),
        3 => {
            h.add(it.nth(r.below(4)).map_or(7, &f));
            h.add(it.nth_back(r.below(4)).map_or(7, &f));
            h.add(it.last().map_or(7, &f));
        }
        _ => loop {
            let x = if r.chance(1, 2) { it.next() } else { it.next_back() };
            match x {
                Some(x) => h.add(f(x)),
                None => break,
            }
            if r.chance(1, 30) {
                break;
            }
        },
    }
    h.0
}

fn pair<K: TestKey, V: TestVal>((k, v): (K, &V)) -> u64 {
    mix(k.idx() as u64 + 1) ^ v.rd()
}

fn any<K: TestKey>(r: &mut Rng) -> Option<K> {
    (K::N > 0).then(|| K::at(r.below(K::N)))
}

// ---------------------------------------------------------------- readings

fn see_sparse<M: Sparse>(m: &M, r: &mut Rng) -> u64
where
    M::V: TestVal,
{
    match r.below(11) {
        0 | 1 => any::<M::K>(r).map_or(1, |k| m.get(&k).map_or(2, |v| v.rd())),
        2 => any::<M::K>(r).map_or(1, |k| m.contains_key(&k) as u64),
        3 => m.len() as u64 * 2 + m.is_empty() as u64,
        4 => walk(r, m.iter(), pair),
        5 => walk(r, m.ref_iter(), pair),
        6 => walk(r, m.keys(), |k| k.idx() as u64),
        7 => walk(r, m.values(), |v| v.rd()),
        8 => hash_str(&if r.chance(1, 2) { format!("{m:?}") } else { format!("{m:#?}") }),
        9 => {
            let mut c = m.clone();
            if let Some(k) = any::<M::K>(r) {
                c.insert(k, M::V::mk(77));
            }
            walk(r, c.into_it(), |(k, v)| pair((k, &v)))
        }
        _ => {
            let it = m.iter();
            let text = hash_str(&format!("{it:?}"));
            text ^ walk(r, it.clone(), pair) ^ walk(r, it, pair)
        }
    }
}

fn see_total<M: Total>(m: &M, r: &mut Rng) -> u64
where
    M::V: TestVal,
    for<'a> M: std::ops::IndexMut<&'a M::K> + std::ops::Index<&'a M::K, Output = M::V>,
{
    match r.below(11) {
        0 => any::<M::K>(r).map_or(1, |k| m.get(&k).rd()),
        1 => any::<M::K>(r).map_or(1, |k| m[&k].rd()),
        2 => m.len() as u64 * 2 + m.is_empty() as u64,
        3 => walk(r, m.iter(), pair),
        4 => walk(r, m.ref_iter(), pair),
        5 => walk(r, m.keys(), |k| k.idx() as u64),
        6 => walk(r, m.values(), |v| v.rd()),
        7 => hash_str(&if r.chance(1, 2) { format!("{m:?}") } else { format!("{m:#?}") }),
        8 => {
            let mut c = m.clone();
            if let Some(k) = any::<M::K>(r) {
                c.insert(k, M::V::mk(77));
            }
            walk(r, c.into_it(), |(k, v)| pair((k, &v)))
        }
        9 => m.clone().into_vals().iter().fold(0, |h, v| mix(h ^ v.rd())),
        _ => {
            let it = m.iter();
            let text = hash_str(&format!("{it:?}"));
            text ^ it.len() as u64 ^ walk(r, it.clone(), pair) ^ walk(r, it, pair)
        }
    }
}

fn see_set<S: AnySet>(s: &S, r: &mut Rng) -> u64 {
    match r.below(6) {
        0 | 1 => any::<S::T>(r).map_or(2, |k| s.contains(&k) as u64),
        2 => {
            let alt = r.chance(1, 2);
            s.walk(r, alt)
        }
        3 => hash_str(&if r.chance(1, 2) { format!("{s:?}") } else { format!("{s:#?}") }),
        4 => {
            let mut c = s.clone();
            let new = any::<S::T>(r).map_or(2, |k| c.insert(k) as u64);
            new ^ hash_str(&format!("{c:?}"))
        }
        _ => {
            let (a, b) = s.listed().unwrap_or_default();
            a.iter().chain(&b).fold(0, |h, x| mix(h ^ *x as u64))
        }
    }
}

/// What can be read without a container: the mapping itself.
fn see_values<T: TestKey>(_: &(), r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => walk(r, T::all_values(), |k| k.idx() as u64),
        1 => hash_str(&format!("{:?}", T::all_values())),
        2 => any::<T>(r).map_or(1, |k| k.ordinal() as u64),
        _ => {
            let i = r.below(T::N + 3);
            T::from_ordinal(i).map_or(u64::MAX, |k| k.idx() as u64)
        }
    }
}

fn see_atomic<T: TestKey>(a: &AtomicOrdinal<T>, r: &mut Rng) -> u64 {
    match r.below(3) {
        0 => a.load(Acquire).idx() as u64,
        1 => a.load(Relaxed).idx() as u64,
        _ => hash_str(&format!("{a:?}")),
    }
}

// ---------------------------------------------------------------- readers

/// One tick per start and end of an operation; relaxed, so that it orders nothing.
struct Clock {
    now: AtomicUsize,
    go: AtomicBool,
}

fn spin(r: &mut Rng) {
    if r.chance(1, 3) {
        for _ in 0..r.below(if cfg!(miri) { 3 } else { 200 }) {
            std::hint::spin_loop();
        }
    }
}

fn readers<C: Sync>(r: &mut Rng, case: &mut Case, what: &str, c: &C, see: fn(&C, &mut Rng) -> u64) {
    let threads = if cfg!(miri) { r.range(2, 3) } else { r.range(2, 6) };
    let n = if cfg!(miri) { r.range(3, 8) } else { r.range(5, 60) };
    let seeds: Vec<u64> = (0..n).map(|_| r.u64()).collect();
    let alone = || -> Vec<u64> { seeds.iter().map(|s| see(c, &mut Rng::new(*s))).collect() };
    // Half of the time nothing has been read before the threads do.
    let before = r.chance(1, 2).then(alone);
    op!("{threads} readers of {what}, {n} readings each");
    let clock = Clock { now: AtomicUsize::new(0), go: AtomicBool::new(false) };
    let starts: Vec<u64> = (0..threads).map(|_| r.u64()).collect();
    let seen: Vec<Vec<(usize, u64, usize, usize)>> = thread::scope(|scope| {
        let handles: Vec<_> = starts
            .iter()
            .map(|s| {
                let (clock, seeds) = (&clock, &seeds);
                scope.spawn(move || {
                    let mut r = Rng::new(*s);
                    let at = r.below(n);
                    while !clock.go.load(Relaxed) {
                        thread::yield_now();
                    }
                    let mut out = Vec::new();
                    for i in (at..n).chain(0..at) {
                        spin(&mut r);
                        let t0 = clock.now.fetch_add(1, Relaxed);
                        let x = see(c, &mut Rng::new(seeds[i]));
                        out.push((i, x, t0, clock.now.fetch_add(1, Relaxed)));
                    }
                    out
                })
            })
            .collect();
        clock.go.store(true, Relaxed);
        handles.into_iter().map(|h| h.join().unwrap_or_else(|p| resume_unwind(p))).collect()
    });
    let after = alone();
    if let Some(b) = before {
        check!(b == after, "{what}: reading changed what is read");
    }
    let mut order: Vec<(usize, usize)> = Vec::new();
    let mut overlaps = 0;
    for (t, xs) in seen.iter().enumerate() {
        for &(i, x, t0, t1) in xs {
            check!(
                x == after[i],
                "{what}: a reading by one of {threads} threads gave {x:x}, alone it gives {:x} (reading {i})",
                after[i]
            );
            overlaps += (t1 > t0 + 1) as u64;
            order.push((t0, t));
        }
    }
    order.sort();
    order.iter().for_each(|(_, t)| case.obs(*t as u64));
    after.iter().for_each(|x| case.obs(*x));
    case.add("readings by threads", (n * threads) as u64);
    case.add("readings that overlapped others", overlaps);
    if overlaps > 0 {
        case.mark();
    }
}

/// Some keys, with duplicates.
fn some<K: TestKey>(r: &mut Rng) -> Vec<usize> {
    if K::N == 0 {
        return Vec::new();
    }
    let n = *r.pick(&[0, 1, 2, 5, 20, 60]);
    (0..n).map(|_| r.below(K::N)).collect()
}

fn read_sparse<M: Sparse + Sync>(r: &mut Rng, case: &mut Case)
where
    M::V: TestVal,
{
    let mut m = M::make();
    for k in some::<M::K>(r) {
        m.insert(M::K::at(k), M::V::mk(r.u64()));
    }
    for k in some::<M::K>(r).into_iter().take(3) {
        m.remove(&M::K::at(k));
    }
    readers(r, case, M::NAME, &m, see_sparse::<M>);
    let it = m.iter();
    drop(it);
}

fn read_total<M: Total + Sync>(r: &mut Rng, case: &mut Case)
where
    M::V: TestVal,
    for<'a> M: std::ops::IndexMut<&'a M::K> + std::ops::Index<&'a M::K, Output = M::V>,
{
    let salt = r.u64();
    let m = M::make(|k| M::V::mk(mix(k.idx() as u64 ^ salt)));
    readers(r, case, M::NAME, &m, see_total::<M>);
}

fn read_set<S: AnySet + Sync>(r: &mut Rng, case: &mut Case) {
    let s: S = some::<S::T>(r).into_iter().map(S::T::at).collect();
    readers(r, case, S::NAME, &s, see_set::<S>);
}

fn read_values<T: TestKey>(r: &mut Rng, case: &mut Case) {
    readers(r, case, "the values", &(), see_values::<T>);
}

fn read_atomic<T: TestKey + Sync + Send>(r: &mut Rng, case: &mut Case) {
    let Some(k) = any::<T>(r) else { return };
    let a = AtomicOrdinal::new(k);
    readers(r, case, "an atomic cell", &a, see_atomic::<T>);
}

/// One iterator, read by reference and cloned by all threads.
fn read_iter<I, F>(r: &mut Rng, case: &mut Case, what: &str, it: I, f: F)
where
    I: DoubleEndedIterator + Clone + Debug + Sync,
    F: Fn(I::Item) -> u64 + Sync,
{
    let threads = 3;
    let mut it = it;
    for _ in 0..r.below(3) {
        it.next();
    }
    for _ in 0..r.below(2) {
        it.next_back();
    }
    let s = r.u64();
    let see = |it: &I| {
        let mut r = Rng::new(s);
        let (lo, hi) = it.size_hint();
        hash_str(&format!("{it:?}")) ^ walk(&mut r, it.clone(), &f) ^ mix((lo ^ hi.unwrap_or(0)) as u64)
    };
    let got: Vec<u64> = thread::scope(|scope| {
        let hs: Vec<_> = (0..threads).map(|_| scope.spawn(|| see(&it))).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|p| resume_unwind(p))).collect()
    });
    let want = see(&it);
    for g in got {
        check!(g == want, "{what}: another thread saw other items through a shared iterator");
        case.obs(g);
    }
    case.add("iterators shared", 1);
    case.mark();
}

// ---------------------------------------------------------------- moving

fn elsewhere<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    thread::scope(|s| s.spawn(f).join().unwrap_or_else(|p| resume_unwind(p)))
}

/// A map whose every stretch of operations runs in a thread of its own.
fn travel<M: Sparse + Send>(r: &mut Rng, case: &mut Case)
where
    M::K: Send,
    M::V: TestVal + Send,
{
    let mut m = M::make();
    let mut model: BTreeMap<usize, u64> = BTreeMap::new();
    for leg in 0..r.range(2, 4) {
        let s = r.u64();
        op!("leg {leg} of {}", M::NAME);
        (m, model) = elsewhere(move || {
            let mut r = Rng::new(s);
            for _ in 0..r.below(if cfg!(miri) { 8 } else { 40 }) {
                let Some(k) = any::<M::K>(&mut r) else { break };
                let i = k.idx();
                let x = r.u64();
                match r.below(6) {
                    0 | 1 => check_eq!(
                        m.insert(k, M::V::mk(x)).map(|v| v.rd()),
                        model.insert(i, M::V::norm(x)),
                        "insert in another thread"
                    ),
                    2 => check_eq!(m.remove(&k).map(|v| v.rd()), model.remove(&i), "remove in another thread"),
                    3 => check_eq!(m.get(&k).map(|v| v.rd()), model.get(&i).copied(), "get in another thread"),
                    4 => {
                        m.entry(k).or_insert(M::V::mk(x));
                        model.entry(i).or_insert(M::V::norm(x));
                    }
                    _ => {
                        if let Some(v) = m.get_mut(&k) {
                            v.wr(x);
                            model.insert(i, M::V::norm(x));
                        }
                    }
                }
            }
            (m, model)
        });
        let got: Vec<(usize, u64)> = m.iter().map(|(k, v)| (k.idx(), v.rd())).collect();
        let want: Vec<(usize, u64)> = model.iter().map(|(k, v)| (*k, *v)).collect();
        check_eq!(got, want, "what a map holds after another thread had it");
        case.obs(got.len() as u64);
        got.iter().for_each(|x| case.obs(x.1));
        case.count("maps moved");
    }
    case.mark();
}

fn travel_set<S: AnySet + Send>(r: &mut Rng, case: &mut Case)
where
    S::T: Send,
{
    let mut set = S::make();
    let mut model = std::collections::BTreeSet::new();
    for _ in 0..r.range(2, 4) {
        let s = r.u64();
        (set, model) = elsewhere(move || {
            let mut r = Rng::new(s);
            for _ in 0..r.below(12) {
                let Some(k) = any::<S::T>(&mut r) else { break };
                let i = k.idx();
                if r.chance(1, 2) {
                    check_eq!(set.insert(k), model.insert(i), "insert in another thread");
                } else {
                    check_eq!(set.contains(&k), model.contains(&i), "contains in another thread");
                }
            }
            (set, model)
        });
        if let Some((a, b)) = set.listed() {
            let want: Vec<usize> = model.iter().copied().collect();
            check_eq!(a, want, "what a set holds after another thread had it");
            check_eq!(b, want, "what a set holds, from the back, after another thread had it");
        }
        case.obs(model.len() as u64);
        case.count("sets moved");
    }
    case.mark();
}

/// An iterator used a little here, a little there, against the items it should give.
fn relay<I, X>(r: &mut Rng, case: &mut Case, what: &str, it: I, want: Vec<u64>, read: fn(&X) -> u64)
where
    I: DoubleEndedIterator<Item = X> + Send,
    X: Send,
{
    let mut it = it;
    let mut want = std::collections::VecDeque::from(want);
    let mut kept = Vec::new();
    for leg in 0..r.range(1, 4) {
        let s = r.u64();
        op!("leg {leg} of {what}");
        (it, want, kept) = elsewhere(move || {
            let mut r = Rng::new(s);
            for _ in 0..r.below(6) {
                let (x, w) = if r.chance(1, 2) {
                    (it.next(), want.pop_front())
                } else {
                    (it.next_back(), want.pop_back())
                };
                check_eq!(x.as_ref().map(read), w, "an item of {what} in another thread");
                kept.extend(x);
            }
            (it, want, kept)
        });
        case.obs(want.len() as u64);
    }
    if r.chance(1, 2) {
        elsewhere(move || {
            let rest: Vec<u64> = it.map(|x| read(&x)).collect();
            check_eq!(rest, Vec::from(want), "the rest of {what} in another thread");
        });
    } else {
        // Dropped unfinished, there or here.
        elsewhere(move || drop(kept));
        if r.chance(1, 2) {
            elsewhere(move || drop(it));
        }
    }
    case.count("iterators moved");
    case.mark();
}

// ---------------------------------------------------------------- disjoint views

/// Values behind mutable references, written by one thread each at the same time.
fn write_all<V: TestVal + Send>(r: &mut Rng, views: Vec<(usize, &mut V)>) -> BTreeMap<usize, u64> {
    let threads = r.range(2, 4);
    let salt = r.u64();
    let mut parts: Vec<Vec<(usize, &mut V)>> = (0..threads).map(|_| Vec::new()).collect();
    let mut want = BTreeMap::new();
    for (i, v) in views {
        want.insert(i, V::norm(mix(salt ^ i as u64)));
        parts[r.below(threads)].push((i, v));
    }
    thread::scope(|s| {
        let hs: Vec<_> = parts
            .into_iter()
            .map(|part| {
                s.spawn(move || {
                    for (i, v) in part {
                        // Read, written and read again.
                        let _ = v.rd();
                        v.wr(mix(salt ^ i as u64));
                        check_eq!(v.rd(), V::norm(mix(salt ^ i as u64)), "a value written by this thread");
                    }
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap_or_else(|p| resume_unwind(p));
        }
    });
    want
}

/// A mutable iterator that goes on in another thread while this one writes what it has taken.
fn pursue<'a, I, X, V>(r: &mut Rng, it: I, f: impl Fn(X) -> (Option<usize>, &'a mut V) + Sync + Copy + Send) -> Vec<u64>
where
    I: DoubleEndedIterator<Item = X> + Send,
    X: Send + 'a,
    V: TestVal + Send + 'a,
{
    let mut it = it;
    let mut front = Vec::new();
    let mut back = Vec::new();
    for _ in 0..r.below(5) {
        if r.chance(1, 2) {
            front.extend(it.next().map(f));
        } else {
            back.extend(it.next_back().map(f));
        }
    }
    let salt = r.u64();
    let write = move |v: &mut V| {
        v.wr(mix(salt ^ v.rd()));
        v.rd()
    };
    let (a, b, c) = thread::scope(|s| {
        let h = s.spawn(move || it.map(|x| write(f(x).1)).collect::<Vec<u64>>());
        let h2 = s.spawn(move || back.into_iter().map(|x| write(x.1)).collect::<Vec<u64>>());
        let a: Vec<u64> = front.into_iter().map(|x| write(x.1)).collect();
        (a, h.join().unwrap_or_else(|p| resume_unwind(p)), h2.join().unwrap_or_else(|p| resume_unwind(p)))
    });
    a.into_iter().chain(b).chain(c.into_iter().rev()).collect()
}

/// Everything about one sparse map type that needs to know that its iterators can move.
macro_rules! sparse_views {
    ($name:ident, $map:ty, $k:ty, $v:ty) => {
        fn $name(r: &mut Rng, case: &mut Case) {
            type M = $map;
            let mut m: M = Default::default();
            let mut model = BTreeMap::new();
            for k in some::<$k>(r) {
                let x = r.u64();
                m.insert(<$k>::at(k), <$v>::mk(x));
                model.insert(k, <$v>::norm(x));
            }
            let items = |m: &M| -> BTreeMap<usize, u64> { m.iter().map(|(k, v)| (k.idx(), v.rd())).collect() };
            let pairs = |model: &BTreeMap<usize, u64>| -> Vec<u64> { model.iter().map(|(k, v)| mix(*k as u64 + 1) ^ v).collect() };
            let vals = |model: &BTreeMap<usize, u64>| -> Vec<u64> { model.values().copied().collect() };
            for _ in 0..r.range(1, 4) {
                match r.below(13) {
                    0 => model = write_all(r, m.iter_mut().map(|(k, v)| (k.idx(), v)).collect()),
                    1 => {
                        let keys: Vec<usize> = m.keys().map(|k| k.idx()).collect();
                        model = write_all(r, keys.into_iter().zip(m.values_mut()).collect());
                    }
                    2 => {
                        let got = pursue(r, m.iter_mut(), |(k, v)| (Some(k.idx()), v));
                        check_eq!(got, vals(&items(&m)), "what the threads wrote through iter_mut()");
                        model = items(&m);
                    }
                    3 => {
                        let got = pursue(r, m.values_mut(), |v| (None, v));
                        check_eq!(got, vals(&items(&m)), "what the threads wrote through values_mut()");
                        model = items(&m);
                    }
                    4 => relay(r, case, "iter()", m.iter(), pairs(&model), |(k, v)| mix(k.idx() as u64 + 1) ^ v.rd()),
                    5 => relay(r, case, "keys()", m.keys(), model.keys().map(|k| *k as u64).collect(), |k| k.idx() as u64),
                    6 => relay(r, case, "values()", m.values(), vals(&model), |v| v.rd()),
                    7 => relay(r, case, "into_iter()", m.clone().into_iter(), pairs(&model), |(k, v)| mix(k.idx() as u64 + 1) ^ v.rd()),
                    8 => {
                        relay(r, case, "drain()", m.drain(), pairs(&model), |(k, v)| mix(k.idx() as u64 + 1) ^ v.rd());
                        check!(m.is_empty(), "a map drained by other threads is not empty");
                        model.clear();
                    }
                    9 => {
                        read_iter(r, case, "iter()", m.iter(), pair);
                        read_iter(r, case, "values()", m.values(), |v: &$v| v.rd());
                    }
                    10 => read_iter(r, case, "into_iter()", m.clone().into_iter(), |(k, v)| pair((k, &v))),
                    11 => {
                        // A handle of one entry used by another thread.
                        if let Some(k) = any::<$k>(r) {
                            let (i, x) = (k.idx(), r.u64());
                            let e = m.entry(k);
                            let old = elsewhere(move || match e {
                                Entry::Occupied(mut e) => Some(std::mem::replace(e.get_mut(), <$v>::mk(x)).rd()),
                                Entry::Vacant(e) => {
                                    e.insert(<$v>::mk(x));
                                    None
                                }
                            });
                            check_eq!(old, model.insert(i, <$v>::norm(x)), "what another thread found in an entry");
                        }
                    }
                    _ => {
                        let s = r.u64();
                        let m = &mut m;
                        let model = &mut model;
                        elsewhere(move || {
                            let mut r = Rng::new(s);
                            if let Some(k) = any::<$k>(&mut r) {
                                let (i, x) = (k.idx(), r.u64());
                                m.insert(k, <$v>::mk(x));
                                model.insert(i, <$v>::norm(x));
                            }
                        });
                    }
                }
                check_eq!(items(&m), model, "contents after threads used parts of a map");
                case.obs(hash_str(&format!("{model:?}")));
                case.count("views of sparse maps");
            }
            if r.chance(1, 2) {
                elsewhere(move || drop(m));
            }
            case.mark();
        }
    };
}

macro_rules! total_views {
    ($name:ident, $map:ty, $k:ty, $v:ty) => {
        fn $name(r: &mut Rng, case: &mut Case) {
            type M = $map;
            let salt = r.u64();
            let mut m = M::new(|k| <$v>::mk(mix(k.idx() as u64 ^ salt)));
            let mut model: BTreeMap<usize, u64> = (0..<$k>::N).map(|i| (i, <$v>::norm(mix(i as u64 ^ salt)))).collect();
            let items = |m: &M| -> BTreeMap<usize, u64> { m.iter().map(|(k, v)| (k.idx(), v.rd())).collect() };
            let pairs = |model: &BTreeMap<usize, u64>| -> Vec<u64> { model.iter().map(|(k, v)| mix(*k as u64 + 1) ^ v).collect() };
            let vals = |model: &BTreeMap<usize, u64>| -> Vec<u64> { model.values().copied().collect() };
            check_eq!(items(&m), model, "contents of a new map");
            for _ in 0..r.range(1, 4) {
                match r.below(10) {
                    0 => model = write_all(r, m.iter_mut().map(|(k, v)| (k.idx(), v)).collect()),
                    1 => model = write_all(r, m.values_mut().enumerate().collect()),
                    2 => {
                        let got = pursue(r, m.iter_mut(), |(k, v)| (Some(k.idx()), v));
                        check_eq!(got, vals(&items(&m)), "what the threads wrote through iter_mut()");
                        model = items(&m);
                    }
                    3 => {
                        let got = pursue(r, m.values_mut(), |v| (None, v));
                        check_eq!(got, vals(&items(&m)), "what the threads wrote through values_mut()");
                        model = items(&m);
                    }
                    4 => relay(r, case, "iter()", m.iter(), pairs(&model), |(k, v)| mix(k.idx() as u64 + 1) ^ v.rd()),
                    5 => relay(r, case, "keys()", m.keys(), model.keys().map(|k| *k as u64).collect(), |k| k.idx() as u64),
                    6 => relay(r, case, "into_iter()", m.clone().into_iter(), pairs(&model), |(k, v)| mix(k.idx() as u64 + 1) ^ v.rd()),
                    7 => {
                        read_iter(r, case, "iter()", m.iter(), pair);
                        read_iter(r, case, "keys()", m.keys(), |k| k.idx() as u64);
                    }
                    8 => read_iter(r, case, "into_iter()", m.clone().into_iter(), |(k, v)| pair((k, &v))),
                    _ => {
                        let s = r.u64();
                        let m = &mut m;
                        let model = &mut model;
                        elsewhere(move || {
                            let mut r = Rng::new(s);
                            if let Some(k) = any::<$k>(&mut r) {
                                let (i, x) = (k.idx(), r.u64());
                                m[&k] = <$v>::mk(x);
                                model.insert(i, <$v>::norm(x));
                            }
                        });
                    }
                }
                check_eq!(items(&m), model, "contents after threads used parts of a map");
                case.obs(hash_str(&format!("{model:?}")));
                case.count("views of total maps");
            }
            if r.chance(1, 2) {
                elsewhere(move || drop(m));
            }
            case.mark();
        }
    };
}

/// References to all values of an array map, one per key, used by different threads.
macro_rules! each_mut {
    ($name:ident, $k:ty, $v:ty) => {
        fn $name(r: &mut Rng, case: &mut Case) {
            const S: usize = size::<$k>();
            let salt = r.u64();
            let mut m = OrdinalTotalArrayMap::<$k, $v, S>::new(|k| <$v>::mk(mix(k.idx() as u64 ^ salt)));
            let model = write_all(r, m.as_mut().into_iter().map(|(k, v)| (k.idx(), v)).collect());
            let got: BTreeMap<usize, u64> = m.iter().map(|(k, v)| (k.idx(), v.rd())).collect();
            check_eq!(got, model, "what threads wrote through as_mut()");
            let shared = m.as_ref();
            elsewhere(|| {
                let got: BTreeMap<usize, u64> = shared.iter().map(|(k, v)| (k.idx(), v.rd())).collect();
                check_eq!(got, model, "what a thread read through as_ref()");
            });
            // The map of references itself goes elsewhere.
            let views = m.as_mut();
            let model: BTreeMap<usize, u64> = elsewhere(move || {
                views
                    .into_iter()
                    .map(|(k, v)| {
                        v.wr(mix(salt ^ v.rd()));
                        (k.idx(), v.rd())
                    })
                    .collect()
            });
            let got: BTreeMap<usize, u64> = m.iter().map(|(k, v)| (k.idx(), v.rd())).collect();
            check_eq!(got, model, "what a thread wrote through as_mut()");
            got.values().for_each(|x| case.obs(*x));
            case.count("maps of references");
            case.mark();
        }
    };
}

// ---------------------------------------------------------------- shared counters

/// The use the documentation shows, by many threads: nothing counted is lost.
fn counters<K: TestKey + Send + Sync>(r: &mut Rng, case: &mut Case) {
    if K::N == 0 {
        return;
    }
    let threads = if cfg!(miri) { 2 } else { r.range(2, 6) };
    let n = if cfg!(miri) { 5 } else { 200 };
    let total: OrdinalTotalMap<K, AtomicU64> = Default::default();
    let locked: OrdinalMap<K, Mutex<u64>> =
        (0..K::N).filter(|i| i % 2 == 0).map(|i| (K::at(i), Mutex::new(0))).collect();
    let want: Vec<BTreeMap<usize, u64>> = (0..threads)
        .map(|_| {
            let mut w = BTreeMap::new();
            for _ in 0..n {
                *w.entry(r.below(K::N)).or_insert(0) += 1;
            }
            w
        })
        .collect();
    thread::scope(|s| {
        let hs: Vec<_> = want
            .iter()
            .map(|w| {
                let (total, locked) = (&total, &locked);
                s.spawn(move || {
                    for (k, n) in w {
                        for _ in 0..*n {
                            total[&K::at(*k)].fetch_add(1, Relaxed);
                            if let Some(m) = locked.get(&K::at(*k)) {
                                *m.lock().unwrap() += 1;
                            }
                        }
                    }
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap_or_else(|p| resume_unwind(p));
        }
    });
    for i in 0..K::N {
        let sum: u64 = want.iter().filter_map(|w| w.get(&i)).sum();
        check_eq!(total[&K::at(i)].load(Relaxed), sum, "counts of key {i}");
        if i % 2 == 0 {
            check_eq!(locked.get(&K::at(i)).map(|m| *m.lock().unwrap()), Some(sum), "locked counts of key {i}");
        }
        case.obs(sum);
    }
    case.add("counts", (n * threads) as u64);
    case.mark();
}

/// Values shared by reference count: clones and drops by many threads leave none over.
fn counted<K: TestKey + Send + Sync + 'static>(r: &mut Rng, case: &mut Case) {
    let token = Arc::new(r.u64());
    let mut m: OrdinalMap<K, Arc<u64>> = OrdinalMap::new();
    for k in some::<K>(r) {
        m.insert(K::at(k), token.clone());
    }
    let t: OrdinalTotalMap<K, Arc<u64>> = OrdinalTotalMap::new(|_| token.clone());
    let expected = Arc::strong_count(&token);
    check_eq!(expected, 1 + m.len() + t.len(), "references held by two maps");
    let threads = if cfg!(miri) { 2 } else { 4 };
    thread::scope(|s| {
        for i in 0..threads {
            let (m, t) = (&m, &t);
            s.spawn(move || {
                for j in 0..3 {
                    let c = m.clone();
                    let d = t.clone();
                    let mut it = c.into_iter();
                    it.next();
                    if (i + j) % 2 == 0 {
                        drop(d.into_iter().nth(1));
                    }
                }
            });
        }
    });
    check_eq!(Arc::strong_count(&token), expected, "references held after threads cloned and dropped the maps");
    let (a, b) = (thread::spawn(move || drop(m)), thread::spawn(move || drop(t)));
    a.join().unwrap();
    b.join().unwrap();
    check_eq!(Arc::strong_count(&token), 1, "references held after threads dropped the maps");
    case.obs(expected as u64);
    case.count("maps dropped elsewhere");
    case.mark();
}

// ---------------------------------------------------------------- first uses

/// All there is to do with a type, first done by several threads at once. Only the
/// first case of the process sees the type unused.
fn fresh<const N: usize, const W: usize>(r: &mut Rng, case: &mut Case) {
    let threads = if cfg!(miri) { 2 } else { 4 };
    let go = AtomicBool::new(false);
    let s = r.u64();
    let work = || {
        let mut r = Rng::new(s);
        let keys: Vec<usize> = (0..5).map(|_| r.below(N)).collect();
        let mut want: Vec<usize> = keys.clone();
        want.sort();
        want.dedup();
        let order = r.below(6);
        let mut h = Seen::default();
        for i in 0..6 {
            match (i + order) % 6 {
                0 => {
                    let m: OrdinalMap<Key<N>, usize> = keys.iter().map(|i| (Key::at(*i), *i)).collect();
                    let got: Vec<usize> = m.iter().map(|(k, v)| k.idx() | v).collect();
                    check_eq!(got, want, "a map made by one of several threads");
                    h.add(hash_str(&format!("{m:?}")));
                }
                1 => {
                    let m: OrdinalArrayMap<Key<N>, usize, N> = keys.iter().map(|i| (Key::at(*i), *i)).collect();
                    let got: Vec<usize> = m.into_iter().map(|(k, v)| k.idx() | v).collect();
                    check_eq!(got, want, "an array map made by one of several threads");
                }
                2 => {
                    let m: OrdinalTotalArrayMap<Key<N>, usize, N> = OrdinalTotalArrayMap::new(|k: Key<N>| k.idx());
                    check!(m.iter().all(|(k, v)| k.idx() == *v), "a total map made by one of several threads");
                }
                3 => {
                    let m: OrdinalSet<Key<N>> = keys.iter().map(|i| Key::at(*i)).collect();
                    check_eq!(m.iter().map(|k| k.idx()).collect::<Vec<_>>(), want, "a set made by one of several threads");
                    h.add(hash_str(&format!("{m:?}")));
                }
                4 => {
                    let m: OrdinalArraySet<Key<N>, W> = keys.iter().map(|i| Key::at(*i)).collect();
                    let got: Vec<usize> = (0..N).filter(|i| m.contains(&Key::at(*i))).collect();
                    check_eq!(got, want, "an array set made by one of several threads");
                    h.add(hash_str(&format!("{m:?}")));
                }
                _ => {
                    let n = Key::<N>::all_values().map(|k| k.idx()).collect::<Vec<_>>();
                    check!(n.len() == N && n.iter().enumerate().all(|(i, k)| i == *k), "values listed by one of several threads");
                    let a = AtomicOrdinal::new(Key::<N>::at(N - 1));
                    check_eq!(a.load(SeqCst).idx(), N - 1, "a cell made by one of several threads");
                }
            }
        }
        h.0
    };
    let got: Vec<u64> = thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                sc.spawn(|| {
                    while !go.load(Relaxed) {
                        std::hint::spin_loop();
                    }
                    work()
                })
            })
            .collect();
        go.store(true, Relaxed);
        hs.into_iter().map(|h| h.join().unwrap_or_else(|p| resume_unwind(p))).collect()
    });
    let want = work();
    check!(got.iter().all(|g| *g == want), "several threads that first use a type see other texts than one");
    case.obs(want);
    case.count("first uses");
    case.mark();
}

macro_rules! fresh_all {
    ($ctx:ident, $salt:ident, $($n:literal)*) => { $( $ctx.cases(&format!("first use of {} keys{}", $n, $salt), 3, fresh::<$n, { ($n + 63) / 64 }>); )* };
}

type Word = OrdinalSet64<Key<64>>;
type Arr<K, V, const S: usize> = OrdinalArrayMap<K, V, S>;
type Tot<K, V, const S: usize> = OrdinalTotalArrayMap<K, V, S>;

sparse_views!(heap_color, OrdinalMap<Color, String>, Color, String);
sparse_views!(heap_mixed, OrdinalMap<Mixed, u64>, Mixed, u64);
sparse_views!(heap_100, OrdinalMap<Key<100>, Option<u8>>, Key<100>, Option<u8>);
sparse_views!(heap_unit, OrdinalMap<Key<9>, ()>, Key<9>, ());
sparse_views!(array_color, Arr<Color, String, { size::<Color>() }>, Color, String);
sparse_views!(array_40, Arr<Key<40>, u64, 40>, Key<40>, u64);
sparse_views!(array_none, Arr<Key<0>, u64, 0>, Key<0>, u64);
sparse_views!(array_bool, Arr<bool, bool, 2>, bool, bool);
total_views!(theap_color, OrdinalTotalMap<Color, String>, Color, String);
total_views!(theap_100, OrdinalTotalMap<Key<100>, u64>, Key<100>, u64);
total_views!(theap_i8, OrdinalTotalMap<i8, Option<u8>>, i8, Option<u8>);
total_views!(tarray_color, Tot<Color, String, { size::<Color>() }>, Color, String);
total_views!(tarray_40, Tot<Key<40>, u64, 40>, Key<40>, u64);
total_views!(tarray_one, Tot<(), bool, 1>, (), bool);
each_mut!(each_color, Color, String);
each_mut!(each_20, Key<20>, u64);
each_mut!(each_mixed, Mixed, Option<u8>);

fn main() {
    let ctx = Ctx::from_args();
    // Makes for other choices in another schedule.
    let args: Vec<String> = std::env::args().collect();
    let salt = args.iter().position(|a| a == "--salt").map_or("", |i| args[i + 1].as_str());
    // First: nothing has used these types yet.
    fresh_all!(ctx, salt, 1 3 8 9 33 65);
    if !mon::small() {
        fresh_all!(ctx, salt, 2 5 6 7 11 12 13 15 16 17 31 63 64 66 127 128 129 200 300);
    }
    let n = ctx.n(400, 20_000);
    // Too much for an interpreter.
    let big = if mon::small() { 0 } else { n };
    macro_rules! go {
        ($n:expr, $($name:literal $f:expr;)*) => { $( ctx.cases(&format!("{}{salt}", $name), $n, $f); )* };
    }
    go! { n,
        "readers of OrdinalMap<Color, String>" read_sparse::<OrdinalMap<Color, String>>;
        "readers of OrdinalMap<Key<100>, u64>" read_sparse::<OrdinalMap<Key<100>, u64>>;
        "readers of OrdinalMap<u8, ()>" read_sparse::<OrdinalMap<u8, ()>>;
        "readers of OrdinalArrayMap<Mixed, Option<u8>>" read_sparse::<Arr<Mixed, Option<u8>, { size::<Mixed>() }>>;
        "readers of OrdinalArrayMap<Key<30>, String>" read_sparse::<Arr<Key<30>, String, 30>>;
        "readers of OrdinalTotalMap<Color, String>" read_total::<OrdinalTotalMap<Color, String>>;
        "readers of OrdinalTotalArrayMap<Key<20>, String>" read_total::<Tot<Key<20>, String, 20>>;
        "readers of OrdinalTotalArrayMap<(), ()>" read_total::<Tot<(), (), 1>>;
        "readers of OrdinalSet<Color>" read_set::<OrdinalSet<Color>>;
        "readers of OrdinalSet64<Key<64>>" read_set::<Word>;
        "readers of OrdinalSet64<bool>" read_set::<OrdinalSet64<bool>>;
        "readers of OrdinalArraySet<Key<65>>" read_set::<OrdinalArraySet<Key<65>, { ordinal_array_set_s::<Key<65>>() }>>;
        "readers of OrdinalArraySet<Mixed>" read_set::<OrdinalArraySet<Mixed, { ordinal_array_set_s::<Mixed>() }>>;
        "readers of the values of Mixed" read_values::<Mixed>;
        "readers of the values of (bool, Option<bool>)" read_values::<(bool, Option<bool>)>;
        "readers of the values of NonZeroI8" read_values::<NonZeroI8>;
        "readers of the values of Box<u8>" read_values::<Box<u8>>;
        "readers of a cell of Mixed" read_atomic::<Mixed>;
        "readers of a cell of Box<u8>" read_atomic::<Box<u8>>;
        "travels of OrdinalMap<Color, String>" travel::<OrdinalMap<Color, String>>;
        "travels of OrdinalMap<Key<100>, u64>" travel::<OrdinalMap<Key<100>, u64>>;
        "travels of OrdinalArrayMap<Mixed, String>" travel::<Arr<Mixed, String, { size::<Mixed>() }>>;
        "travels of OrdinalSet<Key<100>>" travel_set::<OrdinalSet<Key<100>>>;
        "travels of OrdinalSet64<Mixed>" travel_set::<OrdinalSet64<Mixed>>;
        "travels of OrdinalArraySet<Key<70>>" travel_set::<OrdinalArraySet<Key<70>, 2>>;
        "views of OrdinalMap<Color, String>" heap_color;
        "views of OrdinalMap<Mixed, u64>" heap_mixed;
        "views of OrdinalMap<Key<100>, Option<u8>>" heap_100;
        "views of OrdinalMap<Key<9>, ()>" heap_unit;
        "views of OrdinalArrayMap<Color, String>" array_color;
        "views of OrdinalArrayMap<Key<40>, u64>" array_40;
        "views of OrdinalArrayMap<Key<0>, u64>" array_none;
        "views of OrdinalArrayMap<bool, bool>" array_bool;
        "views of OrdinalTotalMap<Color, String>" theap_color;
        "views of OrdinalTotalArrayMap<Color, String>" tarray_color;
        "views of OrdinalTotalArrayMap<Key<40>, u64>" tarray_40;
        "views of OrdinalTotalArrayMap<(), bool>" tarray_one;
        "references to each value: Color" each_color;
        "references to each value: Key<20>" each_20;
        "references to each value: Mixed" each_mixed;
        "set iterators elsewhere" |r: &mut Rng, case: &mut Case| {
            let keys = some::<Key<100>>(r);
            let mut want = keys.clone();
            want.sort();
            want.dedup();
            let want: Vec<u64> = want.into_iter().map(|k| k as u64).collect();
            let s: OrdinalSet<Key<100>> = keys.iter().map(|k| Key::at(*k)).collect();
            relay(r, case, "a set's iter()", s.iter(), want, |k| k.idx() as u64);
            read_iter(r, case, "a set's iter()", s.iter(), |k| k.idx() as u64);
            let keys = some::<Mixed>(r);
            let mut want = keys.clone();
            want.sort();
            want.dedup();
            let want: Vec<u64> = want.into_iter().map(|k| k as u64).collect();
            let w: OrdinalSet64<Mixed> = keys.iter().map(|k| Mixed::at(*k)).collect();
            relay(r, case, "a word's iter()", w.iter(), want, |k| k.idx() as u64);
            read_iter(r, case, "a word's iter()", w.iter(), |k| k.idx() as u64);
            let all = (0..100).collect();
            relay(r, case, "all_values()", Key::<100>::all_values(), all, |k| k.idx() as u64);
            read_iter(r, case, "all_values()", Mixed::all_values(), |k| k.idx() as u64);
        };
        "counters of Color" counters::<Color>;
        "counters of Key<50>" counters::<Key<50>>;
        "references counted: Color" counted::<Color>;
        "references counted: Key<30>" counted::<Key<30>>;
    }
    go! { big,
        "readers of OrdinalTotalMap<i8, u64>" read_total::<OrdinalTotalMap<i8, u64>>;
        "readers of OrdinalSet<Key<500>>" read_set::<OrdinalSet<Key<500>>>;
        "readers of OrdinalSet<Key<200>>" read_set::<OrdinalSet<Key<200>>>;
        "views of OrdinalTotalMap<Key<100>, u64>" theap_100;
        "views of OrdinalTotalMap<i8, Option<u8>>" theap_i8;
    }
    ctx.finish();
}
