//! C14: safe use never causes undefined behaviour. Miri and AddressSanitizer watch
//! these workloads; what they compute is only observed, not judged, except where the
//! key type is lawful.
use std::cell::Cell;
use std::convert::Infallible;
use std::hint::black_box;

use harness::cat_set;
use harness::cat_sparse;
use harness::cat_total;
use harness::check;
use harness::check_eq;
use harness::fault;
use harness::keys::Key;
use harness::keys::OKey;
use harness::keys::TestKey;
use harness::mon;
use harness::mon::Case;
use harness::mon::Caught;
use harness::mon::Ctx;
use harness::op;
use harness::own;
use harness::rng::Rng;
use harness::tracked::Tracked;
use harness::vals::Wide;
use harness::w_map;
use harness::w_set;
use harness::w_total;
use ordinal_map::map::total::OrdinalTotalArrayMap;
use ordinal_map::map::total::OrdinalTotalMap;
use ordinal_map::map::Entry;
use ordinal_map::map::OrdinalArrayMap;
use ordinal_map::map::OrdinalMap;
use ordinal_map::set::ordinal_array_set_s;
use ordinal_map::set::OrdinalArraySet;
use ordinal_map::set::OrdinalSet;
use ordinal_map::set::OrdinalSet64;
use ordinal_map::AtomicOrdinal;
use ordinal_map::Ordinal;

// ------------------------------------------------------------ lawless keys

thread_local! {
    /// How badly the mapping behaves, and its state.
    static MODE: Cell<u32> = const { Cell::new(0) };
    static STATE: Cell<u64> = const { Cell::new(1) };
}

/// Lawful while unwinding: a second panic would abort, which is Rust's doing.
fn mode() -> u32 {
    if std::thread::panicking() {
        0
    } else {
        MODE.with(|m| m.get())
    }
}

fn whim() -> u64 {
    STATE.with(|s| {
        let x = harness::rng::mix(s.get());
        s.set(x);
        x
    })
}

/// A mapping that claims `N` values and keeps no promise.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Bad<const N: usize>(usize);

impl<const N: usize> Ordinal for Bad<N> {
    const ORDINAL_SIZE: usize = N;

    fn ordinal(&self) -> usize {
        let w = whim() as usize;
        match mode() {
            0 => self.0,
            // Off by one, beyond the end.
            1 => self.0 + 1,
            2 => N,
            3 => usize::MAX,
            4 => N.wrapping_mul(3).wrapping_add(self.0),
            // Colliding.
            5 => 0,
            // Different at every call.
            6 => w % N.max(1),
            7 => w % (2 * N + 2),
            8 => w,
            9 => [0, N.wrapping_sub(1), N, N + 1, 63, 64, 65, usize::MAX, usize::MAX / 2][w % 9],
            10 => panic!("no ordinal"),
            _ => self.0,
        }
    }

    fn from_ordinal(ordinal: usize) -> Option<Self> {
        let w = whim() as usize;
        match mode() {
            11 => None,
            12 => Some(Bad(ordinal)),
            13 => Some(Bad(N.wrapping_sub(ordinal))),
            14 => (w % 3 != 0).then_some(Bad(w)),
            15 => Some(Bad(usize::MAX)),
            16 => (ordinal < N / 2).then_some(Bad(ordinal)),
            17 => (ordinal < N * 2).then_some(Bad(ordinal)),
            18 => panic!("no value"),
            _ => (ordinal < N).then_some(Bad(ordinal)),
        }
    }
}

const MODES: u32 = 19;

/// Run it; panics and wrong answers are acceptable.
fn attempt(case: &mut Case, f: impl FnOnce()) {
    match mon::catch(f) {
        Caught::Ok(()) => case.count("lawless operations that returned"),
        _ => case.count("lawless operations that panicked"),
    }
    mon::check_pending();
}

fn lawless<const N: usize, const W: usize>(rng: &mut Rng, case: &mut Case) {
    MODE.with(|m| m.set(0));
    STATE.with(|s| s.set(rng.u64()));
    case.mark();
    // Both keys from a lawful phase and from the lawless one.
    let keys: Vec<Bad<N>> = (0..N + 3).map(Bad).chain([Bad(usize::MAX)]).collect();
    let key = |rng: &mut Rng| *rng.pick(&keys);
    let mut hm: OrdinalMap<Bad<N>, Tracked> = OrdinalMap::new();
    let mut am: OrdinalArrayMap<Bad<N>, Tracked, N> = OrdinalArrayMap::new();
    let mut tm: OrdinalTotalMap<Bad<N>, Tracked> = OrdinalTotalMap::new(|_| Tracked::new(1));
    let mut ta: OrdinalTotalArrayMap<Bad<N>, Tracked, N> =
        OrdinalTotalArrayMap::new(|_| Tracked::new(2));
    let mut s: OrdinalSet<Bad<N>> = OrdinalSet::new();
    let mut sa: OrdinalArraySet<Bad<N>, W> = OrdinalArraySet::new();
    for _ in 0..rng.below(N + 1) {
        let k = Bad(rng.index(N));
        hm.insert(k, Tracked::new(3));
        am.insert(k, Tracked::new(4));
        s.insert(k);
        sa.insert(k);
    }
    let steps = if cfg!(miri) { 8 } else { 30 };
    for _ in 0..steps {
        let mode = rng.below(MODES as usize) as u32;
        MODE.with(|m| m.set(mode));
        let k = key(rng);
        let j = rng.below(N + 2);
        let what = rng.below(24);
        op!("mode {mode}, operation {what}, key {k:?}");
        case.obs(what as u64 * 100 + mode as u64);
        match what {
            0 => attempt(case, || drop(hm.insert(k, Tracked::new(5)))),
            1 => attempt(case, || drop(am.insert(k, Tracked::new(5)))),
            2 => attempt(case, || drop(tm.insert(k, Tracked::new(5)))),
            3 => attempt(case, || drop(ta.insert(k, Tracked::new(5)))),
            4 => attempt(case, || {
                hm.get(&k).map(|v| v.get());
                hm.get_mut(&k).map(|v| v.set(9));
                black_box(hm.contains_key(&k));
                drop(hm.remove(&k));
            }),
            5 => attempt(case, || {
                am.get(&k).map(|v| v.get());
                am.get_mut(&k).map(|v| v.set(9));
                black_box(am.contains_key(&k));
                drop(am.remove(&k));
            }),
            6 => attempt(case, || {
                tm.get(&k).get();
                tm.get_mut(&k).set(8);
                tm[&k].get();
                tm[&k] = Tracked::new(7);
            }),
            7 => attempt(case, || {
                ta.get(&k).get();
                ta.get_mut(&k).set(8);
                ta[&k].get();
                ta[&k] = Tracked::new(7);
            }),
            8 => attempt(case, || match hm.entry(k) {
                Entry::Occupied(mut e) => {
                    e.get_mut().set(1);
                    e.get().get();
                }
                Entry::Vacant(e) => e.insert(Tracked::new(1)),
            }),
            9 => attempt(case, || am.entry(k).or_insert(Tracked::new(1)).set(2)),
            10 => attempt(case, || {
                s.insert(k);
                s.contains(&k);
                let mut it = s.iter();
                it.next();
                it.next_back();
                black_box(it.map(|k| k.0).sum::<usize>());
            }),
            11 => attempt(case, || {
                sa.insert(k);
                sa.contains(&k);
                black_box(format!("{sa:?}"));
            }),
            12 => attempt(case, || {
                let mut it = hm.iter();
                it.nth(j);
                it.next_back();
                let n: u64 = it.clone().map(|(_, v)| v.get()).sum();
                black_box((n, it.rev().count(), format!("{hm:?}")));
            }),
            13 => attempt(case, || {
                let mut held: Vec<_> = am.iter_mut().collect();
                for (_, v) in held.iter_mut().rev() {
                    v.set(v.get() + 1);
                }
                black_box(format!("{held:?}"));
            }),
            14 => attempt(case, || {
                let mut held: Vec<_> = tm.iter_mut().rev().collect();
                for (_, v) in &mut held {
                    v.set(v.get() + 1);
                }
            }),
            15 => attempt(case, || {
                let mut d = hm.drain();
                d.next();
                if j % 2 == 0 {
                    std::mem::forget(d);
                }
            }),
            16 => attempt(case, || {
                let mut d = am.drain();
                d.next_back();
                if j % 2 == 0 {
                    std::mem::forget(d);
                }
            }),
            17 => attempt(case, || am.retain(|k, v| (k.0 as u64 ^ v.get()) & 1 == 0)),
            18 => attempt(case, || {
                let mut it = ta.clone().into_iter();
                it.nth(j);
                it.next_back();
                let c = it.clone();
                drop(it);
                black_box(c.map(|(_, v)| v.get()).sum::<u64>());
            }),
            19 => attempt(case, || {
                let mut it = hm.clone().into_iter();
                it.next_back();
                it.nth(j);
                black_box(format!("{it:?}"));
            }),
            20 => attempt(case, || {
                // Constructions under a broken mapping.
                let m: OrdinalTotalArrayMap<Bad<N>, Tracked, N> =
                    OrdinalTotalArrayMap::new(|_| Tracked::new(3));
                let m = m.map(|_, v| v).map_values(|v| v.get());
                black_box(m.as_ref().into_values().len());
                let m: OrdinalTotalMap<Bad<N>, Tracked> = OrdinalTotalMap::new(|_| Tracked::new(3));
                black_box(m.into_values().len());
            }),
            21 => attempt(case, || {
                let m: OrdinalMap<Bad<N>, Tracked> =
                    keys.iter().map(|k| (*k, Tracked::new(2))).collect();
                black_box(m.len());
                let s: OrdinalSet<Bad<N>> = keys.iter().copied().collect();
                black_box(format!("{s:?}"));
            }),
            22 => attempt(case, || {
                let r = ta.as_mut().zip(tm_ref::<N>(&ta_other::<N>()));
                let r = r.map_values(|(v, w)| {
                    v.set(w);
                    v
                });
                black_box(r.into_values().len());
            }),
            _ => attempt(case, || {
                am.clear();
                hm.clear();
                black_box((am.len(), hm.is_empty(), tm.len(), ta.is_empty()));
            }),
        }
    }
    MODE.with(|m| m.set(rng.below(MODES as usize) as u32));
    drop((hm, am, tm, ta));
    mon::check_pending();
}

fn ta_other<const N: usize>() -> OrdinalTotalArrayMap<Bad<N>, u64, N> {
    OrdinalTotalArrayMap::from_array([7; N])
}

fn tm_ref<const N: usize>(
    m: &OrdinalTotalArrayMap<Bad<N>, u64, N>,
) -> OrdinalTotalArrayMap<Bad<N>, u64, N> {
    m.clone()
}

/// Sets of one word, composed mappings and cells over a broken mapping.
fn lawless_word<const N: usize>(rng: &mut Rng, case: &mut Case) {
    STATE.with(|s| s.set(rng.u64()));
    case.mark();
    for _ in 0..12 {
        let mode = rng.below(MODES as usize) as u32;
        MODE.with(|m| m.set(mode));
        let k = Bad::<N>(rng.below(N + 2));
        let o = rng.below(300);
        let what = rng.below(6);
        op!("mode {mode}, operation {what}, key {k:?}, ordinal {o}");
        case.obs(what as u64 * 100 + mode as u64);
        attempt(case, || match what {
            0 => {
                let mut s: OrdinalSet64<Bad<N>> = OrdinalSet64::new();
                s.insert(k);
                s.insert(Bad(0));
                s.contains(&k);
                let mut it = s.iter();
                it.next_back();
                black_box(it.len());
                black_box(it.map(|k| k.0).sum::<usize>());
            }
            1 => {
                let s = OrdinalSet64::<Bad<N>>::all();
                black_box((format!("{s:?}"), s.iter().rev().count()));
            }
            2 => {
                let a = <[Bad<N>; 3]>::from_ordinal(o);
                black_box(a.map(|a| a.ordinal()));
                let a = <[(Bad<N>, Bad<N>); 2]>::from_ordinal(o);
                black_box(a.map(|a| a.ordinal()));
                let a = <[Box<Bad<N>>; 2]>::from_ordinal(o);
                black_box(a.map(|a| a.ordinal()));
            }
            3 => {
                let a = <(Bad<N>, bool, Bad<N>)>::from_ordinal(o);
                black_box(a.map(|a| a.ordinal()));
                let a = <Result<Bad<N>, Option<Bad<N>>>>::from_ordinal(o);
                black_box(a.map(|a| a.ordinal()));
                let a = Derived::<N>::from_ordinal(o);
                black_box(a.map(|a| a.ordinal()));
            }
            4 => {
                let c = AtomicOrdinal::new(k);
                use std::sync::atomic::Ordering::*;
                c.store(Bad(1), SeqCst);
                let _ = c.compare_exchange(k, Bad(0), SeqCst, Relaxed);
                black_box((c.load(SeqCst), format!("{c:?}")));
            }
            _ => {
                let mut it = Bad::<N>::all_values();
                it.next();
                it.next_back();
                it.nth(o % 5);
                black_box(format!("{it:?}"));
                black_box(it.rev().map(|k| k.0).fold(0, usize::wrapping_add));
            }
        });
    }
    MODE.with(|m| m.set(0));
}

#[derive(Ordinal)]
#[allow(dead_code)]
enum Derived<const N: usize> {
    A(Bad<N>, Bad<N>),
    B { x: Option<Bad<N>> },
    C,
}

// --------------------------------------------------------------- odd values

fn odd_values(rng: &mut Rng, case: &mut Case) {
    case.mark();
    let t = rng.below(8);
    case.obs(t as u64);
    op!("odd values #{t}");
    match t {
        0 => {
            // Mutable references as values.
            let mut store = [0u64; 9];
            {
                let mut m: OrdinalMap<Key<9>, &mut u64> = OrdinalMap::new();
                let mut a: OrdinalArrayMap<Key<9>, &mut u64, 9> = OrdinalArrayMap::new();
                for (i, r) in store.iter_mut().enumerate() {
                    if i % 2 == 0 {
                        m.insert(Key::at(i), r);
                    } else {
                        **a.entry(Key::at(i)).or_insert(r) = 0;
                    }
                }
                for (k, v) in m.iter_mut() {
                    **v += k.idx() as u64 + 1;
                }
                let mut held: Vec<_> = m.values_mut().collect();
                held.reverse();
                for v in &mut held {
                    ***v += 1;
                }
                if let Some(v) = m.remove(&Key::at(2)) {
                    *v = 100;
                }
                for (_, v) in a.drain() {
                    *v += 1;
                }
                for (_, v) in m.into_iter().rev() {
                    *v *= 2;
                }
            }
            check_eq!(store, [4, 1, 100, 1, 12, 1, 16, 1, 20], "values behind references");
            case.obs(store.iter().sum());
        }
        1 => {
            let mut store = [1u64, 2, 3, 4, 5];
            {
                let m = OrdinalTotalArrayMap::<Key<5>, &mut u64, 5>::from_array(store.each_mut());
                let m = m.map(|k, v| {
                    *v += k.idx() as u64;
                    v
                });
                let z = m.zip(OrdinalTotalArrayMap::from_array([10u64; 5]));
                for (_, (a, b)) in z {
                    *a += b;
                }
            }
            check_eq!(store, [11, 13, 15, 17, 19], "values behind references");
        }
        2 => {
            // No values at all.
            let mut m: OrdinalMap<Key<4>, Infallible> = OrdinalMap::new();
            check!(m.get(&Key::at(1)).is_none(), "a value of an empty type");
            check!(m.remove(&Key::at(1)).is_none(), "a value of an empty type");
            if let Entry::Occupied(_) = m.entry(Key::at(2)) {
                mon::violate("occupied by a value of an empty type".into());
            }
            check_eq!(m.iter().count() + m.clone().into_iter().count(), 0, "entries");
            let t: OrdinalTotalMap<Key<0>, Infallible> = OrdinalTotalMap::new(|_| unreachable!());
            check_eq!(t.into_iter().count(), 0, "entries");
            let t: OrdinalTotalArrayMap<Infallible, Infallible, 0> =
                OrdinalTotalArrayMap::new(|k| k);
            check_eq!(t.clone().zip(t).into_iter().count(), 0, "entries");
        }
        3 => {
            #[derive(Clone, Debug)]
            struct Zst;
            thread_local!(static LIVE: Cell<i32> = const { Cell::new(0) });
            impl Zst {
                fn new() -> Zst {
                    LIVE.with(|l| l.set(l.get() + 1));
                    Zst
                }
            }
            impl Drop for Zst {
                fn drop(&mut self) {
                    LIVE.with(|l| l.set(l.get() - 1));
                }
            }
            LIVE.with(|l| l.set(0));
            {
                let mut m: OrdinalMap<Key<5>, Zst> = (0..5).map(|i| (Key::at(i), Zst::new())).collect();
                m.remove(&Key::at(1));
                let mut a: OrdinalArrayMap<Key<5>, Zst, 5> = OrdinalArrayMap::new();
                for (k, v) in m.drain().take(2) {
                    a.insert(k, v);
                }
                let t: OrdinalTotalMap<Key<5>, Zst> = OrdinalTotalMap::new(|_| Zst::new());
                let ta: OrdinalTotalArrayMap<Key<5>, Zst, 5> =
                    OrdinalTotalArrayMap::new(|_| Zst::new());
                let mut it = t.into_iter();
                it.next();
                it.next_back();
                let ta = ta.map_values(|z| (z, 0u8));
                let mut it2 = ta.into_iter();
                it2.next_back();
                check_eq!(LIVE.with(|l| l.get()), 2 + 3 + 4, "zero-sized values alive");
            }
            check_eq!(LIVE.with(|l| l.get()), 0, "zero-sized values alive at the end");
        }
        4 => {
            // Over-aligned values stay aligned and intact.
            let mut m: OrdinalMap<Key<7>, Wide> = OrdinalMap::new();
            let mut a: OrdinalArrayMap<Key<7>, Wide, 7> = OrdinalArrayMap::new();
            let t: OrdinalTotalArrayMap<Key<7>, Wide, 7> =
                OrdinalTotalArrayMap::new(|k: Key<7>| Wide(k.idx() as u8, k.idx() as u64));
            for (k, w) in t.as_ref() {
                m.insert(k, w.clone());
                a.insert(k, w.clone());
            }
            for ((k, w), (_, v)) in m.iter().zip(a.iter_mut()) {
                check_eq!(w as *const Wide as usize % 64, 0, "alignment");
                check_eq!(v as *const Wide as usize % 64, 0, "alignment");
                check_eq!((w.1, v.1), (k.idx() as u64, k.idx() as u64), "value");
            }
            let z = t.zip(OrdinalTotalArrayMap::from_array([1u8; 7]));
            for (k, (w, one)) in z {
                check_eq!((w.0, w.1, one), (k.idx() as u8, k.idx() as u64, 1), "zipped value");
            }
        }
        5 => {
            // Everything leaked at some point; the map lives on.
            let mut m: OrdinalMap<OKey<6>, Box<u64>> =
                (0..6).map(|i| (OKey::at(i), Box::new(i as u64))).collect();
            let mut d = m.drain();
            d.next();
            d.next_back();
            std::mem::forget(d);
            let left = m.len();
            check_eq!(left, m.iter().count(), "len() after a leaked drain");
            std::mem::forget(m.iter_mut());
            std::mem::forget(m.entry(OKey::at(3)));
            std::mem::forget(m.clone().into_iter());
            m.insert(OKey::at(0), Box::new(9));
            check_eq!(m.get(&OKey::at(0)).map(|b| **b), Some(9), "value after leaks");
            let mut a: OrdinalArrayMap<OKey<6>, Box<u64>, 6> = m.into_iter().collect();
            let mut d = a.drain();
            d.next();
            std::mem::forget(d);
            a.retain(|_, v| **v % 2 == 1);
            check!(a.values().all(|v| **v % 2 == 1), "value kept by retain");
        }
        6 => {
            // Shared views at the same time, then exclusive ones held together.
            let mut t: OrdinalTotalArrayMap<Key<6>, String, 6> =
                OrdinalTotalArrayMap::new(|k: Key<6>| format!("{}", k.idx()));
            {
                let r = t.as_ref();
                let s = t.as_ref();
                let it = t.iter();
                for ((k, v), (_, (a, b))) in it.zip(r.zip(s)) {
                    check!(v == a && a == b, "views differ at {}", k.idx());
                }
            }
            {
                let mut w = t.as_mut().into_values();
                w.swap(0, 5);
                for (i, s) in w.iter_mut().enumerate() {
                    s.push_str(&i.to_string());
                }
                let [first, .., last] = &mut w;
                std::mem::swap(*first, *last);
            }
            let all: Vec<String> = t.values().cloned().collect();
            case.obs_str(&all.join(","));
            check_eq!(all.join(","), "50,11,22,33,44,05", "values after writes through views");
            let mut it = t.iter_mut();
            let a = it.next().unwrap().1;
            let b = it.next_back().unwrap().1;
            let c = it.nth(1).unwrap().1;
            std::mem::swap(a, b);
            std::mem::swap(b, c);
            let _ = format!("{it:?}");
            a.push('x');
            c.push('y');
        }
        _ => {
            // Function pointers, trait objects and nested maps as values.
            let mut m: OrdinalMap<bool, Box<dyn Fn(u64) -> u64>> = OrdinalMap::new();
            m.insert(true, Box::new(|x| x + 1));
            let y = 5;
            m.insert(false, Box::new(move |x| x * y));
            check_eq!(m.values().map(|f| f(3)).sum::<u64>(), 19, "closures called");
            let mut n: OrdinalMap<bool, OrdinalArrayMap<bool, String, 2>> = OrdinalMap::new();
            n.entry(true)
                .or_insert(OrdinalArrayMap::new())
                .entry(false)
                .or_insert(String::new())
                .push('z');
            check_eq!(format!("{n:?}"), "{true: {false: \"z\"}}", "nested maps");
        }
    }
    mon::check_pending();
}

// ------------------------------------------------------------------ threads

fn threads(rng: &mut Rng, case: &mut Case) {
    case.mark();
    let x = rng.u64() % 100;
    let mut m: OrdinalMap<Key<8>, String> =
        (0..8).map(|i| (Key::at(i), format!("{}", i as u64 + x))).collect();
    let s: OrdinalSet<Key<70>> = (0..70).step_by(3).map(Key::at).collect();
    let t: OrdinalTotalArrayMap<Key<4>, u64, 4> =
        OrdinalTotalArrayMap::new(|k: Key<4>| k.idx() as u64 + x);
    let total: usize = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..3)
            .map(|_| {
                sc.spawn(|| {
                    let a: usize = m.values().map(|v| v.len()).sum();
                    let b = s.iter().map(|k| k.idx()).sum::<usize>();
                    a + b + t.clone().into_values().len() + format!("{m:?}{s:?}{t:?}").len()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).sum()
    });
    case.obs(total as u64);
    // Disjoint mutable parts in different threads.
    std::thread::scope(|sc| {
        let mut it = m.iter_mut();
        while let (Some((_, a)), b) = (it.next(), it.next_back()) {
            sc.spawn(move || a.push('a'));
            if let Some((_, b)) = b {
                sc.spawn(move || b.push('b'));
            }
        }
    });
    let m = std::thread::spawn(move || {
        let mut m = m;
        m.remove(&Key::at(0));
        m
    })
    .join()
    .unwrap();
    check_eq!(m.len(), 7, "entries after threads");
    check_eq!(m.get(&Key::at(7)).cloned(), Some(format!("{}b", 7 + x)), "value written by a thread");
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    let i = a.iter().position(|x| x == name)?;
    a.get(i + 1).cloned()
}

fn main() {
    let ctx = Ctx::from_args();
    let part = arg("--part");
    let on = |p: &str| part.as_deref().is_none_or(|x| x.split(',').any(|y| y == p));
    let slow = cfg!(miri);
    if on("lawless") {
        let n = if slow { ctx.n(1, 1) * 6 } else { ctx.n(3000, 150_000) };
        ctx.cases("lawless keys, 1", n, lawless::<1, { ordinal_array_set_s::<Bad<1>>() }>);
        ctx.cases("lawless keys, 5", n, lawless::<5, { ordinal_array_set_s::<Bad<5>>() }>);
        ctx.cases("lawless keys, 64", n, lawless::<64, { ordinal_array_set_s::<Bad<64>>() }>);
        ctx.cases("lawless keys, 67", n, lawless::<67, { ordinal_array_set_s::<Bad<67>>() }>);
        ctx.cases("lawless word, 1", n, lawless_word::<1>);
        ctx.cases("lawless word, 7", n, lawless_word::<7>);
        ctx.cases("lawless word, 64", n, lawless_word::<64>);
    }
    if on("odd") {
        ctx.cases("odd values", if slow { 24 } else { ctx.n(2000, 40_000) }, odd_values);
    }
    if on("threads") {
        ctx.cases("threads", if slow { 4 } else { ctx.n(100, 2_000) }, threads);
    }
    if on("own") {
        for (name, h) in own::histories() {
            let n = if slow { 2 } else { ctx.n(200, 10_000) };
            ctx.cases(&format!("history of {name}"), n, |rng, case| h(rng, case));
        }
        let n = if slow { 4 } else { ctx.n(200, 10_000) };
        for (name, s) in own::all() {
            ctx.cases(name, n, |rng, case| s(rng, case, &mut own::Faults::none()));
        }
    }
    if on("faults") {
        let masks = [
            fault::KEY | fault::CLONE | fault::CALLBACK | fault::DEBUG | fault::ITER | fault::DEFAULT,
            fault::DROP,
        ];
        let n = if slow { 1 } else { ctx.n(60, 3_000) };
        for (name, s) in own::all() {
            ctx.cases(&format!("faults: {name}"), n, |rng, case| {
                let k = own::enumerate(rng, case, s, &masks, if slow { 5 } else { 60 });
                case.mark();
                case.add("injected panics", k);
            });
        }
    }
    if on("maps") {
        let n = if slow { 2 } else { ctx.n(40, 2_000) };
        w_map::walk(&ctx, &cat_sparse::small(), w_map::Focus::All, n);
        if !slow {
            w_map::walk(&ctx, &cat_sparse::sizes(), w_map::Focus::All, n / 2);
            w_map::walk(&ctx, &cat_sparse::values(), w_map::Focus::All, n);
        }
    }
    if on("totals") {
        let n = if slow { 2 } else { ctx.n(40, 2_000) };
        w_total::walk(&ctx, &cat_total::small(), w_total::Focus::All, n);
        if !slow {
            w_total::walk(&ctx, &cat_total::sizes(), w_total::Focus::All, n / 2);
            w_total::walk(&ctx, &cat_total::values(), w_total::Focus::All, n);
        }
    }
    if on("sets") {
        let n = if slow { 2 } else { ctx.n(40, 2_000) };
        w_set::walk_histories(&ctx, &cat_set::small(), n);
        w_set::walk_iterators(&ctx, &cat_set::small(), n);
        if !slow {
            w_set::walk_histories(&ctx, &cat_set::up_to_64(), n);
            w_set::walk_histories(&ctx, &cat_set::over_64(), n / 2);
        }
    }
    ctx.finish();
}
