//! Ownership scenarios: every value and key is in the ledger, and a panic can be
//! injected at any point where the library calls user code.
//!
//! Each scenario prepares a container, runs one operation through [`Faults::run`],
//! then audits what survived and that nothing leaked.

use std::fmt::Debug;

use either::Either;
use ordinal_map::map::total::OrdinalTotalArrayMap;
use ordinal_map::map::total::OrdinalTotalMap;
use ordinal_map::map::Entry;
use ordinal_map::map::OrdinalArrayMap;
use ordinal_map::map::OrdinalMap;
use ordinal_map::set::ordinal_array_set_s;
use ordinal_map::set::OrdinalArraySet;
use ordinal_map::set::OrdinalSet;
use ordinal_map::set::OrdinalSet64;
use ordinal_map::AtomicOrdinal;
use ordinal_map::Ordinal;

use crate::check;
use crate::check_eq;
use crate::fault;
use crate::keys::Key;
use crate::keys::OKey;
use crate::keys::TestKey;
use crate::maps::size;
use crate::maps::Sparse;
use crate::maps::Total;
use crate::mon;
use crate::mon::Case;
use crate::mon::Caught;
use crate::op;
use crate::rng::Rng;
use crate::tracked;
use crate::tracked::live;
use crate::tracked::Tracked;

pub struct Faults {
    pub mask: u32,
    /// Which point panics, from 1; 0 for none.
    pub target: u64,
    /// Points passed by the operation.
    pub points: u64,
    pub fired: Option<&'static str>,
    pub kind: u32,
}

impl Faults {
    pub fn none() -> Faults {
        Faults::at(0, 0)
    }

    pub fn at(mask: u32, target: u64) -> Faults {
        Faults { mask, target, points: 0, fired: None, kind: 0 }
    }

    /// Run the operation under test. None if an injected panic reached the caller.
    pub fn run<R>(&mut self, what: &str, f: impl FnOnce() -> R) -> Option<R> {
        op!("operation: {what}");
        fault::arm(self.mask, self.target);
        let r = mon::catch(f);
        fault::disarm();
        self.points = fault::count();
        let fired = fault::fired();
        match r {
            Caught::Ok(r) => {
                check!(
                    fired.is_empty(),
                    "{what}: the panic injected at {fired} did not reach the caller"
                );
                Some(r)
            }
            Caught::Injected => {
                op!("panic injected at {fired} (point {})", self.target);
                self.fired = Some(fired);
                self.kind = fault::fired_kind();
                None
            }
            Caught::Panic(m) => mon::violate(format!("{what}: unexpected panic: {m}")),
        }
    }

    /// Everything is gone: the ledger must balance. A destructor that panics may
    /// leave others behind (only a second drop is ruled out then).
    pub fn balance(&self, what: &str) {
        mon::check_pending();
        if self.kind & fault::DROP == 0 {
            check_eq!(live(), 0, "{what}: objects alive after everything was dropped");
        }
    }
}

pub type Scenario = fn(&mut Rng, &mut Case, &mut Faults);

/// What one slot holds: ledger id and value.
type Slot = Option<(u64, u64)>;

fn see(t: &Tracked) -> (u64, u64) {
    (t.id(), t.get())
}

fn snap<M: Sparse<V = Tracked>>(m: &M) -> Vec<Slot> {
    (0..M::K::N).map(|i| m.get(&M::K::at(i)).map(see)).collect()
}

/// The map agrees with itself.
fn consistent<M: Sparse<V = Tracked>>(m: &mut M, what: &str) {
    let s = snap(m);
    let exp: Vec<(usize, (u64, u64))> =
        s.iter().enumerate().filter_map(|(i, x)| x.map(|x| (i, x))).collect();
    let got: Vec<_> = m.iter().map(|(k, v)| (k.idx(), see(v))).collect();
    check_eq!(got, exp, "{what}: entries and lookups disagree");
    let mut back: Vec<_> = m.iter_mut().rev().map(|(k, v)| (k.idx(), see(v))).collect();
    back.reverse();
    check_eq!(back, exp, "{what}: entries from the back and lookups disagree");
    check_eq!(m.len(), exp.len(), "{what}: len()");
    check_eq!(m.is_empty(), exp.is_empty(), "{what}: is_empty()");
    for (i, x) in s.iter().enumerate() {
        check_eq!(m.contains_key(&M::K::at(i)), x.is_some(), "{what}: contains_key({i})");
    }
}

/// And it is an ordinary map: everything still works.
fn usable<M: Sparse<V = Tracked>>(m: &mut M, i: usize, what: &str) {
    let before = m.get(&M::K::at(i)).map(see);
    let l = m.len();
    let v = Tracked::new(777);
    let id = v.id();
    let old = m.insert(M::K::at(i), v).as_ref().map(see);
    check_eq!(old, before, "{what}: insert afterwards");
    check_eq!(m.len(), l + usize::from(before.is_none()), "{what}: len() afterwards");
    let r = m.remove(&M::K::at(i)).as_ref().map(see);
    check_eq!(r, Some((id, 777)), "{what}: remove afterwards");
    consistent(m, what);
}

fn fresh<M: Sparse<V = Tracked>>(rng: &mut Rng, m: &mut M) {
    let n = M::K::N;
    let density = rng.below(5);
    for i in 0..n {
        if rng.below(4) < density {
            m.insert(M::K::at(i), Tracked::new(1000 + i as u64));
        }
    }
}

fn call_cb(name: &'static str) {
    fault::point(fault::CALLBACK, name);
}

/// After each step of a history without faults: nothing lingers, nothing is lost.
fn expect_live(what: &str, n: usize) {
    mon::check_pending();
    check_eq!(live(), n as i64, "{what}: objects alive");
}

/// One operation on a sparse map.
pub fn sparse<M: Sparse<V = Tracked>>(rng: &mut Rng, case: &mut Case, f: &mut Faults) {
    let n = M::K::N;
    let mut m = M::make();
    fresh(rng, &mut m);
    let mut pre = snap(&m);
    let mut post = pre.clone();
    let i = if n > 0 { rng.index(n) } else { 0 };
    let which = if n > 0 { rng.below(24) } else { rng.range(12, 23) };
    op!("{} over {n} keys: {pre:?}; operation {which} at {i}", M::NAME);
    case.obs(which as u64);
    case.obs(i as u64);
    for s in &pre {
        case.obs(s.is_some() as u64);
    }
    let held = pre.iter().flatten().count();
    expect_live("after filling the map", held);
    let what;
    let mut survives = true;
    match which {
        0 | 1 => {
            what = "insert";
            let v = Tracked::new(5);
            post[i] = Some(see(&v));
            let k = M::K::at(i);
            let m = &mut m;
            let r = f.run(what, move || m.insert(k, v));
            if let Some(r) = r {
                check_eq!(r.as_ref().map(see), pre[i], "insert returns the previous value");
            }
        }
        2 => {
            what = "remove";
            post[i] = None;
            let k = M::K::at(i);
            if let Some(r) = f.run(what, || m.remove(&k)) {
                check_eq!(r.as_ref().map(see), pre[i], "remove returns the previous value");
            }
        }
        3 => {
            what = "get, get_mut, contains_key";
            let k = M::K::at(i);
            f.run(what, || {
                m.get(&k).map(see);
                m.get_mut(&k).map(|v| see(v));
                m.contains_key(&k)
            });
        }
        4 | 5 => {
            what = "entry, or_insert";
            let v = Tracked::new(6);
            if post[i].is_none() {
                post[i] = Some(see(&v));
            }
            let k = M::K::at(i);
            let m = &mut m;
            f.run(what, move || see(m.entry(k).or_insert(v)));
        }
        6 => {
            what = "entry, insert if vacant";
            let v = Tracked::new(6);
            if post[i].is_none() {
                post[i] = Some(see(&v));
            }
            let k = M::K::at(i);
            let m = &mut m;
            f.run(what, move || match m.entry(k) {
                Entry::Occupied(o) => drop((see(o.get()), o)),
                Entry::Vacant(e) => e.insert(v),
            });
        }
        7 => {
            what = "entry, replace or drop";
            let v = Tracked::new(6);
            if pre[i].is_some() {
                post[i] = Some(see(&v));
            }
            let k = M::K::at(i);
            let m = &mut m;
            f.run(what, move || {
                let e = m.entry(k);
                if let Entry::Occupied(mut o) = e {
                    let old = std::mem::replace(o.get_mut(), v);
                    drop(o);
                    drop(old);
                } else {
                    drop(e);
                }
            });
        }
        8 => {
            what = "insert in a row";
            // Overwrites the same slot again and again.
            let vs: Vec<Tracked> = (0..4).map(|x| Tracked::new(50 + x)).collect();
            let all: Vec<Slot> = vs.iter().map(|v| Some(see(v))).collect();
            post[i] = all[3];
            let m2 = &mut m;
            f.run(what, move || {
                for v in vs {
                    drop(m2.insert(M::K::at(i), v));
                }
            });
            if f.fired.is_some() {
                let now = m.get(&M::K::at(i)).map(see);
                check!(
                    now == pre[i] || all.contains(&now),
                    "{what}: slot {i} holds {now:?} after the panic"
                );
                pre[i] = now;
            }
        }
        9 => {
            what = "remove everything key by key";
            post.fill(None);
            let m = &mut m;
            f.run(what, move || {
                for j in 0..n {
                    drop(m.remove(&M::K::at(j)));
                }
            });
        }
        10 | 11 => {
            what = "insert and forget the entry";
            let k = M::K::at(i);
            let v = Tracked::new(8);
            if post[i].is_none() {
                post[i] = Some(see(&v));
            }
            let m = &mut m;
            f.run(what, move || {
                let r = m.entry(k).or_insert(v);
                call_cb("after or_insert");
                see(r);
            });
        }
        12 => {
            what = "clear";
            post.fill(None);
            f.run(what, || m.clear());
        }
        13 => {
            what = "drain, dropped early";
            post.fill(None);
            let (a, b) = (rng.below(4), rng.below(4));
            let keep = rng.chance(1, 2);
            let m = &mut m;
            let r = f.run(what, move || {
                let mut out = Vec::new();
                let mut d = m.drain();
                for _ in 0..a {
                    out.extend(d.next());
                    if !keep {
                        out.clear();
                    }
                    call_cb("between drained entries");
                }
                for _ in 0..b {
                    out.extend(d.next_back());
                    if !keep {
                        out.clear();
                    }
                    call_cb("between drained entries");
                }
                drop(d);
                out
            });
            if let Some(out) = &r {
                for (k, v) in out {
                    check_eq!(pre[k.idx()], Some(see(v)), "drained entry");
                }
            }
        }
        14 => {
            what = "drain to the end";
            post.fill(None);
            let rev = rng.chance(1, 2);
            let nth = rng.chance(1, 3);
            let m = &mut m;
            f.run(what, move || {
                let mut d = m.drain();
                if nth {
                    d.nth(1);
                    d.nth_back(0);
                }
                if rev {
                    d.rev().for_each(|x| {
                        call_cb("for_each");
                        drop(x)
                    })
                } else {
                    d.for_each(|x| {
                        call_cb("for_each");
                        drop(x)
                    })
                }
            });
        }
        15 | 16 => {
            what = "retain";
            let modulus = rng.range(1, 3);
            let phase = rng.below(3);
            let bump = rng.chance(1, 2);
            let keeps = |k: usize| (k + phase) % modulus.max(2) != 0 && modulus > 1;
            let mut offered: Vec<(usize, bool)> = Vec::new();
            let log = &mut offered;
            let m2 = &mut m;
            let mut has = true;
            let hr = &mut has;
            f.run(what, move || {
                *hr = m2.retain(|k, v| {
                    let i = k.idx();
                    log.push((i, false));
                    call_cb("before the decision of retain");
                    if bump {
                        v.set(v.get() + 7);
                    }
                    log.last_mut().unwrap().1 = true;
                    call_cb("after the decision of retain");
                    keeps(i)
                });
            });
            if has {
                for (k, x) in post.iter_mut().enumerate() {
                    if let Some(x) = x {
                        if bump {
                            x.1 += 7;
                        }
                        // What the predicate has not seen is as it was.
                        if f.fired.is_some() && !offered.contains(&(k, true)) {
                            x.1 = pre[k].unwrap().1;
                        }
                        pre[k] = Some(*x);
                    }
                }
                // Decided: offered before the one at which the panic struck.
                let last = offered.last().map(|x| x.0);
                if f.fired.is_some() && f.kind & (fault::KEY | fault::CALLBACK) != 0 {
                    let now = snap(&m);
                    for k in 0..n {
                        let reached = offered.iter().any(|x| x.0 == k) && last != Some(k);
                        if pre[k].is_some() && (!reached || keeps(k)) && last != Some(k) {
                            check_eq!(
                                now[k],
                                pre[k],
                                "retain interrupted at {last:?}: entry {k} that it kept or had not reached"
                            );
                        }
                    }
                }
                for k in 0..n {
                    if !keeps(k) && (f.fired.is_none() || offered.iter().any(|x| x.0 == k)) {
                        post[k] = None;
                    }
                }
            }
        }
        17 => {
            what = "clone";
            let c = f.run(what, || m.clone());
            if let Some(mut c) = c {
                expect_live("two maps", 2 * held);
                let vals = |s: &[Slot]| s.iter().map(|x| x.map(|x| x.1)).collect::<Vec<_>>();
                check_eq!(vals(&snap(&c)), vals(&pre), "contents of the clone");
                for (a, b) in snap(&c).iter().zip(&pre) {
                    check!(a.is_none() || a != b, "the clone shares a value with the original");
                }
                consistent(&mut c, "clone");
                if rng.chance(1, 2) {
                    c.clear();
                    expect_live("a cleared clone", held);
                }
            }
        }
        18 => {
            what = "Debug of the map and its iterators";
            let (front, back) = (rng.below(3), rng.below(3));
            f.run(what, || {
                let mut it = m.iter();
                for _ in 0..front {
                    it.next();
                }
                for _ in 0..back {
                    it.next_back();
                }
                format!("{m:?} {m:#?} {:?} {:?} {:?}", it, m.values(), m.iter())
            });
            f.kind &= !fault::DEBUG;
        }
        19 => {
            what = "iterate by reference";
            f.run(what, || {
                for (k, v) in m.iter() {
                    call_cb("loop body");
                    k.idx();
                    see(v);
                }
                for k in m.keys() {
                    k.idx();
                }
                let mut it = m.ref_iter();
                it.nth(1);
                let c = it.clone();
                it.next_back();
                c.rev().count() + it.count() + m.len() + usize::from(m.is_empty())
            });
        }
        20 => {
            what = "iter_mut, replacing values";
            let mut written: Vec<(usize, (u64, u64))> = Vec::new();
            let log = &mut written;
            let m2 = &mut m;
            let rev = rng.chance(1, 2);
            f.run(what, move || {
                let mut body = |(k, v): (M::K, &mut Tracked)| {
                    call_cb("loop body");
                    let new = Tracked::new(v.get() + 1);
                    log.push((k.idx(), see(&new)));
                    *v = new;
                };
                if rev {
                    m2.iter_mut().rev().for_each(&mut body)
                } else {
                    m2.iter_mut().for_each(&mut body)
                }
            });
            for (k, s) in &written {
                post[*k] = Some(*s);
                if f.kind & fault::DROP == 0 {
                    // The write happened.
                    pre[*k] = Some(*s);
                }
            }
            if f.fired.is_none() {
                check_eq!(written.len(), held, "values visited by iter_mut");
            }
        }
        21 => {
            what = "collect";
            let pairs: Vec<(usize, u64)> = if n == 0 {
                vec![]
            } else {
                (0..rng.below(7)).map(|x| (rng.index(n), 90 + x as u64)).collect()
            };
            let exp: Vec<Option<u64>> = (0..n)
                .map(|k| pairs.iter().rev().find(|p| p.0 == k).map(|p| p.1))
                .collect();
            let c = f.run(what, || {
                M::collect(pairs.iter().map(|(k, v)| {
                    fault::point(fault::ITER, "source iterator");
                    (M::K::at(*k), Tracked::new(*v))
                }))
            });
            if let Some(mut c) = c {
                let got: Vec<Option<u64>> = snap(&c).iter().map(|x| x.map(|x| x.1)).collect();
                check_eq!(got, exp, "collected map");
                consistent(&mut c, what);
                expect_live("a collected map", held + exp.iter().flatten().count());
            }
        }
        22 => {
            what = "into_iter, dropped early";
            survives = false;
            let (a, b) = (rng.below(4), rng.below(4));
            let style = rng.below(4);
            let m = std::mem::replace(&mut m, M::make());
            let r = f.run(what, move || {
                let mut it = m.into_it();
                let mut out = Vec::new();
                for _ in 0..a {
                    out.extend(it.next());
                }
                for _ in 0..b {
                    out.extend(it.next_back());
                }
                match style {
                    0 => drop(it),
                    1 => {
                        let mut c = it.clone();
                        c.next();
                        drop(it);
                        drop(c);
                    }
                    2 => {
                        it.nth(1);
                        it.nth_back(1);
                        let _ = format!("{it:?}");
                    }
                    _ => {
                        it.last();
                    }
                }
                out
            });
            if let Some(out) = r {
                expect_live("entries taken from into_iter", out.len() * per_entry::<M::K>());
                for (k, v) in &out {
                    check_eq!(pre[k.idx()], Some(see(v)), "entry of into_iter");
                }
            }
        }
        _ => {
            what = "drop of the map";
            survives = false;
            let m = std::mem::replace(&mut m, M::make());
            f.run(what, move || drop(m));
            if f.fired.is_none() {
                expect_live("after dropping the map", 0);
            }
        }
    }
    if survives {
        let now = snap(&m);
        for k in 0..n {
            if f.fired.is_none() {
                check_eq!(now[k], post[k], "{what}: slot {k} afterwards");
            } else {
                check!(
                    now[k] == pre[k] || now[k] == post[k],
                    "{what}: slot {k} holds {:?} after the panic, before it {:?}, completed {:?}",
                    now[k],
                    pre[k],
                    post[k]
                );
            }
        }
        consistent(&mut m, what);
        if f.kind & fault::DROP == 0 {
            expect_live(what, now.iter().flatten().count());
        }
        if n > 0 {
            usable(&mut m, i, what);
        }
    }
    drop(m);
    if held > 0 {
        case.mark();
    }
    case.count(what);
    f.balance(what);
}

/// Ledger objects of one (key, value) pair.
fn per_entry<K: TestKey>() -> usize {
    if K::N == 0 {
        return 1;
    }
    let before = live();
    let k = K::at(0);
    let r = live() - before;
    drop(k);
    1 + r as usize
}

fn snap_total<M: Total<V = Tracked>>(m: &M) -> Vec<(u64, u64)> {
    (0..M::K::N).map(|i| see(m.get(&M::K::at(i)))).collect()
}

fn consistent_total<M: Total<V = Tracked>>(m: &M, what: &str) {
    let exp: Vec<_> = snap_total(m).into_iter().enumerate().collect();
    let got: Vec<_> = m.iter().map(|(k, v)| (k.idx(), see(v))).collect();
    check_eq!(got, exp, "{what}: entries and lookups disagree");
    let vals: Vec<_> = m.values().map(see).enumerate().collect();
    check_eq!(vals, exp, "{what}: values and lookups disagree");
}

/// One operation on a total map.
pub fn total<M: Total<V = Tracked>>(rng: &mut Rng, case: &mut Case, f: &mut Faults) {
    let n = M::K::N;
    let which = rng.below(12);
    case.obs(which as u64);
    op!("{} over {n} keys, operation {which}", M::NAME);
    let what;
    if n > 0 {
        case.mark();
    }
    if which < 3 {
        match which {
            0 => {
                what = "new";
                let m = f.run(what, || {
                    M::make(|k| {
                        call_cb("initialiser");
                        Tracked::new(k.idx() as u64)
                    })
                });
                if let Some(m) = m {
                    expect_live(what, n);
                    consistent_total(&m, what);
                }
            }
            1 => {
                what = "try_new";
                let fail = rng.below(n + 1);
                let early = rng.chance(1, 2);
                let m = f.run(what, || {
                    M::try_make(|k| {
                        call_cb("initialiser");
                        let v = Tracked::new(k.idx() as u64);
                        if k.idx() == fail {
                            if early {
                                drop(v);
                                return Err(Tracked::new(4242));
                            }
                            return Err(v);
                        }
                        Ok(v)
                    })
                });
                match m {
                    Some(Ok(m)) => {
                        check_eq!(fail, n, "try_new succeeded although key {fail} failed");
                        expect_live(what, n);
                        consistent_total(&m, what);
                    }
                    Some(Err(e)) => {
                        check_eq!(
                            e.get(),
                            if early { 4242 } else { fail as u64 },
                            "error of try_new"
                        );
                        expect_live("failed try_new", 1);
                        case.count("failed constructions");
                    }
                    None => {}
                }
            }
            _ => {
                what = "default";
                let m = f.run(what, M::make_default);
                if let Some(m) = m {
                    expect_live(what, n);
                    consistent_total(&m, what);
                }
            }
        }
        case.count(what);
        f.balance(what);
        return;
    }
    let mut m = M::make(|k| Tracked::new(100 + k.idx() as u64));
    let mut pre = snap_total(&m);
    let mut post = pre.clone();
    let i = if n > 0 { rng.index(n) } else { 0 };
    case.obs(i as u64);
    match which {
        3 | 4 if n > 0 => {
            what = "insert";
            let v = Tracked::new(5);
            post[i] = see(&v);
            let k = M::K::at(i);
            let m = &mut m;
            if let Some(r) = f.run(what, move || m.insert(k, v)) {
                check_eq!(see(&r), pre[i], "insert returns the previous value");
                expect_live(what, n + 1);
            }
        }
        5 if n > 0 => {
            what = "get, get_mut, index, index_mut";
            let v = Tracked::new(6);
            post[i] = see(&v);
            let k = M::K::at(i);
            let m = &mut m;
            f.run(what, move || {
                see(m.get(&k));
                see(m.get_mut(&k));
                see(&m[&k]);
                m[&k] = v;
            });
        }
        6 => {
            what = "clone";
            if let Some(c) = f.run(what, || m.clone()) {
                expect_live(what, 2 * n);
                consistent_total(&c, what);
                for (a, b) in snap_total(&c).iter().zip(&pre) {
                    check!(a.0 != b.0 && a.1 == b.1, "clone of {b:?} is {a:?}");
                }
            }
        }
        7 => {
            what = "into_iter, dropped early";
            let (a, b) = (rng.below(4), rng.below(4));
            let style = rng.below(4);
            let r = f.run(what, move || {
                let mut it = m.into_it();
                let mut out = Vec::new();
                for _ in 0..a {
                    out.extend(it.next());
                }
                for _ in 0..b {
                    out.extend(it.next_back());
                }
                match style {
                    0 => drop(it),
                    1 => {
                        let mut c = it.clone();
                        c.next_back();
                        drop(it);
                        drop(c);
                    }
                    2 => {
                        it.nth(1);
                        it.nth_back(1);
                        let _ = format!("{it:?}");
                    }
                    _ => {
                        it.last();
                    }
                }
                out
            });
            if let Some(out) = r {
                expect_live("entries taken from into_iter", out.len() * per_entry::<M::K>());
                for (k, v) in &out {
                    check_eq!(see(v), pre[k.idx()], "entry of into_iter");
                }
            }
            drop(pre);
            drop(post);
            case.count(what);
            f.balance(what);
            return;
        }
        8 => {
            what = "iter_mut, replacing values";
            let mut written: Vec<(usize, (u64, u64))> = Vec::new();
            let log = &mut written;
            let rev = rng.chance(1, 2);
            let m2 = &mut m;
            f.run(what, move || {
                let mut body = |(k, v): (M::K, &mut Tracked)| {
                    call_cb("loop body");
                    let new = Tracked::new(v.get() + 1);
                    log.push((k.idx(), see(&new)));
                    *v = new;
                };
                if rev {
                    m2.iter_mut().rev().for_each(&mut body)
                } else {
                    m2.iter_mut().for_each(&mut body)
                }
            });
            for (k, s) in &written {
                post[*k] = *s;
                if f.kind & fault::DROP == 0 {
                    pre[*k] = *s;
                }
            }
        }
        9 => {
            what = "Debug and iteration";
            f.run(what, || {
                let mut it = m.iter();
                it.next();
                it.next_back();
                for (k, v) in m.ref_iter() {
                    call_cb("loop body");
                    k.idx();
                    see(v);
                }
                let keys = m.keys().map(|k| k.idx()).sum::<usize>();
                (format!("{m:?} {it:?} {m:#?}"), keys)
            });
        }
        10 => {
            what = "into_values";
            let vs = f.run(what, move || m.into_vals());
            if let Some(vs) = vs {
                check_eq!(vs.iter().map(see).collect::<Vec<_>>(), pre, "into_values");
                expect_live(what, n);
            }
            case.count(what);
            f.balance(what);
            return;
        }
        _ => {
            what = "into_keys or drop";
            let keys = rng.chance(1, 2);
            f.run(what, move || {
                if keys {
                    let mut ks = m.into_keys();
                    ks.next();
                    ks.next_back();
                    drop(ks);
                } else {
                    drop(m);
                }
            });
            if f.fired.is_none() {
                expect_live(what, 0);
            }
            case.count(what);
            f.balance(what);
            return;
        }
    }
    let now = snap_total(&m);
    for k in 0..n {
        check!(
            now[k] == post[k] || (f.fired.is_some() && now[k] == pre[k]),
            "{what}: slot {k} holds {:?}, before {:?}, completed {:?}",
            now[k],
            pre[k],
            post[k]
        );
    }
    consistent_total(&m, what);
    if f.kind & fault::DROP == 0 {
        expect_live(what, n);
    }
    if n > 0 {
        let v = Tracked::new(9);
        let id = v.id();
        let old = m.insert(M::K::at(i), v);
        check_eq!(see(&old), now[i], "insert afterwards");
        check_eq!(m.get(&M::K::at(i)).id(), id, "get afterwards");
    }
    drop(m);
    case.count(what);
    f.balance(what);
}

/// Operations only the total array map has.
pub fn total_array<K: TestKey, const S: usize>(rng: &mut Rng, case: &mut Case, f: &mut Faults) {
    type A<K, V, const S: usize> = OrdinalTotalArrayMap<K, V, S>;
    let mut next = 0;
    let mut arr = || -> [Tracked; S] {
        std::array::from_fn(|_| {
            next += 1;
            Tracked::new(next)
        })
    };
    let a = arr();
    let ids: Vec<(u64, u64)> = a.iter().map(see).collect();
    let mut m = A::<K, Tracked, S>::from_array(a);
    expect_live("from_array", S);
    let which = rng.below(7);
    op!("array map over {S} keys, operation {which}");
    case.obs(which as u64);
    if S > 0 {
        case.mark();
    }
    let what;
    match which {
        0 => {
            what = "zip";
            let b = A::<K, Tracked, S>::from_array(arr());
            let z = f.run(what, move || m.zip(b));
            if let Some(z) = z {
                expect_live(what, 2 * S);
                let got: Vec<_> = z.values().map(|x| see(&x.0)).collect();
                check_eq!(got, ids, "values of the first map after zip");
                let half = rng.chance(1, 2);
                if half {
                    let mut it = z.into_iter();
                    it.next();
                    it.next_back();
                    drop(it);
                }
            }
        }
        1 => {
            what = "map to new values";
            let r = f.run(what, move || {
                m.map(|k, v| {
                    call_cb("mapping function");
                    let r = Tracked::new(v.get() * 10 + k.idx() as u64);
                    drop(v);
                    call_cb("end of the mapping function");
                    r
                })
            });
            if let Some(r) = r {
                expect_live(what, S);
                for (i, (_, v)) in r.iter().enumerate() {
                    check_eq!(v.get(), ids[i].1 * 10 + i as u64, "mapped value {i}");
                }
            }
        }
        2 => {
            what = "map keeping the values";
            let r = f.run(what, move || {
                m.map(|k, v| {
                    call_cb("mapping function");
                    (v, k)
                })
            });
            if let Some(r) = r {
                let got: Vec<_> = r.values().map(|x| see(&x.0)).collect();
                check_eq!(got, ids, "values kept by map");
            }
        }
        3 => {
            what = "map_values";
            let r = f.run(what, move || {
                m.map_values(|v| {
                    call_cb("mapping function");
                    Box::new(v)
                })
            });
            if let Some(r) = r {
                expect_live(what, S);
                let got: Vec<_> = r.values().map(|x| see(x)).collect();
                check_eq!(got, ids, "values kept by map_values");
            }
        }
        4 => {
            what = "as_ref and as_mut";
            f.run(what, || {
                let r = m.as_ref();
                r.values().map(|v| see(v)).count();
                drop(r);
                let w = m.as_mut();
                let z = w.map(|_, v| {
                    call_cb("mapping function");
                    v.set(v.get() + 1);
                    v
                });
                z.into_values().len()
            });
            let got: Vec<u64> = m.values().map(|v| v.id()).collect();
            check_eq!(got, ids.iter().map(|x| x.0).collect::<Vec<_>>(), "values after as_mut");
            expect_live(what, S);
            drop(m);
        }
        5 => {
            what = "into_values and from_array";
            let r = f.run(what, move || {
                let a = m.into_values();
                call_cb("between conversions");
                A::<K, Tracked, S>::from_array(a)
            });
            if let Some(r) = r {
                expect_live(what, S);
                check_eq!(r.values().map(see).collect::<Vec<_>>(), ids, "values after conversions");
            }
        }
        _ => {
            what = "zip of views";
            let b = A::<K, Tracked, S>::from_array(arr());
            f.run(what, || {
                let z = m.as_mut().zip(b.as_ref());
                let z = z.map_values(|(x, y)| {
                    call_cb("mapping function");
                    x.set(y.get());
                    y.get()
                });
                z.len()
            });
            expect_live(what, 2 * S);
            drop(b);
            drop(m);
        }
    }
    case.count(what);
    f.balance(what);
}

/// Mappings that build owning values.
pub fn composed<T: Ordinal>(rng: &mut Rng, case: &mut Case, f: &mut Faults) {
    let n = T::ORDINAL_SIZE;
    let which = rng.below(6);
    case.obs(which as u64);
    op!("mapping with {n} values, operation {which}");
    let what;
    if n > 0 {
        case.mark();
    }
    match which {
        0 | 1 if n > 0 => {
            what = "from_ordinal in range";
            let i = rng.index(n);
            case.obs(i as u64);
            let v = f.run(what, || T::from_ordinal(i));
            if let Some(v) = v {
                check!(v.is_some(), "from_ordinal({i}) of {n} values");
                check_eq!(v.unwrap().ordinal(), i, "ordinal of from_ordinal({i})");
            }
        }
        2 => {
            what = "from_ordinal out of range";
            let i = match rng.below(5) {
                0 => n,
                1 => usize::MAX,
                2 => n.saturating_add(rng.below(40)),
                3 => n.saturating_mul(rng.range(1, 5)),
                _ => (rng.u64() as usize) | 1 << (usize::BITS - 2),
            };
            case.obs(i as u64);
            let v = f.run(what, || T::from_ordinal(i));
            if let Some(v) = v {
                check!(v.is_none(), "from_ordinal({i}) of {n} values gives a value");
                expect_live(what, 0);
            }
        }
        3 if n > 0 => {
            what = "ordinal";
            let i = rng.index(n);
            let v = T::from_ordinal(i).unwrap();
            let l = live();
            let o = f.run(what, || v.ordinal());
            check!(o.is_none() || o == Some(i), "ordinal of value {i}");
            expect_live(what, l as usize);
            drop(v);
        }
        _ => {
            what = "all values";
            let (a, b) = (rng.below(4), rng.below(4));
            let limit = n.min(60);
            f.run(what, || {
                let mut it = T::all_values();
                let mut held = Vec::new();
                for _ in 0..a {
                    held.extend(it.next());
                }
                for _ in 0..b {
                    held.extend(it.next_back());
                }
                it.nth(1);
                it.nth_back(1);
                let c = it.clone();
                for v in it.take(limit) {
                    call_cb("loop body");
                    drop(v);
                }
                drop(c);
            });
            if f.fired.is_none() {
                expect_live(what, 0);
            }
        }
    }
    case.count(what);
    f.balance(what);
}

pub trait OwnSet<K>: Clone + Debug + FromIterator<K> + Default {
    fn ins(&mut self, k: K) -> bool;
    fn has(&self, k: &K) -> bool;
    fn walk(&self, front: usize, back: usize) -> Vec<K>;
}

macro_rules! own_set {
    ($([$($g:tt)*] $t:ty, |$s:ident, $a:ident, $b:ident| $walk:expr;)*) => {
        $(impl<K: TestKey, $($g)*> OwnSet<K> for $t {
            fn ins(&mut self, k: K) -> bool {
                self.insert(k)
            }
            fn has(&self, k: &K) -> bool {
                self.contains(k)
            }
            fn walk(&self, $a: usize, $b: usize) -> Vec<K> {
                let $s = self;
                $walk
            }
        })*
    };
}

fn walk_it<K>(mut it: impl DoubleEndedIterator<Item = K> + Clone + Debug, a: usize, b: usize) -> Vec<K> {
    let mut r = Vec::new();
    for _ in 0..a {
        r.extend(it.next());
    }
    for _ in 0..b {
        r.extend(it.next_back());
    }
    let c = it.clone();
    for k in it {
        call_cb("loop body");
        r.push(k);
    }
    c.rev().for_each(drop);
    r
}

own_set! {
    [] OrdinalSet<K>, |s, a, b| walk_it(s.iter(), a, b);
    [] OrdinalSet64<K>, |s, a, b| walk_it(s.iter(), a, b);
    [const S: usize] OrdinalArraySet<K, S>, |s, a, b| {
        let _ = (s, a, b);
        Vec::new()
    };
}

/// One operation on a set of owning keys.
pub fn set<K: TestKey, T: OwnSet<K>>(rng: &mut Rng, case: &mut Case, f: &mut Faults) {
    let n = K::N;
    let mut model: Vec<bool> = (0..n).map(|_| rng.chance(1, 2)).collect();
    let mut s: T = (0..n).filter(|i| model[*i]).map(K::at).collect();
    expect_live("a set holds no keys", 0);
    let which = rng.below(6);
    op!("set over {n} keys, operation {which}");
    case.obs(which as u64);
    if n > 0 {
        case.mark();
    }
    let what;
    let mut may = None;
    match which {
        0 | 1 if n > 0 => {
            what = "insert";
            let i = rng.index(n);
            let k = K::at(i);
            let s = &mut s;
            let r = f.run(what, move || s.ins(k));
            if let Some(r) = r {
                check_eq!(r, !model[i], "insert({i}) tells whether it was absent");
                model[i] = true;
            } else {
                may = Some(i);
            }
        }
        2 if n > 0 => {
            what = "contains";
            let i = rng.index(n);
            let k = K::at(i);
            let r = f.run(what, || s.has(&k));
            check!(r.is_none() || r == Some(model[i]), "contains({i})");
        }
        3 => {
            what = "collect";
            let r: Option<T> = f.run(what, || {
                (0..n)
                    .rev()
                    .map(|i| {
                        fault::point(fault::ITER, "source iterator");
                        K::at(i)
                    })
                    .collect()
            });
            if let Some(r) = r {
                check!((0..n).all(|i| r.has(&K::at(i))), "collected set lacks a member");
            }
        }
        4 => {
            what = "Debug and clone";
            f.run(what, || format!("{s:?} {:#?}", s.clone()));
        }
        _ => {
            what = "iterate";
            let (a, b) = (rng.below(3), rng.below(3));
            f.run(what, || s.walk(a, b).len());
        }
    }
    for i in 0..n {
        let h = s.has(&K::at(i));
        check!(
            h == model[i] || may == Some(i),
            "{what}: contains({i}) is {h} afterwards"
        );
    }
    expect_live(what, 0);
    if n > 0 {
        s.ins(K::at(n - 1));
        check!(s.has(&K::at(n - 1)), "{what}: insert afterwards");
    }
    drop(s);
    case.count(what);
    f.balance(what);
}

pub fn atomic<K: TestKey>(rng: &mut Rng, case: &mut Case, f: &mut Faults) {
    use std::sync::atomic::Ordering::*;
    let n = K::N;
    let (i, j, l) = (rng.index(n), rng.index(n), rng.index(n));
    let a = AtomicOrdinal::new(K::at(i));
    expect_live("an atomic cell holds no key", 0);
    case.mark();
    let what;
    let which = rng.below(4);
    case.obs(which as u64);
    let post = match which {
        0 => {
            what = "store";
            let k = K::at(j);
            f.run(what, || a.store(k, SeqCst));
            j
        }
        1 => {
            what = "load";
            if let Some(k) = f.run(what, || a.load(SeqCst)) {
                check_eq!(k.idx(), i, "loaded value");
            }
            i
        }
        2 => {
            what = "compare_exchange";
            let (x, y) = (K::at(j), K::at(l));
            let r = f.run(what, || a.compare_exchange(x, y, SeqCst, SeqCst));
            match r {
                Some(Ok(k)) => check!(i == j && k.idx() == i, "exchange succeeded"),
                Some(Err(k)) => check!(i != j && k.idx() == i, "exchange failed"),
                None => {}
            }
            if i == j {
                l
            } else {
                i
            }
        }
        _ => {
            what = "Debug";
            f.run(what, || format!("{a:?}"));
            i
        }
    };
    let now = a.load(SeqCst).idx();
    check!(
        now == post || (f.fired.is_some() && now == i),
        "{what}: holds {now} afterwards, {i} before"
    );
    a.store(K::at(0), SeqCst);
    check_eq!(a.load(SeqCst).idx(), 0, "cell afterwards");
    drop(a);
    case.count(what);
    f.balance(what);
}

#[derive(Ordinal)]
pub struct Rec {
    pub a: OKey<3>,
    pub b: Option<OKey<2>>,
}

#[derive(Ordinal)]
pub enum Var {
    Unit,
    Pair(OKey<2>, OKey<3>),
    Rec { x: Box<OKey<2>>, y: [OKey<2>; 2] },
    Last(OKey<4>),
}

macro_rules! scenarios {
    ($($name:expr => $f:expr;)*) => {
        vec![$(($name, $f as Scenario)),*]
    };
}

pub fn all() -> Vec<(&'static str, Scenario)> {
    type V = Tracked;
    scenarios! {
        "OrdinalMap<Key<6>>" => sparse::<OrdinalMap<Key<6>, V>>;
        "OrdinalMap<OKey<6>>" => sparse::<OrdinalMap<OKey<6>, V>>;
        "OrdinalMap<OKey<1>>" => sparse::<OrdinalMap<OKey<1>, V>>;
        "OrdinalMap<Key<0>>" => sparse::<OrdinalMap<Key<0>, V>>;
        "OrdinalMap<Key<33>>" => sparse::<OrdinalMap<Key<33>, V>>;
        "OrdinalArrayMap<Key<6>>" => sparse::<OrdinalArrayMap<Key<6>, V, 6>>;
        "OrdinalArrayMap<OKey<6>>" => sparse::<OrdinalArrayMap<OKey<6>, V, 6>>;
        "OrdinalArrayMap<OKey<1>>" => sparse::<OrdinalArrayMap<OKey<1>, V, 1>>;
        "OrdinalArrayMap<Key<0>>" => sparse::<OrdinalArrayMap<Key<0>, V, 0>>;
        "OrdinalArrayMap<Key<33>>" => sparse::<OrdinalArrayMap<Key<33>, V, 33>>;
        "OrdinalTotalMap<Key<6>>" => total::<OrdinalTotalMap<Key<6>, V>>;
        "OrdinalTotalMap<OKey<6>>" => total::<OrdinalTotalMap<OKey<6>, V>>;
        "OrdinalTotalMap<Key<0>>" => total::<OrdinalTotalMap<Key<0>, V>>;
        "OrdinalTotalMap<Key<33>>" => total::<OrdinalTotalMap<Key<33>, V>>;
        "OrdinalTotalArrayMap<Key<6>>" => total::<OrdinalTotalArrayMap<Key<6>, V, 6>>;
        "OrdinalTotalArrayMap<OKey<6>>" => total::<OrdinalTotalArrayMap<OKey<6>, V, 6>>;
        "OrdinalTotalArrayMap<OKey<1>>" => total::<OrdinalTotalArrayMap<OKey<1>, V, 1>>;
        "OrdinalTotalArrayMap<Key<33>>" => total::<OrdinalTotalArrayMap<Key<33>, V, 33>>;
        "array operations Key<6>" => total_array::<Key<6>, 6>;
        "array operations OKey<5>" => total_array::<OKey<5>, 5>;
        "array operations OKey<1>" => total_array::<OKey<1>, 1>;
        "array operations Key<0>" => total_array::<Key<0>, 0>;
        "array operations Key<33>" => total_array::<Key<33>, 33>;
        "[OKey<3>; 4]" => composed::<[OKey<3>; 4]>;
        "[OKey<2>; 1]" => composed::<[OKey<2>; 1]>;
        "[OKey<2>; 0]" => composed::<[OKey<2>; 0]>;
        "[OKey<1>; 3]" => composed::<[OKey<1>; 3]>;
        "[OKey<0>; 2]" => composed::<[OKey<0>; 2]>;
        "[[OKey<2>; 2]; 3]" => composed::<[[OKey<2>; 2]; 3]>;
        "[Box<OKey<2>>; 3]" => composed::<[Box<OKey<2>>; 3]>;
        "[Option<OKey<2>>; 3]" => composed::<[Option<OKey<2>>; 3]>;
        "(OKey<3>, OKey<2>, Option<OKey<2>>)" => composed::<(OKey<3>, OKey<2>, Option<OKey<2>>)>;
        "(OKey<2>, OKey<0>)" => composed::<(OKey<2>, OKey<0>)>;
        "Result<OKey<2>, OKey<3>>" => composed::<Result<OKey<2>, OKey<3>>>;
        "Either<OKey<2>, [OKey<3>; 2]>" => composed::<Either<OKey<2>, [OKey<3>; 2]>>;
        "Box<OKey<4>>" => composed::<Box<OKey<4>>>;
        "derived struct" => composed::<Rec>;
        "derived enum" => composed::<Var>;
        "OrdinalSet<OKey<5>>" => set::<OKey<5>, OrdinalSet<OKey<5>>>;
        "OrdinalSet<OKey<64>>" => set::<OKey<64>, OrdinalSet<OKey<64>>>;
        "OrdinalSet<OKey<67>>" => set::<OKey<67>, OrdinalSet<OKey<67>>>;
        "OrdinalSet64<OKey<7>>" => set::<OKey<7>, OrdinalSet64<OKey<7>>>;
        "OrdinalArraySet<OKey<70>>" => set::<OKey<70>, OrdinalArraySet<OKey<70>, { ordinal_array_set_s::<OKey<70>>() }>>;
        "AtomicOrdinal<OKey<5>>" => atomic::<OKey<5>>;
    }
}

/// A long history over one map, the ledger compared after every step.
pub fn history<M: Sparse<V = Tracked>>(rng: &mut Rng, case: &mut Case) {
    let n = M::K::N;
    let per = per_entry::<M::K>();
    let mut m = M::make();
    let mut model: std::collections::BTreeMap<usize, (u64, u64)> = Default::default();
    // Values taken out of the map and still in use.
    let mut out: Vec<(Tracked, (u64, u64))> = Vec::new();
    let mut x = 0;
    for _ in 0..rng.range(5, 60) {
        let i = rng.index(n);
        x += 1;
        let sel = rng.below(12);
        op!("{sel} at {i}");
        match sel {
            0..=3 => {
                let v = Tracked::new(x);
                let s = see(&v);
                let old = m.insert(M::K::at(i), v);
                let e = model.insert(i, s);
                check_eq!(old.as_ref().map(see), e, "insert({i}) returns the previous value");
                if let (Some(o), true) = (old, rng.chance(1, 2)) {
                    let s = see(&o);
                    out.push((o, s));
                }
                case.mark();
            }
            4 | 5 => {
                let old = m.remove(&M::K::at(i));
                let e = model.remove(&i);
                check_eq!(old.as_ref().map(see), e, "remove({i}) returns the previous value");
                if let (Some(o), true) = (old, rng.chance(1, 2)) {
                    let s = see(&o);
                    out.push((o, s));
                }
            }
            6 => {
                let v = Tracked::new(x);
                let s = see(&v);
                let r = see(m.entry(M::K::at(i)).or_insert(v));
                check_eq!(r, *model.entry(i).or_insert(s), "or_insert({i})");
            }
            7 => {
                let (a, b) = (rng.below(3), rng.below(3));
                if rng.chance(1, 3) {
                    let mut d = m.drain();
                    let mut taken = Vec::new();
                    for _ in 0..a {
                        taken.extend(d.next());
                    }
                    for _ in 0..b {
                        taken.extend(d.next_back());
                    }
                    drop(d);
                    let keys = (taken.len() * (per - 1)) as usize;
                    expect_live("during a drain", taken.len() + out.len() + keys);
                    for (k, v) in taken {
                        check_eq!(Some(&see(&v)), model.get(&k.idx()), "drained entry");
                    }
                    model.clear();
                } else if rng.chance(1, 3) {
                    m.clear();
                    model.clear();
                }
            }
            8 => {
                let c = m.clone();
                expect_live("two maps", 2 * model.len() + out.len());
                let mut it = c.into_it();
                let (a, b) = (rng.below(4), rng.below(4));
                let mut taken = 0;
                for _ in 0..a {
                    taken += it.next().is_some() as usize;
                }
                for _ in 0..b {
                    taken += it.next_back().is_some() as usize;
                }
                expect_live("part of an iterator", 2 * model.len() - taken + out.len());
                let c = it.clone();
                expect_live("two iterators", 3 * model.len() - 2 * taken + out.len());
                if rng.chance(1, 2) {
                    drop(it);
                    drop(c);
                } else {
                    drop(c);
                    it.for_each(drop);
                }
            }
            9 => {
                let m3 = rng.range(1, 4);
                if m.retain(|k, _| k.idx() % m3 != 0) {
                    model.retain(|k, _| k % m3 != 0);
                }
            }
            10 => {
                let pairs: Vec<(M::K, Tracked)> = (0..rng.below(8))
                    .map(|j| (M::K::at(rng.index(n)), Tracked::new(500 + j as u64)))
                    .collect();
                let exp: std::collections::BTreeMap<usize, (u64, u64)> =
                    pairs.iter().map(|(k, v)| (k.idx(), see(v))).collect();
                if rng.chance(1, 3) {
                    m = M::collect(pairs);
                    model = exp;
                } else {
                    drop(pairs);
                }
            }
            _ => {
                out.truncate(rng.below(out.len() + 1));
            }
        }
        expect_live("after a step", model.len() + out.len());
        let got: Vec<_> = m.iter().map(|(k, v)| (k.idx(), see(v))).collect();
        check_eq!(got, model.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), "entries");
        for (o, s) in &out {
            check_eq!(see(o), *s, "value taken out of the map");
        }
        case.obs(model.len() as u64 * 31 + sel as u64);
    }
    case.count("steps of long histories");
    drop(m);
    expect_live("after dropping the map", out.len());
    drop(out);
    expect_live("at the end", 0);
}

pub fn histories() -> Vec<(&'static str, fn(&mut Rng, &mut Case))> {
    type V = Tracked;
    vec![
        ("OrdinalMap<Key<9>>", history::<OrdinalMap<Key<9>, V>> as fn(&mut Rng, &mut Case)),
        ("OrdinalMap<OKey<5>>", history::<OrdinalMap<OKey<5>, V>>),
        ("OrdinalMap<OKey<70>>", history::<OrdinalMap<OKey<70>, V>>),
        ("OrdinalArrayMap<Key<9>>", history::<OrdinalArrayMap<Key<9>, V, 9>>),
        ("OrdinalArrayMap<OKey<5>>", history::<OrdinalArrayMap<OKey<5>, V, { size::<OKey<5>>() }>>),
        ("OrdinalArrayMap<OKey<70>>", history::<OrdinalArrayMap<OKey<70>, V, 70>>),
    ]
}

/// All points at which user code runs during the scenario's operation, one by one.
pub fn enumerate(rng: &mut Rng, case: &mut Case, s: Scenario, masks: &[u32], cap: u64) -> u64 {
    let seed = rng.u64();
    let mut injected = 0;
    let again = |f: &mut Faults, case: &mut Case| {
        tracked::reset();
        crate::keys::reset_budget();
        s(&mut Rng::new(seed), case, f);
    };
    for mask in masks {
        let mut f = Faults::at(*mask, 0);
        again(&mut f, case);
        let points = f.points;
        case.add("fault points found", points);
        let stride = points.div_ceil(cap).max(1);
        let mut k = 1;
        while k <= points {
            let mut f = Faults::at(*mask, k);
            again(&mut f, case);
            check!(f.fired.is_some(), "point {k} of {points} was not reached again");
            case.obs_str(f.fired.unwrap());
            case.obs(k);
            injected += 1;
            k += stride;
        }
    }
    injected
}
