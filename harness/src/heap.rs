//! What operations of the containers allocate, watched through a counting allocator.

use std::collections::BTreeSet;
use std::fmt;
use std::fmt::Debug;
use std::fmt::Write;
use std::mem::size_of;
use std::ops::Index;
use std::ops::IndexMut;

use ordinal_map::map::total::OrdinalTotalArrayMap;
use ordinal_map::map::total::OrdinalTotalMap;
use ordinal_map::map::Entry;
use ordinal_map::set::OrdinalArraySet;
use ordinal_map::set::OrdinalSet;
use ordinal_map::set::OrdinalSet64;
use ordinal_map::AtomicOrdinal;
use ordinal_map::Ordinal;

use crate::alloc::cost;
use crate::alloc::Counts;
use crate::check;
use crate::keys::TestKey;
use crate::maps::Sparse;
use crate::maps::Total;
use crate::mon::Case;
use crate::op;
use crate::rng::Rng;
use crate::vals::TestVal;

/// Writer that keeps nothing.
#[derive(Default)]
struct Nowhere(u64);

impl Write for Nowhere {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}

/// Formats `x`, returning how many bytes it came to.
fn print(x: &impl Debug, alt: bool) -> u64 {
    let mut w = Nowhere::default();
    if alt {
        write!(w, "{x:#?}").unwrap();
    } else {
        write!(w, "{x:?}").unwrap();
    }
    w.0
}

/// Uses an iterator in random ways that need no heap of their own.
fn drive<I: DoubleEndedIterator>(r: &mut Rng, mut it: I) -> u64 {
    let mut seen = 0;
    for _ in 0..r.below(12) {
        seen += match r.below(6) {
            0 | 1 => it.next().is_some() as u64,
            2 | 3 => it.next_back().is_some() as u64,
            4 => it.nth(r.below(3)).is_some() as u64,
            _ => it.size_hint().0 as u64 & 1,
        };
    }
    match r.below(6) {
        0 => seen,
        1 => seen + it.count() as u64,
        2 => seen + it.last().is_some() as u64,
        3 => seen + it.rfold(0, |n, _| n + 1),
        4 => {
            it.by_ref().take(3).for_each(drop);
            seen + it.rev().count() as u64
        }
        _ => {
            for _ in it {
                seen += 1;
            }
            seen
        }
    }
}

/// The same for iterators that can be cloned.
fn drive_clone<I: DoubleEndedIterator + Clone>(r: &mut Rng, mut it: I) -> u64 {
    let mut seen = 0;
    for _ in 0..r.below(3) {
        seen += it.next().is_some() as u64 + it.next_back().is_some() as u64;
    }
    seen += drive(r, it.clone());
    seen + drive(r, it)
}

fn none(what: &str, c: Counts) {
    check!(
        c.allocs == 0 && c.reallocs == 0,
        "{what} allocated: {} new and {} resized blocks, the last of {} bytes",
        c.allocs,
        c.reallocs,
        c.last
    );
}

/// One block obtained, and of a sensible size.
fn one(what: &str, c: Counts, least: usize, most: usize) {
    check!(
        c.allocs == 1 && c.grows == 0 && c.live_blocks == 1,
        "{what} obtained {} blocks ({} grown, {} kept) instead of one block",
        c.allocs,
        c.grows,
        c.live_blocks
    );
    check!(
        c.live_bytes >= least as i64 && c.live_bytes <= (2 * most + 64) as i64,
        "{what} obtained {} bytes, not the whole storage of {most}",
        c.live_bytes
    );
}

/// Where a heap container is in its life.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Stage {
    /// Never stored anything.
    Empty,
    Full,
}

pub fn sparse<M: Sparse>(r: &mut Rng, case: &mut Case, heap: bool)
where
    M::V: TestVal,
{
    let n = M::K::N;
    let least = n * size_of::<M::V>();
    let most = n * size_of::<Option<M::V>>();
    // A container never needs a block for nothing.
    let heap = heap && most > 0;
    let mut stage = Stage::Empty;
    let fill = *r.pick(&[0, 1, 3, 20]);
    let label = |s: &str| format!("{s} of {}<{n} keys, {}>", M::NAME, M::V::NAME);
    let mut m = match r.below(3) {
        0 => {
            let (m, c) = cost(M::make);
            none(&label("new"), c);
            m
        }
        1 => {
            let (m, c) = cost(M::default);
            none(&label("default"), c);
            m
        }
        _ => {
            let k = if n == 0 { 0 } else { r.below(fill + 1) };
            let mut r2 = Rng::new(r.u64());
            let (m, c) = cost(|| M::collect((0..k).map(|_| (M::K::at(r2.below(n)), M::V::mk(r2.u64())))));
            if k > 0 && heap {
                one(&label("collect"), c, least, most);
                stage = Stage::Full;
            } else {
                none(&label("collect"), c);
            }
            m
        }
    };
    case.obs(stage as u64);
    let steps = r.range(1, 60);
    for _ in 0..steps {
        let key = if n == 0 { None } else { Some(r.index(n)) };
        let at = || M::K::at(key.unwrap());
        let x = r.u64();
        let alt = r.chance(1, 2);
        let fork = r.u64();
        let mut r2 = Rng::new(fork);
        let what = r.below(22);
        let mut first = false;
        let (name, (out, c)) = match (what, key) {
            (0, Some(_)) => ("get", cost(|| m.get(&at()).is_some() as u64)),
            (1, Some(_)) => ("get_mut", cost(|| m.get_mut(&at()).map(|v| v.wr(x)).is_some() as u64)),
            (2, Some(_)) => ("contains_key", cost(|| m.contains_key(&at()) as u64)),
            (3, _) => ("len", cost(|| m.len() as u64)),
            (4, _) => ("is_empty", cost(|| m.is_empty() as u64)),
            (5..=7, Some(_)) if r.below(20) < fill => {
                first = true;
                ("insert", cost(|| m.insert(at(), M::V::mk(x)).is_some() as u64))
            }
            (8, Some(_)) => ("remove", cost(|| m.remove(&at()).is_some() as u64)),
            (9, Some(_)) if r.below(20) < fill => {
                first = true;
                let deep = r.chance(1, 2);
                ("entry", cost(|| match m.entry(at()) {
                    Entry::Occupied(mut e) => {
                        e.get_mut().wr(x);
                        e.get().rd() & 1
                    }
                    Entry::Vacant(e) => {
                        if deep {
                            e.insert(M::V::mk(x));
                        }
                        2
                    }
                }))
            }
            (10, Some(_)) if r.below(20) < fill => {
                first = true;
                ("entry and or_insert", cost(|| m.entry(at()).or_insert(M::V::mk(x)).rd() & 1))
            }
            (11, _) => ("clear", cost(|| {
                m.clear();
                0
            })),
            (12, _) => ("drain", cost(|| drive(&mut r2, m.drain()))),
            (13, _) => ("retain", cost(|| m.retain(|k, _| k.idx() % 3 != x as usize % 3) as u64)),
            (14, _) => ("iter", cost(|| drive_clone(&mut r2, m.iter()) + drive_clone(&mut r2, m.ref_iter()))),
            (15, _) => ("keys", cost(|| drive_clone(&mut r2, m.keys()))),
            (16, _) => ("values", cost(|| drive_clone(&mut r2, m.values()))),
            (17, _) => ("iter_mut", cost(|| drive(&mut r2, m.iter_mut()))),
            (18, _) => ("values_mut", cost(|| drive(&mut r2, m.values_mut()))),
            (19, _) => ("Debug", cost(|| {
                let shared = print(&m, alt) + print(&m.iter(), alt) + print(&m.values(), alt);
                shared + print(&m.iter_mut(), alt)
            })),
            (20, _) => {
                let (copy, c) = cost(|| m.clone());
                let what = label("clone");
                let made = if stage == Stage::Empty || !heap {
                    none(&what, c);
                    Stage::Empty
                } else if c.allocs == 0 {
                    check!(copy.is_empty(), "{what} holds entries without a block for them");
                    Stage::Empty
                } else {
                    one(&what, c, least, most);
                    Stage::Full
                };
                if r.chance(1, 2) {
                    m = copy;
                    stage = made;
                }
                continue;
            }
            _ => {
                // What goes into a consuming iterator is not needed afterwards.
                let copy = m.clone();
                let (_, c) = cost(|| {
                    let it = copy.into_it();
                    print(&it, alt) + drive(&mut r2, it)
                });
                none(&label("into_iter"), c);
                if !heap {
                    let copy = m.clone();
                    let (_, c) = cost(|| drive_clone(&mut r2, copy.into_it()));
                    none(&label("into_iter and its clone"), c);
                }
                continue;
            }
        };
        op!("{name} key {key:?} -> {out}, {c:?}");
        case.obs(mix3(what as u64, key.unwrap_or(0) as u64, out));
        case.add("container operations watched", 1);
        if first && stage == Stage::Empty && heap {
            one(&label(&format!("the first {name}")), c, least, most);
            stage = Stage::Full;
            case.add("first insertions watched", 1);
        } else {
            none(&label(name), c);
        }
    }
    case.mark();
}

fn mix3(a: u64, b: u64, c: u64) -> u64 {
    crate::rng::mix(crate::rng::mix(crate::rng::mix(a) ^ b) ^ c)
}

pub fn total<M: Total>(r: &mut Rng, case: &mut Case, heap: bool)
where
    M::V: TestVal + Default,
    for<'a> M: IndexMut<&'a M::K> + Index<&'a M::K, Output = M::V>,
{
    let n = M::K::N;
    let bytes = n * size_of::<M::V>();
    let heap = heap && bytes > 0;
    let label = |s: &str| format!("{s} of {}<{n} keys, {}>", M::NAME, M::V::NAME);
    let seed = r.u64();
    let (mut m, c) = match r.below(3) {
        0 => cost(|| M::make(|k| M::V::mk(seed ^ k.idx() as u64))),
        1 => cost(M::make_default),
        _ => cost(|| M::try_make(|k| Ok::<_, u8>(M::V::mk(seed ^ k.idx() as u64))).ok().unwrap()),
    };
    if heap {
        one(&label("construction"), c, bytes, bytes);
    } else {
        none(&label("construction"), c);
    }
    case.add("container operations watched", 1);
    let stop = r.below(n + 1);
    let (ok, c) = cost(|| M::try_make(|k| if k.idx() == stop { Err(1) } else { Ok(M::V::mk(seed)) }).is_ok());
    case.obs(ok as u64);
    if heap {
        check!(
            c.allocs <= 1 && c.grows == 0 && c.live_blocks == 0,
            "{}: {c:?}",
            label("a failed or dropped construction")
        );
    } else {
        none(&label("a failed or dropped construction"), c);
    }
    for _ in 0..r.range(1, 40) {
        let key = if n == 0 { None } else { Some(r.index(n)) };
        let at = || M::K::at(key.unwrap());
        let x = r.u64();
        let alt = r.chance(1, 2);
        let mut r2 = Rng::new(r.u64());
        let what = r.below(16);
        let (name, (out, c)) = match (what, key) {
            (0, Some(_)) => ("get", cost(|| m.get(&at()).rd())),
            (1, Some(_)) => ("get_mut", cost(|| {
                m.get_mut(&at()).wr(x);
                0
            })),
            (2, Some(_)) => ("index", cost(|| m[&at()].rd())),
            (3, Some(_)) => ("index_mut", cost(|| {
                m[&at()].wr(x);
                0
            })),
            (4, Some(_)) => ("insert", cost(|| m.insert(at(), M::V::mk(x)).rd())),
            (5, _) => ("len", cost(|| m.len() as u64 + m.is_empty() as u64)),
            (6, _) => ("iter", cost(|| drive_clone(&mut r2, m.iter()) + drive_clone(&mut r2, m.ref_iter()))),
            (7, _) => ("iter_mut", cost(|| drive(&mut r2, m.iter_mut()))),
            (8, _) => ("keys", cost(|| drive_clone(&mut r2, m.keys()))),
            (9, _) => ("values", cost(|| drive_clone(&mut r2, m.values()))),
            (10, _) => ("values_mut", cost(|| drive(&mut r2, m.values_mut()))),
            (11, _) => {
                ("Debug", cost(|| {
                    let shared = print(&m, alt) + print(&m.iter(), alt);
                    shared + print(&m.iter_mut(), alt)
                }))
            }
            (12, _) => {
                let copy = m.clone();
                ("into_iter", cost(|| {
                    let it = copy.into_it();
                    print(&it, alt) + drive(&mut r2, it)
                }))
            }
            (13, _) => {
                let copy = m.clone();
                ("into_keys", cost(|| drive_clone(&mut r2, copy.into_keys())))
            }
            (14, _) if !heap => {
                let copy = m.clone();
                ("into_iter and its clone", cost(|| drive_clone(&mut r2, copy.into_it())))
            }
            _ => {
                let (copy, c) = cost(|| m.clone());
                if heap {
                    one(&label("clone"), c, bytes, bytes);
                } else {
                    none(&label("clone"), c);
                }
                if r.chance(1, 2) {
                    m = copy;
                }
                continue;
            }
        };
        op!("{name} key {key:?} -> {out}, {c:?}");
        case.obs(mix3(what as u64, key.unwrap_or(0) as u64, out));
        case.add("container operations watched", 1);
        none(&label(name), c);
    }
    case.mark();
}

/// What only array-backed total maps can do.
pub fn total_array<K: TestKey, V: TestVal + Default, const S: usize>(r: &mut Rng, case: &mut Case) {
    let seed = r.u64();
    let what = r.below(9);
    let (out, c) = cost(|| {
        let mut m: OrdinalTotalArrayMap<K, V, S> = OrdinalTotalArrayMap::new(|k: K| V::mk(seed ^ k.idx() as u64));
        match what {
            0 => m.as_ref().iter().map(|(_, v)| v.rd() & 1).sum::<u64>(),
            1 => m.as_mut().iter().map(|(_, v)| v.rd() & 1).sum::<u64>(),
            2 => {
                let z = m.clone().zip(m);
                z.values().map(|(a, b)| (a.rd() ^ b.rd()) & 1).sum::<u64>()
            }
            3 => m.map(|k, v| (k.idx(), v.rd() as u8)).values().map(|v| v.0 as u64 & 1).sum::<u64>(),
            4 => m.map_values(|v| [v.rd(); 3]).values().map(|v| v[1] & 1).sum::<u64>(),
            5 => {
                let a = m.into_values();
                let m: OrdinalTotalArrayMap<K, V, S> = OrdinalTotalArrayMap::from_array(a);
                m.values_array().len() as u64
            }
            6 => m.values_array_mut().iter_mut().map(|v| v.rd() & 1).sum::<u64>(),
            7 => m.into_keys().map(|k| k.idx() as u64 & 1).sum::<u64>(),
            _ => m.into_iter().rev().map(|(k, _)| k.idx() as u64 & 1).sum::<u64>(),
        }
    });
    none(&format!("using OrdinalTotalArrayMap<{S} keys, {}> (way {what})", V::NAME), c);
    case.obs(mix3(what as u64, out, S as u64));
    case.add("container operations watched", 1);
    case.mark();
}

/// Taking the values out of a heap total map, and putting them in again.
pub fn total_heap<K: TestKey, V: TestVal>(r: &mut Rng, case: &mut Case) {
    let seed = r.u64();
    let m: OrdinalTotalMap<K, V> = OrdinalTotalMap::new(|k: K| V::mk(seed ^ k.idx() as u64));
    let (b, c) = cost(|| m.into_values());
    none("OrdinalTotalMap::into_values", c);
    case.obs(b.len() as u64 ^ seed);
    case.add("container operations watched", 1);
    case.mark();
}

pub trait AnySet: Clone + Debug + FromIterator<Self::T> + Default {
    type T: TestKey;
    const NAME: &'static str;
    fn make() -> Self;
    fn all() -> Option<Self>;
    fn contains(&self, t: &Self::T) -> bool;
    fn insert(&mut self, t: Self::T) -> bool;
    fn walk(&self, r: &mut Rng, alt: bool) -> u64;
    /// Elements as listed from the front, and from the back (in ascending order).
    fn listed(&self) -> Option<(Vec<usize>, Vec<usize>)> {
        None
    }
}

fn both_ways<K: TestKey>(
    a: impl Iterator<Item = K>,
    b: impl DoubleEndedIterator<Item = K>,
) -> Option<(Vec<usize>, Vec<usize>)> {
    let mut back: Vec<usize> = b.rev().map(|k| k.idx()).collect();
    back.reverse();
    Some((a.map(|k| k.idx()).collect(), back))
}

impl<K: TestKey> AnySet for OrdinalSet<K> {
    type T = K;
    const NAME: &'static str = "OrdinalSet";
    fn make() -> Self {
        Self::new()
    }
    fn all() -> Option<Self> {
        None
    }
    fn contains(&self, t: &K) -> bool {
        self.contains(t)
    }
    fn insert(&mut self, t: K) -> bool {
        self.insert(t)
    }
    fn walk(&self, r: &mut Rng, alt: bool) -> u64 {
        print(&self.iter(), alt) + drive_clone(r, self.iter())
    }
    fn listed(&self) -> Option<(Vec<usize>, Vec<usize>)> {
        both_ways(self.iter(), self.iter())
    }
}

impl<K: TestKey, const S: usize> AnySet for OrdinalArraySet<K, S> {
    type T = K;
    const NAME: &'static str = "OrdinalArraySet";
    fn make() -> Self {
        Self::new()
    }
    fn all() -> Option<Self> {
        None
    }
    fn contains(&self, t: &K) -> bool {
        self.contains(t)
    }
    fn insert(&mut self, t: K) -> bool {
        self.insert(t)
    }
    fn walk(&self, _: &mut Rng, _: bool) -> u64 {
        0
    }
}

impl<K: TestKey> AnySet for OrdinalSet64<K> {
    type T = K;
    const NAME: &'static str = "OrdinalSet64";
    fn make() -> Self {
        Self::new()
    }
    fn all() -> Option<Self> {
        Some(Self::all())
    }
    fn contains(&self, t: &K) -> bool {
        self.contains(t)
    }
    fn insert(&mut self, t: K) -> bool {
        self.insert(t)
    }
    fn walk(&self, r: &mut Rng, alt: bool) -> u64 {
        print(&self.iter(), alt) + drive_clone(r, self.iter())
    }
    fn listed(&self) -> Option<(Vec<usize>, Vec<usize>)> {
        both_ways(self.iter(), self.iter())
    }
}

pub fn set<M: AnySet>(r: &mut Rng, case: &mut Case, heap: bool) {
    let n = M::T::N;
    let heap = heap && n > 64;
    let bytes = n.div_ceil(64) * 8;
    let label = |s: &str| format!("{s} of {}<{n} elements>", M::NAME);
    let fill = *r.pick(&[0, 2, 20]);
    let mut stage = Stage::Empty;
    let mut model = BTreeSet::new();
    let mut s = match r.below(4) {
        0 => {
            let (s, c) = cost(M::default);
            none(&label("default"), c);
            s
        }
        1 => {
            let k = if n == 0 { 0 } else { r.below(fill + 1) };
            let seed = r.u64();
            let (s, c) = cost(|| {
                let mut r2 = Rng::new(seed);
                (0..k).map(|_| M::T::at(r2.below(n))).collect::<M>()
            });
            let mut r2 = Rng::new(seed);
            model.extend((0..k).map(|_| r2.below(n)));
            if k > 0 && heap {
                one(&label("collect"), c, bytes, bytes);
                stage = Stage::Full;
            } else {
                none(&label("collect"), c);
            }
            s
        }
        2 => {
            let (s, c) = cost(M::all);
            none(&label("all"), c);
            match s {
                Some(s) => {
                    model.extend(0..n);
                    s
                }
                None => M::make(),
            }
        }
        _ => {
            let (s, c) = cost(M::make);
            none(&label("new"), c);
            s
        }
    };
    for _ in 0..r.range(1, 60) {
        let key = if n == 0 { None } else { Some(r.index(n)) };
        let alt = r.chance(1, 2);
        let mut r2 = Rng::new(r.u64());
        let what = r.below(8);
        let mut first = false;
        let (name, (out, c)) = match (what, key) {
            (0 | 1, Some(k)) => {
                let (out, c) = cost(|| s.contains(&M::T::at(k)));
                check!(out == model.contains(&k), "contains({k}) is {out}");
                ("contains", (out as u64, c))
            }
            (2 | 3, Some(k)) if r.below(20) < fill => {
                first = true;
                model.insert(k);
                let (out, c) = cost(|| s.insert(M::T::at(k)));
                ("insert", (out as u64, c))
            }
            (4, _) => ("iter", cost(|| s.walk(&mut r2, alt))),
            (5, _) => ("Debug", cost(|| print(&s, alt))),
            _ => {
                let (copy, c) = cost(|| s.clone());
                let what = label("clone");
                let made = if stage == Stage::Empty || !heap {
                    none(&what, c);
                    Stage::Empty
                } else if c.allocs == 0 {
                    check!(model.is_empty(), "{what} holds elements without a block for them");
                    Stage::Empty
                } else {
                    one(&what, c, bytes, bytes);
                    Stage::Full
                };
                if r.chance(1, 2) {
                    s = copy;
                    stage = made;
                }
                continue;
            }
        };
        op!("{name} {key:?} -> {out}, {c:?}");
        case.obs(mix3(what as u64, key.unwrap_or(0) as u64, out));
        case.add("container operations watched", 1);
        if first && stage == Stage::Empty && heap {
            one(&label("the first insertion"), c, bytes, bytes);
            stage = Stage::Full;
            case.add("first insertions watched", 1);
        } else {
            none(&label(name), c);
        }
    }
    case.mark();
}

/// Conversions, enumeration and the atomic cell of a type that owns nothing.
pub fn plain<T: Ordinal + Debug>(r: &mut Rng, case: &mut Case, name: &str) {
    let n = T::ORDINAL_SIZE;
    let i = if r.chance(1, 4) { r.u64() as usize } else { r.index(n.max(1)) };
    let (out, c) = cost(|| T::from_ordinal(i).map(|x| x.ordinal()));
    none(&format!("converting {i} to {name} and back"), c);
    case.obs(mix3(i as u64, out.is_some() as u64, n as u64));
    let mut r2 = Rng::new(r.u64());
    let (out, c) = cost(|| {
        let mut it = T::all_values();
        let mut seen = print(&it, r2.chance(1, 2));
        for _ in 0..r2.below(20) {
            seen += match r2.below(6) {
                0 | 1 => it.next().is_some() as u64,
                2 | 3 => it.next_back().is_some() as u64,
                4 => it.nth(r2.below(9)).is_some() as u64,
                _ => it.len() as u64 + it.clone().rev().next().is_some() as u64,
            };
        }
        if n < 100_000 {
            seen += it.count() as u64;
        }
        seen
    });
    none(&format!("enumerating {name}"), c);
    case.obs(out);
    if i < n {
        let j = r.index(n);
        use std::sync::atomic::Ordering::*;
        let (out, c) = cost(|| {
            let a = AtomicOrdinal::new(T::from_ordinal(i).unwrap());
            a.store(T::from_ordinal(j).unwrap(), SeqCst);
            let ok = a
                .compare_exchange(T::from_ordinal(j).unwrap(), T::from_ordinal(i).unwrap(), AcqRel, Relaxed)
                .is_ok();
            a.load(Acquire).ordinal() as u64 + ok as u64 + print(&a, r2.chance(1, 2))
        });
        none(&format!("using an atomic {name}"), c);
        case.obs(out);
        case.add("container operations watched", 4);
    }
    case.add("container operations watched", 2);
    case.mark();
}
