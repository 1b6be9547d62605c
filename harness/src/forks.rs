//! Clones and Debug text of containers and iterators, against standard collections.

use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::collections::VecDeque;
use std::fmt;
use std::fmt::Debug;
use std::fmt::Write;
use std::ops::Index;
use std::ops::IndexMut;
use std::rc::Rc;

use ordinal_map::map::total::OrdinalTotalArrayMap;
use ordinal_map::map::Entry;
use ordinal_map::map::OrdinalArrayMap;
use ordinal_map::map::OrdinalMap;
use ordinal_map::set::OrdinalArraySet;
use ordinal_map::set::OrdinalSet;
use ordinal_map::set::OrdinalSet64;
use ordinal_map::Ordinal;

use crate::check;
use crate::check_eq;
use crate::heap::AnySet;
use crate::keys::TestKey;
use crate::maps::Sparse;
use crate::maps::Total;
use crate::mon::Case;
use crate::op;
use crate::rng::hash_str;
use crate::rng::Rng;

/// Steps of a walk.
fn most(n: usize) -> usize {
    if crate::mon::small() {
        n / 10
    } else {
        n
    }
}

/// A value with something to show for itself.
pub trait Show: Clone + Debug + PartialEq {
    const NAME: &'static str;
    fn random(r: &mut Rng) -> Self;
}

impl Show for u64 {
    const NAME: &'static str = "u64";
    fn random(r: &mut Rng) -> Self {
        if r.chance(1, 3) {
            r.below(3) as u64
        } else {
            r.u64()
        }
    }
}

impl Show for f64 {
    const NAME: &'static str = "f64";
    fn random(r: &mut Rng) -> Self {
        *r.pick(&[0.0, -0.0, 1.5, 1e300, f64::INFINITY, 0.1, -7.25])
    }
}

impl Show for () {
    const NAME: &'static str = "()";
    fn random(_: &mut Rng) -> Self {}
}

impl Show for String {
    const NAME: &'static str = "String";
    fn random(r: &mut Rng) -> Self {
        (0..r.below(5)).map(|_| *r.pick(&['a', '\n', '"', ',', '{', 'é', ' '])).collect()
    }
}

impl Show for Option<Vec<(u8, bool)>> {
    const NAME: &'static str = "Option<Vec<(u8, bool)>>";
    fn random(r: &mut Rng) -> Self {
        if r.chance(1, 4) {
            None
        } else {
            Some((0..r.below(3)).map(|_| (r.below(256) as u8, r.chance(1, 2))).collect())
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Record {
    name: String,
    at: Box<[i32; 2]>,
}

impl Show for Record {
    const NAME: &'static str = "Record";
    fn random(r: &mut Rng) -> Self {
        Record { name: Show::random(r), at: Box::new([r.u64() as i32, r.below(10) as i32]) }
    }
}

/// Text whose every write fails once `left` bytes are out.
struct Failing {
    left: usize,
    out: String,
}

impl Write for Failing {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.left {
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.out.push_str(s);
        Ok(())
    }
}

fn texts(x: &dyn Debug) -> [String; 7] {
    [
        format!("{x:?}"),
        format!("{x:#?}"),
        format!("{x:9?}"),
        format!("{x:#010x?}"),
        format!("{x:+?}"),
        format!("{x:.2?}"),
        format!("{x:<3X?}"),
    ]
}

/// Whether `x` prints as the standard collection `like` does.
pub fn same_text(r: &mut Rng, case: &mut Case, what: &str, x: &dyn Debug, like: &dyn Debug) {
    let (a, b) = (texts(x), texts(like));
    for (i, (a, b)) in a.iter().zip(&b).enumerate() {
        check!(a == b, "{what} with format {i} prints {a:?}, the standard collection {b:?}");
    }
    case.obs(hash_str(&a[0]));
    case.add("texts compared", a.len() as u64);
    // A writer that fails half-way gets the error back.
    let limit = r.below(b[0].len() + 2);
    let mut w = Failing { left: limit, out: String::new() };
    let res = write!(w, "{x:?}");
    check_eq!(res.is_ok(), b[0].len() <= limit, "{what} written to where only {limit} bytes fit");
    check!(b[0].starts_with(&w.out), "{what} wrote {:?} first", w.out);
}

/// Key that orders by index and shows the key.
struct By<K>(usize, K);

impl<K> PartialEq for By<K> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}

impl<K> Eq for By<K> {}

impl<K> PartialOrd for By<K> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}

impl<K> Ord for By<K> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}

impl<K: Debug> Debug for By<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.1.fmt(f)
    }
}

fn by<K: TestKey>(i: usize) -> By<K> {
    By(i, K::at(i))
}

type Shower<'a, I> = &'a dyn Fn(&mut Rng, &mut Case, &I, &dyn Debug);

/// Live copies of one iterator, each with what it has yet to yield.
fn forks<I, D>(r: &mut Rng, case: &mut Case, name: &str, it: I, items: Vec<D>, show: Option<Shower<I>>)
where
    I: DoubleEndedIterator + Clone,
    I::Item: Debug,
    D: Debug,
{
    let items: VecDeque<Rc<D>> = items.into_iter().map(Rc::new).collect();
    let mut live = vec![(it, items)];
    for _ in 0..r.range(1, most(40)) {
        if live.is_empty() {
            break;
        }
        let i = r.index(live.len());
        let step = |case: &mut Case, got: Option<I::Item>, want: Option<Rc<D>>, how: &str| {
            let (got, want) = (got.map(|x| format!("{x:?}")), want.map(|x| format!("{x:?}")));
            op!("copy {i} of {name}: {how} -> {got:?}");
            check_eq!(got, want, "copy {i} of {name}, {how}");
            case.obs((i as u64) << 8 ^ got.map_or(1, |s| hash_str(&s)));
        };
        match r.below(10) {
            0..=2 => {
                let (it, q) = &mut live[i];
                let (got, want) = (it.next(), q.pop_front());
                step(case, got, want, "next");
            }
            3 | 4 => {
                let (it, q) = &mut live[i];
                let (got, want) = (it.next_back(), q.pop_back());
                step(case, got, want, "next_back");
            }
            5 => {
                let (it, q) = &mut live[i];
                let n = r.below(4);
                let got = it.nth(n);
                q.drain(..n.min(q.len()));
                let want = q.pop_front();
                step(case, got, want, "nth");
            }
            6 if live.len() < 5 => {
                let c = (live[i].0.clone(), live[i].1.clone());
                op!("copy {} of {name} is cloned from copy {i}", live.len());
                live.push(c);
                case.count("iterators cloned");
            }
            7 if live.len() > 1 => {
                live.swap_remove(i);
                op!("copy {i} of {name} is dropped, the last takes its number");
            }
            8 if live.len() > 1 => {
                let j = r.index(live.len());
                if i != j {
                    let (from, q) = (live[j].0.clone(), live[j].1.clone());
                    live[i].0.clone_from(&from);
                    live[i].1 = q;
                }
            }
            _ => {
                if let Some(show) = show {
                    let v: Vec<&D> = live[i].1.iter().map(|x| &**x).collect();
                    show(r, case, &live[i].0, &v);
                }
            }
        }
    }
    for (n, (it, q)) in live.into_iter().enumerate() {
        let got: Vec<String> = it.map(|x| format!("{x:?}")).collect();
        let want: Vec<String> = q.iter().map(|x| format!("{x:?}")).collect();
        check_eq!(got, want, "what is left of copy {n} of {name}");
    }
    case.count("iterators forked");
}

fn shown<I: Debug>(name: &str) -> impl Fn(&mut Rng, &mut Case, &I, &dyn Debug) + '_ {
    move |r, case, it, like| same_text(r, case, name, it, like)
}

/// Steps a little from both ends, with the list of what is left.
fn stepped<I: DoubleEndedIterator, D>(r: &mut Rng, mut it: I, items: Vec<D>) -> (I, Vec<D>) {
    let mut q: VecDeque<D> = items.into();
    for _ in 0..r.below(4) {
        if r.chance(1, 2) {
            it.next();
            q.pop_front();
        } else {
            it.next_back();
            q.pop_back();
        }
    }
    (it, q.into())
}

type SModel<V> = BTreeMap<usize, V>;

fn pairs<K: TestKey, V: Clone>(m: &SModel<V>) -> Vec<(K, V)> {
    m.iter().map(|(&i, v)| (K::at(i), v.clone())).collect()
}

fn sparse_as_told<M: Sparse>(r: &mut Rng, case: &mut Case, who: &str, m: &M, model: &SModel<M::V>, full: bool)
where
    M::V: Show,
{
    let got: Vec<(usize, &M::V)> = m.iter().map(|(k, v)| (k.idx(), v)).collect();
    let want: Vec<(usize, &M::V)> = model.iter().map(|(k, v)| (*k, v)).collect();
    check_eq!(got, want, "entries of {who}");
    if full {
        check_eq!(m.len(), model.len(), "len of {who}");
        check_eq!(m.is_empty(), model.is_empty(), "is_empty of {who}");
        for i in 0..M::K::N.min(70) {
            check_eq!(m.get(&M::K::at(i)), model.get(&i), "get({i}) of {who}");
        }
        let like: BTreeMap<By<M::K>, &M::V> = model.iter().map(|(&i, v)| (by(i), v)).collect();
        same_text(r, case, who, m, &like);
    }
}

/// A family of clones, each changed on its own.
pub fn sparse<M: Sparse>(r: &mut Rng, case: &mut Case)
where
    M::V: Show,
{
    let n = M::K::N;
    let mut live: Vec<(M, SModel<M::V>)> = vec![(M::make(), SModel::new())];
    let busy = *r.pick(&[0, 3, 6]);
    for _ in 0..r.range(2, most(50)) {
        let i = r.index(live.len());
        let key = if n == 0 { None } else { Some(r.index(n)) };
        let x = M::V::random(r);
        match (r.below(14), key) {
            (0..=4, Some(k)) if busy > 0 => {
                op!("copy {i}: insert({k}, {x:?})");
                let (m, model) = &mut live[i];
                check_eq!(m.insert(M::K::at(k), x.clone()), model.insert(k, x), "insert({k}) into copy {i}");
            }
            (5, Some(k)) => {
                op!("copy {i}: remove({k})");
                let (m, model) = &mut live[i];
                check_eq!(m.remove(&M::K::at(k)), model.remove(&k), "remove({k}) from copy {i}");
            }
            (6, Some(k)) => {
                op!("copy {i}: write {x:?} to {k} if present");
                let (m, model) = &mut live[i];
                if let Some(v) = m.get_mut(&M::K::at(k)) {
                    *v = x.clone();
                }
                if let Some(v) = model.get_mut(&k) {
                    *v = x;
                }
            }
            (7, Some(k)) => {
                let (m, model) = &mut live[i];
                op!("copy {i}: entry({k})");
                match m.entry(M::K::at(k)) {
                    Entry::Occupied(mut e) => *e.get_mut() = x.clone(),
                    Entry::Vacant(e) => e.insert(x.clone()),
                }
                model.insert(k, x);
            }
            (8, _) => {
                let (m, model) = &mut live[i];
                op!("copy {i}: iter_mut writes {x:?} to the first");
                if let Some((k, v)) = m.iter_mut().next() {
                    *v = x.clone();
                    model.insert(k.idx(), x);
                }
            }
            (9, _) if r.chance(1, 3) => {
                let (m, model) = &mut live[i];
                op!("copy {i}: clear or drain");
                if r.chance(1, 2) {
                    m.clear();
                } else {
                    let _ = m.drain().next_back();
                }
                model.clear();
            }
            (10, _) => {
                let (m, model) = &mut live[i];
                if m.retain(|k, _| k.idx() % 3 != 1) {
                    op!("copy {i}: retain");
                    model.retain(|k, _| k % 3 != 1);
                }
            }
            (11, _) if live.len() > 1 => {
                let j = r.index(live.len());
                if r.chance(1, 3) {
                    op!("copy {i} is dropped, the last takes its number");
                    live.swap_remove(i);
                } else if i != j {
                    op!("copy {i} becomes a clone of copy {j}");
                    let (a, b) = if i < j {
                        let (l, r) = live.split_at_mut(j);
                        (&mut l[i], &mut r[0])
                    } else {
                        let (l, r) = live.split_at_mut(i);
                        (&mut r[0], &mut l[j])
                    };
                    a.0.clone_from(&b.0);
                    a.1 = b.1.clone();
                    case.count("containers cloned");
                }
            }
            _ if live.len() < 4 => {
                op!("copy {} is a clone of copy {i}", live.len());
                let c = (live[i].0.clone(), live[i].1.clone());
                live.push(c);
                case.count("containers cloned");
            }
            _ => {}
        }
        for (i, (m, model)) in live.iter().enumerate() {
            let full = r.chance(1, 8);
            sparse_as_told(r, case, &format!("copy {i}"), m, model, full);
        }
    }
    let i = r.index(live.len());
    let (mut m, model) = live.swap_remove(i);
    sparse_as_told(r, case, "the map", &m, &model, true);
    let p = || pairs::<M::K, M::V>(&model);
    let vals = || model.values().cloned().collect::<Vec<M::V>>();
    forks(r, case, "iter", m.iter(), p(), Some(&shown("iter")));
    forks(r, case, "into_iter by reference", m.ref_iter(), p(), Some(&shown("iter")));
    forks(r, case, "values", m.values(), vals(), Some(&shown("values")));
    forks(r, case, "keys", m.keys(), model.keys().map(|&i| M::K::at(i)).collect(), None);
    {
        let (it, left) = stepped(r, m.iter_mut(), p());
        same_text(r, case, "iter_mut", &it, &left);
    }
    {
        let (it, left) = stepped(r, m.values_mut(), vals());
        same_text(r, case, "values_mut", &it, &left);
    }
    forks(r, case, "into_iter", m.into_it(), p(), Some(&shown("into_iter")));
    case.mark();
}

/// The only keys iterators that can be shown are those of maps to `()`.
pub fn shown_keys<K: TestKey, const S: usize>(r: &mut Rng, case: &mut Case) {
    let mut a = OrdinalMap::<K, ()>::new();
    let mut b = OrdinalArrayMap::<K, (), S>::new();
    let mut model = BTreeSet::new();
    for _ in 0..r.below(20) {
        if K::N > 0 {
            let i = r.index(K::N);
            a.insert(K::at(i), ());
            b.insert(K::at(i), ());
            model.insert(i);
        }
    }
    let ks = || model.iter().map(|&i| K::at(i)).collect::<Vec<K>>();
    forks(r, case, "keys of a heap map", a.keys(), ks(), Some(&shown("keys")));
    forks(r, case, "keys of an array map", b.keys(), ks(), Some(&shown("keys")));
    case.mark();
}

pub fn total<M: Total>(r: &mut Rng, case: &mut Case)
where
    M::V: Show,
    for<'a> M: IndexMut<&'a M::K> + Index<&'a M::K, Output = M::V>,
{
    let n = M::K::N;
    let first: Vec<M::V> = (0..n).map(|_| M::V::random(r)).collect();
    let mut live = vec![(M::make(|k| first[k.idx()].clone()), first.clone())];
    for _ in 0..r.range(2, most(40)) {
        let i = r.index(live.len());
        let key = if n == 0 { None } else { Some(r.index(n)) };
        let x = M::V::random(r);
        match (r.below(10), key) {
            (0, Some(k)) => {
                op!("copy {i}: insert({k}, {x:?})");
                let (m, model) = &mut live[i];
                let old = std::mem::replace(&mut model[k], x.clone());
                check_eq!(m.insert(M::K::at(k), x), old, "insert({k}) into copy {i}");
            }
            (1, Some(k)) => {
                op!("copy {i}: get_mut({k}) = {x:?}");
                let (m, model) = &mut live[i];
                *m.get_mut(&M::K::at(k)) = x.clone();
                model[k] = x;
            }
            (2, Some(k)) => {
                op!("copy {i}: [{k}] = {x:?}");
                let (m, model) = &mut live[i];
                m[&M::K::at(k)] = x.clone();
                model[k] = x;
            }
            (3, Some(_)) => {
                let (m, model) = &mut live[i];
                op!("copy {i}: all = {x:?}");
                m.iter_mut().for_each(|(_, v)| *v = x.clone());
                model.iter_mut().for_each(|v| *v = x.clone());
            }
            (4, Some(k)) => {
                let (m, model) = &mut live[i];
                op!("copy {i}: value number {k} = {x:?}");
                *m.values_mut().nth(k).unwrap() = x.clone();
                model[k] = x;
            }
            (5, _) if live.len() > 1 => {
                op!("copy {i} is dropped, the last takes its number");
                live.swap_remove(i);
            }
            (6, _) if live.len() > 1 && i > 0 => {
                op!("copy {i} becomes a clone of copy 0");
                let (l, r) = live.split_at_mut(i);
                r[0].0.clone_from(&l[0].0);
                r[0].1 = l[0].1.clone();
                case.count("containers cloned");
            }
            _ if live.len() < 4 => {
                op!("copy {} is a clone of copy {i}", live.len());
                let c = (live[i].0.clone(), live[i].1.clone());
                live.push(c);
                case.count("containers cloned");
            }
            _ => {}
        }
        for (i, (m, model)) in live.iter().enumerate() {
            let got: Vec<&M::V> = m.iter().map(|(_, v)| v).collect();
            check_eq!(got, model.iter().collect::<Vec<_>>(), "values of copy {i}");
            if r.chance(1, 8) {
                let like: BTreeMap<By<M::K>, &M::V> = model.iter().enumerate().map(|(i, v)| (by(i), v)).collect();
                same_text(r, case, "a total map", m, &like);
            }
        }
    }
    let i = r.index(live.len());
    let (mut m, model) = live.swap_remove(i);
    let p = || model.iter().enumerate().map(|(i, v)| (M::K::at(i), v.clone())).collect::<Vec<(M::K, M::V)>>();
    forks(r, case, "iter", m.iter(), p(), Some(&shown("iter")));
    forks(r, case, "into_iter by reference", m.ref_iter(), p(), Some(&shown("iter")));
    forks(r, case, "keys", m.keys(), (0..n).map(M::K::at).collect(), None);
    {
        let (it, left) = stepped(r, m.iter_mut(), p());
        same_text(r, case, "iter_mut", &it, &left);
    }
    forks(r, case, "into_iter", m.into_it(), p(), Some(&shown("into_iter")));
    case.mark();
}

/// Borrowed views are maps of their own that show the values behind them.
pub fn views<K: TestKey, V: Show, const S: usize>(r: &mut Rng, case: &mut Case) {
    let model: Vec<V> = (0..S).map(|_| V::random(r)).collect();
    let mut m: OrdinalTotalArrayMap<K, V, S> = OrdinalTotalArrayMap::new(|k: K| model[k.idx()].clone());
    let like: BTreeMap<By<K>, &V> = model.iter().enumerate().map(|(i, v)| (by(i), v)).collect();
    same_text(r, case, "as_ref", &m.as_ref(), &like);
    same_text(r, case, "as_mut", &m.as_mut(), &like);
    let copy = m.as_ref().clone();
    same_text(r, case, "a clone of as_ref", &copy, &like);
    let zipped: OrdinalTotalArrayMap<K, (V, u8), S> = m.clone().zip(OrdinalTotalArrayMap::new(|k: K| k.idx() as u8));
    let pairs: Vec<(V, u8)> = model.iter().enumerate().map(|(i, v)| (v.clone(), i as u8)).collect();
    let like: BTreeMap<By<K>, &(V, u8)> = pairs.iter().enumerate().map(|(i, v)| (by(i), v)).collect();
    same_text(r, case, "zip", &zipped, &like);
    case.mark();
}

/// A set with whatever only its own kind can do.
pub trait ShowSet: AnySet {
    fn iters(&self, r: &mut Rng, case: &mut Case, model: &BTreeSet<usize>);
    /// Equality, where there is such a thing.
    fn equal(&self, other: &Self) -> Option<bool>;
}

fn elems<K: TestKey>(m: &BTreeSet<usize>) -> Vec<K> {
    m.iter().map(|&i| K::at(i)).collect()
}

impl<K: TestKey> ShowSet for OrdinalSet<K> {
    fn iters(&self, r: &mut Rng, case: &mut Case, model: &BTreeSet<usize>) {
        forks(r, case, "iter", self.iter(), elems::<K>(model), Some(&shown("iter")));
    }
    fn equal(&self, _: &Self) -> Option<bool> {
        None
    }
}

impl<K: TestKey, const S: usize> ShowSet for OrdinalArraySet<K, S> {
    fn iters(&self, _: &mut Rng, _: &mut Case, _: &BTreeSet<usize>) {}
    fn equal(&self, _: &Self) -> Option<bool> {
        None
    }
}

/// The single-word set has equality only for element types that have.
#[derive(Clone)]
pub struct Eq64<K: Ordinal + Debug>(pub OrdinalSet64<K>);

impl<K: Ordinal + Debug> Debug for Eq64<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

impl<K: TestKey + PartialEq> Default for Eq64<K> {
    fn default() -> Self {
        Eq64(OrdinalSet64::default())
    }
}

impl<K: TestKey + PartialEq> FromIterator<K> for Eq64<K> {
    fn from_iter<I: IntoIterator<Item = K>>(it: I) -> Self {
        Eq64(it.into_iter().collect())
    }
}

impl<K: TestKey + Clone + PartialEq> AnySet for Eq64<K> {
    type T = K;
    const NAME: &'static str = "OrdinalSet64";
    fn make() -> Self {
        Eq64(OrdinalSet64::new())
    }
    fn all() -> Option<Self> {
        Some(Eq64(OrdinalSet64::all()))
    }
    fn contains(&self, t: &K) -> bool {
        self.0.contains(t)
    }
    fn insert(&mut self, t: K) -> bool {
        self.0.insert(t)
    }
    fn walk(&self, _: &mut Rng, _: bool) -> u64 {
        0
    }
}

impl<K: TestKey + Clone + PartialEq> ShowSet for Eq64<K> {
    fn iters(&self, r: &mut Rng, case: &mut Case, model: &BTreeSet<usize>) {
        forks(r, case, "iter", self.0.iter(), elems::<K>(model), Some(&shown("iter")));
    }
    fn equal(&self, other: &Self) -> Option<bool> {
        let e = self.0 == other.0;
        #[allow(clippy::nonminimal_bool)]
        let ne = self.0 != other.0;
        check!(e != ne, "== gives {e} and != gives {ne}");
        Some(e)
    }
}

pub fn set<M: ShowSet>(r: &mut Rng, case: &mut Case)
where
    M::T: TestKey,
{
    let n = M::T::N;
    let mut live: Vec<(M, BTreeSet<usize>)> = vec![(M::make(), BTreeSet::new())];
    if let (Some(all), true) = (M::all(), r.chance(1, 4)) {
        live.push((all, (0..n).collect()));
    }
    if r.chance(1, 3) && n > 0 {
        let xs: Vec<usize> = (0..r.below(20)).map(|_| r.index(n)).collect();
        live.push((xs.iter().map(|&i| M::T::at(i)).collect(), xs.iter().copied().collect()));
    }
    for _ in 0..r.range(2, most(50)) {
        let i = r.index(live.len());
        let key = if n == 0 { None } else { Some(r.index(n)) };
        match (r.below(8), key) {
            (0..=3, Some(k)) => {
                op!("copy {i}: insert({k})");
                let (s, model) = &mut live[i];
                check_eq!(s.insert(M::T::at(k)), model.insert(k), "insert({k}) into copy {i}");
            }
            (4, _) if live.len() > 1 => {
                op!("copy {i} is dropped, the last takes its number");
                live.swap_remove(i);
            }
            (5, _) if live.len() > 1 && i > 0 => {
                op!("copy {i} becomes a clone of copy 0");
                let (l, r) = live.split_at_mut(i);
                r[0].0.clone_from(&l[0].0);
                r[0].1 = l[0].1.clone();
                case.count("containers cloned");
            }
            _ if live.len() < 4 => {
                op!("copy {} is a clone of copy {i}", live.len());
                let c = (live[i].0.clone(), live[i].1.clone());
                live.push(c);
                case.count("containers cloned");
            }
            _ => {}
        }
        for (i, (s, model)) in live.iter().enumerate() {
            let check = if n <= 70 || r.chance(1, 10) { n } else { 0 };
            for k in 0..check {
                check_eq!(s.contains(&M::T::at(k)), model.contains(&k), "contains({k}) of copy {i}");
            }
            if r.chance(1, 8) {
                let like: BTreeSet<By<M::T>> = model.iter().map(|&i| by(i)).collect();
                same_text(r, case, "a set", s, &like);
            }
            for (j, (t, other)) in live.iter().enumerate() {
                if let Some(e) = s.equal(t) {
                    check_eq!(e, model == other, "equality of copies {i} and {j}");
                    case.count("sets compared");
                }
            }
        }
    }
    let i = r.index(live.len());
    let (s, model) = live.swap_remove(i);
    let like: BTreeSet<By<M::T>> = model.iter().map(|&i| by(i)).collect();
    same_text(r, case, "a set", &s, &like);
    s.iters(r, case, &model);
    case.mark();
}
