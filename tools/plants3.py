"""Specifications of further seeded changes; see plant.py."""
A = "ordinal-map/src/"
M = "ordinal-map/src/map/"
O = "ordinal-map/src/ordinal/impls/"
S = "ordinal-map/src/set/"
D = "ordinal-map-derive/src/ordinal.rs"
PLANTS = [
    dict(id="c05-max-is-last", property="C05",
         needs="max() over the values of an enum whose explicit discriminants order it otherwise than declared",
         breaks="max() of the iterator over all values is the last value, not the greatest",
         edits=[(A + "values.rs", """        self.range.count()
    }
""", """        self.range.len()
    }

    #[inline]
    fn max(mut self) -> Option<Self::Item>
    where
        Self: Sized,
        Self::Item: Ord,
    {
        self.next_back()
    }
""")],
         demo="""
use ordinal_map::Ordinal;
#[derive(Ordinal, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
enum E { A = 5, B = 1 }
fn main() {
    assert_eq!(E::all_values().max(), Some(E::A));
    assert_eq!(E::all_values().count(), 2);
}
"""),
    dict(id="c08-len-counts-down", property="C08",
         needs="rfold or rev().for_each over a total map after something was taken from the front",
         breaks="keys are numbered from zero again when the rest is folded from the back",
         edits=[(M + "total/iter.rs", """    #[inline]
    fn next_back(&mut self) -> Option<Self::Item> {
        self.iter.next_back()
    }
}

impl<'a, K, V> Clone for Iter<'a, K, V> {""", """    #[inline]
    fn next_back(&mut self) -> Option<Self::Item> {
        DoubleEndedIterator::next_back(&mut self.iter)
    }

    #[inline]
    fn rfold<B, F: FnMut(B, Self::Item) -> B>(self, init: B, mut f: F) -> B {
        let mut ordinal = self.iter.len();
        self.iter.iter.rfold(init, move |acc, v| {
            ordinal -= 1;
            f(acc, (K::from_ordinal(ordinal).unwrap(), v))
        })
    }
}

impl<'a, K, V> Clone for Iter<'a, K, V> {""")],
         demo="""
use ordinal_map::map::total::OrdinalTotalMap;
fn main() {
    let m = OrdinalTotalMap::<bool, bool>::new(|k| k);
    let mut it = m.iter();
    it.next();
    it.rev().for_each(|(k, v)| assert_eq!(k, *v));
}
"""),
    dict(id="c08-nth-skips-slots", property="C08",
         needs="nth over a sparse map with absent keys among those skipped",
         breaks="nth counts absent keys as entries",
         edits=[(M + "iter.rs", """        self.iter.next().map(|(k, _)| k)
    }
""", """        self.iter.next().map(|(k, _v)| k)
    }

    #[inline]
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        if n > 0 {
            self.iter.iter.nth(n - 1)?;
        }
        self.next()
    }
""")],
         demo="""
use ordinal_map::map::OrdinalMap;
fn main() {
    let m: OrdinalMap<u8, u8> = [(1, 1), (5, 5), (9, 9)].into_iter().collect();
    assert_eq!(m.keys().nth(1), Some(5));
}
"""),
    dict(id="c11-fold-shifts", property="C11",
         needs="folding over a single-word set whose next member is the 64th value",
         breaks="fold shifts the word by 64",
         edits=[(S + "set64.rs", """        let len = self.len();
        (len, Some(len))
    }
""", """        let left = self.len();
        (left, Some(left))
    }

    #[inline]
    fn fold<B, F>(self, init: B, mut f: F) -> B
    where
        F: FnMut(B, Self::Item) -> B,
    {
        let mut acc = init;
        let mut set = self.set;
        let mut next = 0;
        while set != 0 {
            let skip = set.trailing_zeros();
            next += skip;
            acc = f(acc, T::from_ordinal(next as usize).unwrap());
            set >>= skip + 1;
            next += 1;
        }
        acc
    }
""")],
         demo="""
use ordinal_map::set::OrdinalSet64;
type K = [bool; 6];
fn main() {
    let s: OrdinalSet64<K> = [[true; 6]].into_iter().collect();
    let mut n = 0;
    s.iter().for_each(|k| {
        n += 1;
        assert!(n == 1 && k == [true; 6]);
    });
}
"""),
    dict(id="c11-count-forgets-the-back", property="C11",
         needs="count() on a set iterator after something was taken from the back",
         breaks="count() subtracts what was taken from the front only",
         edits=[(S + "iter.rs", """    iter: crate::OrdinalValues<T>,
    set: OrdinalSetRef<'a, T>,
}
""", """    iter: crate::OrdinalValues<T>,
    taken: usize,
    set: OrdinalSetRef<'a, T>,
}
"""), (S + "iter.rs", """            iter: T::all_values(),
            set,""", """            iter: T::all_values(),
            taken: 0,
            set,"""), (S + "iter.rs", """            let next = self.iter.next()?;
            if self.set.contains(&next) {
                return Some(next);
            }
        }
    }
""", """            let next = self.iter.next()?;
            if self.set.contains(&next) {
                self.taken += 1;
                return Some(next);
            }
        }
    }

    #[inline]
    fn count(self) -> usize {
        self.set.len() - self.taken
    }
"""), (S + "iter.rs", """            iter: self.iter.clone(),
            set: self.set.clone(),""", """            iter: self.iter.clone(),
            taken: self.taken,
            set: self.set.clone(),"""), (S + "set_ref.rs", """    #[inline]
    pub(crate) fn contains(""", """    #[inline]
    pub(crate) fn len(&self) -> usize {
        self.words.iter().map(|w| w.count_ones() as usize).sum()
    }

    #[inline]
    pub(crate) fn contains(""")],
         demo="""
use ordinal_map::set::OrdinalSet;
fn main() {
    let s: OrdinalSet<u8> = [1, 2, 3].into_iter().collect();
    let mut it = s.iter();
    it.next_back();
    assert_eq!(it.count(), 2);
}
"""),
    dict(id="c17-retain-collects", property="C17",
         needs="retain on an array map",
         breaks="retain collects the rejected keys in a vector on the heap",
         edits=[(M + "array_map.rs", """        for (key, value_opt) in self.map.iter_mut() {
            if let Some(value) = value_opt {
                if !f(key, value) {
                    *value_opt = None;
                }
            }
        }
""", """        let mut rejected = Vec::new();
        for (index, (key, value_opt)) in self.map.iter_mut().enumerate() {
            if let Some(value) = value_opt {
                if !f(key, value) {
                    rejected.push(index);
                }
            }
        }
        for index in rejected {
            self.map.values_array_mut()[index] = None;
        }
""")],
         demo="""
use ordinal_map::map::OrdinalArrayMap;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut m: OrdinalArrayMap<bool, u8, 2> = [(true, 1), (false, 2)].into_iter().collect();
    let before = N.load(SeqCst);
    m.retain(|k, _| k);
    assert_eq!(N.load(SeqCst), before);
}
"""),
    dict(id="c17-sixty-four", property="C17",
         needs="a set of a type with exactly 64 values",
         breaks="sets of types with exactly 64 values live on the heap",
         edits=[(S + "set.rs", "    const IS_SMALL: bool = T::ORDINAL_SIZE <= u64::BITS as usize;", "    const IS_SMALL: bool = T::ORDINAL_SIZE < u64::BITS as usize;")],
         demo="""
use ordinal_map::set::OrdinalSet;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let before = N.load(SeqCst);
    let mut s = OrdinalSet::<[bool; 6]>::new();
    s.insert([true; 6]);
    assert_eq!(N.load(SeqCst), before);
}
"""),
    dict(id="c12-or-insert-forgets", property="C12",
         needs="or_insert on an occupied entry with a value that has a destructor",
         breaks="the value given to or_insert for an occupied entry is never dropped",
         edits=[(M + "entry.rs", "            Entry::Occupied(entry) => entry.entry.as_mut().unwrap(),", """            Entry::Occupied(entry) => {
                std::mem::forget(value);
                entry.entry.as_mut().unwrap()
            }""")],
         demo="""
use ordinal_map::map::OrdinalMap;
use std::rc::Rc;
fn main() {
    let r = Rc::new(());
    let mut m = OrdinalMap::<bool, Rc<()>>::new();
    m.insert(true, r.clone());
    m.entry(true).or_insert(r.clone());
    drop(m);
    assert_eq!(Rc::strong_count(&r), 1);
}
"""),
    dict(id="c13-clone-leaks", property="C13",
         needs="Clone of a value that panics after others were cloned, in a heap total map",
         breaks="values cloned before the panic are leaked",
         edits=[(M + "total/map.rs", """            map: self.map.clone(),
            _phantom: PhantomData,
        }
    }
}

impl<K: Ordinal + Debug, V: Debug> Debug for OrdinalTotalMap<K, V> {""", """            map: {
                let mut map = mem::ManuallyDrop::new(Vec::with_capacity(self.map.len()));
                for v in self.map.iter() {
                    map.push(v.clone());
                }
                mem::ManuallyDrop::into_inner(map).into_boxed_slice()
            },
            _phantom: PhantomData,
        }
    }
}

impl<K: Ordinal + Debug, V: Debug> Debug for OrdinalTotalMap<K, V> {""")],
         demo="""
use ordinal_map::map::total::OrdinalTotalMap;
use std::cell::Cell;
use std::rc::Rc;
struct V(Rc<Cell<u32>>);
impl Clone for V {
    fn clone(&self) -> V {
        self.0.set(self.0.get() + 1);
        if self.0.get() == 3 { panic!() }
        V(self.0.clone())
    }
}
fn main() {
    let r = Rc::new(Cell::new(0));
    let m = OrdinalTotalMap::<[bool; 2], V>::new(|_| V(r.clone()));
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(m.clone()))).is_err());
    drop(m);
    assert_eq!(Rc::strong_count(&r), 1);
}
"""),
    dict(id="c14-set-unchecked", property="C14",
         needs="a key type whose ordinal lies outside its size, inserted into a set",
         breaks="insert writes outside the words of the set",
         edits=[(S + "set_mut.rs", """        self.words[value.ordinal() / u64::BITS as usize] |=
            1 << (value.ordinal() % u64::BITS as usize);
        !prev""", """        let ordinal = value.ordinal();
        let (word, bit) = (ordinal / u64::BITS as usize, ordinal % u64::BITS as usize);
        // There is a word for every ordinal of the type.
        unsafe { *self.words.get_unchecked_mut(word) |= 1 << bit };
        !prev""")],
         demo="""
use ordinal_map::set::OrdinalSet;
use ordinal_map::Ordinal;
struct Liar;
impl Ordinal for Liar {
    const ORDINAL_SIZE: usize = 100;
    fn ordinal(&self) -> usize { 130 }
    fn from_ordinal(_: usize) -> Option<Liar> { Some(Liar) }
}
fn main() {
    let mut s = OrdinalSet::<Liar>::new();
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.insert(Liar))).is_err());
}
"""),
    dict(id="c14-aliasing", property="C14", miri="x86_64",
         needs="using an earlier reference of as_mut after a later one was made: an interpreter sees it",
         breaks="as_mut makes each reference through the whole array, which invalidates the ones before",
         edits=[(A + "array_as_mut.rs", """    let mut array: &mut [T] = array;

    let mut result = ArrayBuilder::new();
    while let Some((first, rest)) = array.split_first_mut() {
        result.push(first);
        array = rest;
    }
    result.finish()""", """    let array: *mut [T; S] = array;

    let mut result = ArrayBuilder::new();
    for i in 0..S {
        result.push(unsafe { &mut (&mut *array)[i] });
    }
    result.finish()""")],
         demo="""
use ordinal_map::map::total::OrdinalTotalArrayMap;
fn main() {
    let mut m = OrdinalTotalArrayMap::<bool, u8, 2>::new(|_| 1);
    let mut r = m.as_mut();
    *r[&false] += 1;
    *r[&true] += 2;
    drop(r);
    assert_eq!(m.into_values(), [2, 3]);
}
"""),
    dict(id="c15-reloads-actual", property="C15", miri="x86_64", miriflags="-Zmiri-preemption-rate=0.3",
         needs="an update between a failed exchange and the load that follows",
         breaks="a failed exchange reports a value loaded afterwards, which can be the expected one",
         edits=[(A + "atomic.rs", "            Err(v) => Err(T::from_ordinal(v).unwrap()),", "            Err(_) => Err(self.load(failure)),")],
         demo="""
use ordinal_map::AtomicOrdinal;
use std::sync::atomic::Ordering::SeqCst;
fn main() {
    let a = &AtomicOrdinal::new(0u8);
    std::thread::scope(|t| {
        t.spawn(move || (0..3000).for_each(|i| a.store((i % 2) as u8, SeqCst)));
        for _ in 0..3000 {
            assert_ne!(a.compare_exchange(1, 1, SeqCst, SeqCst), Err(1));
        }
    });
}
"""),
    dict(id="c16-seqcst-store-release", property="C16", miri="x86_64",
         needs="two threads that each store one cell and then load the other's",
         breaks="a sequentially consistent store is only Release",
         edits=[(A + "atomic.rs", "        self.atomic.store(value.ordinal(), ordering);", """        let ordering = match ordering {
            Ordering::Relaxed => Ordering::Relaxed,
            _ => Ordering::Release,
        };
        self.atomic.store(value.ordinal(), ordering);""")],
         demo="""
use ordinal_map::AtomicOrdinal;
use std::sync::atomic::Ordering::SeqCst;
fn main() {
    for _ in 0..300 {
        let (x, y) = (&AtomicOrdinal::new(false), &AtomicOrdinal::new(false));
        let (a, b) = std::thread::scope(|t| {
            let h = t.spawn(move || { x.store(true, SeqCst); y.load(SeqCst) });
            y.store(true, SeqCst);
            let b = x.load(SeqCst);
            (h.join().unwrap(), b)
        });
        assert!(a || b);
    }
}
"""),
    dict(id="c18-contains-scans-words", property="C18",
         needs="contains on a large set whose members all have high ordinals",
         breaks="contains first looks for a word that is not zero",
         edits=[(S + "set_ref.rs", """        let Some(word) = self.words.get(ordinal.ordinal() / u64::BITS as usize) else {
            return false;
        };
""", """        if self.words.iter().all(|word| *word == 0) {
            return false;
        }
        let Some(word) = self.words.get(ordinal.ordinal() / u64::BITS as usize) else {
            return false;
        };
""")],
         demo="""
use ordinal_map::set::OrdinalSet;
use std::time::Instant;
fn main() {
    let time = |x: u16| {
        let s: OrdinalSet<u16> = [x].into_iter().collect();
        let start = Instant::now();
        for i in 0..200_000u32 {
            assert_eq!(std::hint::black_box(&s).contains(&(i as u16)), i as u16 == x);
        }
        start.elapsed()
    };
    let low = (0..5).map(|_| time(0)).min().unwrap();
    let high = (0..5).map(|_| time(65535)).min().unwrap();
    assert!(high < low * 8, "{high:?} {low:?}");
}
"""),
    dict(id="c19-alternate-lost", property="C19",
         needs="{:#?} of a total map",
         breaks="the alternate form of the text is the plain one",
         edits=[(M + "total/map.rs", """        f.debug_map().entries(self.iter()).finish()""", """        f.write_str("{")?;
        for (i, (k, v)) in self.iter().enumerate() {
            if i != 0 {
                f.write_str(", ")?;
            }
            k.fmt(f)?;
            f.write_str(": ")?;
            v.fmt(f)?;
        }
        f.write_str("}")""")],
         demo="""
use ordinal_map::map::total::OrdinalTotalMap;
use std::collections::BTreeMap;
fn main() {
    let m = OrdinalTotalMap::<bool, u8>::new(|_| 1);
    let b = BTreeMap::from([(false, 1), (true, 1)]);
    assert_eq!(format!("{m:?}"), format!("{b:?}"));
    assert_eq!(format!("{m:#?}"), format!("{b:#?}"));
}
"""),
    dict(id="c20-derive-wraps", property="C20", profile="release",
         needs="a derived struct with more values than a usize can count",
         breaks="the size of a derived struct wraps around",
         edits=[(D, """                        #first #( * #exprs )*""", """                        #first #( .wrapping_mul(#exprs) )*""")],
         reject=True,
         demo="""
use ordinal_map::Ordinal;
#[cfg(feature = "twin")]
type F = (u32, u16);
#[cfg(not(feature = "twin"))]
type F = (u32, u32);
#[derive(Ordinal)]
struct S(F, u8);
fn main() {
    println!("{}", S::ORDINAL_SIZE);
}
"""),
    dict(id="c21-debug-assert-inserts", property="C21", profile="release",
         needs="a vacant entry filled in a build without debug assertions",
         breaks="the insertion happens inside a debug assertion",
         edits=[(M + "entry.rs", "        *self.entry = Some(value);", "        debug_assert!(self.entry.replace(value).is_none());")],
         demo="""
use ordinal_map::map::{Entry, OrdinalMap};
fn main() {
    let mut m = OrdinalMap::<bool, u8>::new();
    if let Entry::Vacant(e) = m.entry(true) {
        e.insert(3);
    }
    assert_eq!(m.get(&true), Some(&3));
}
"""),
    dict(id="c22-values-not-sync", property="C22",
         needs="an iterator over all values moved to another thread",
         breaks="the iterator over all values is neither Send nor Sync",
         edits=[(A + "values.rs", """    range: Range<usize>,
    _phantom: PhantomData<T>,
}""", """    range: Range<usize>,
    _phantom: PhantomData<*const T>,
}""")],
         demo="""
use ordinal_map::Ordinal;
fn main() {
    let it = u8::all_values();
    assert_eq!(std::thread::spawn(move || it.count()).join().unwrap(), 256);
}
"""),
    dict(id="c06-cached-len", property="C06",
         needs="a key made present through an entry, then len or is_empty",
         breaks="len is cached and entries do not update it",
         edits=[(M + "map.rs", """    map: Box<[Option<V>]>,
    _phantom: PhantomData<K>,
}""", """    map: Box<[Option<V>]>,
    len: usize,
    _phantom: PhantomData<K>,
}"""), (M + "map.rs", """            map: Box::default(),
""", """            map: Box::default(),
            len: 0,
"""), (M + "map.rs", "        self.iter().count()", "        self.len"), (M + "map.rs", "        self.iter().next().is_none()", "        self.len == 0"),
                (M + "map.rs", "        self.map[key.ordinal()].replace(value)", """        let prev = self.map[key.ordinal()].replace(value);
        self.len += prev.is_none() as usize;
        prev"""), (M + "map.rs", "        self.map.get_mut(key.ordinal())?.take()", """        let prev = self.map.get_mut(key.ordinal())?.take()?;
        self.len -= 1;
        Some(prev)"""), (M + "map.rs", "        Drain::new(total::IterMut::new(self.map.iter_mut()))", """        self.len = 0;
        Drain::new(total::IterMut::new(self.map.iter_mut()))"""), (M + "map.rs", """            map: self.map.clone(),
""", """            map: self.map.clone(),
            len: self.len,
""")],
         demo="""
use ordinal_map::map::OrdinalMap;
fn main() {
    let mut m = OrdinalMap::<bool, u8>::new();
    m.entry(true).or_insert(3);
    assert_eq!((m.len(), m.is_empty()), (1, false));
}
"""),
    dict(id="c07-remembers-vacancy", property="C07",
         needs="entry of an absent key in an array map whose values have no size",
         breaks="entries of maps with zero-sized values are always occupied",
         edits=[(M + "entry.rs", """        if entry.is_some() {
            Entry::Occupied""", """        // Values without a size are always there.
        if std::mem::size_of::<V>() == 0 && entry.replace(unsafe { std::mem::zeroed() }).is_some() || entry.is_some() {
            Entry::Occupied""")],
         demo="""
use ordinal_map::map::{Entry, OrdinalMap};
fn main() {
    let mut m = OrdinalMap::<u8, ()>::new();
    assert!(matches!(m.entry(5), Entry::Vacant(_)));
    assert!(!m.contains_key(&5));
}
"""),
    dict(id="c10-eq-masks", property="C10",
         needs="comparing two sets of a type without values",
         breaks="comparison shifts by 64 for types without values",
         edits=[(S + "set64.rs", "#[derive(Eq, PartialEq)]\n", ""), (S + "set64.rs", """impl<T: Ordinal> Default for OrdinalSet64<T> {""", """impl<T: Ordinal> PartialEq for OrdinalSet64<T> {
    fn eq(&self, other: &Self) -> bool {
        // Only bits of values matter.
        (self.set ^ other.set) << (u64::BITS as usize - T::ORDINAL_SIZE) == 0
    }
}

impl<T: Ordinal> Eq for OrdinalSet64<T> {}

impl<T: Ordinal> Default for OrdinalSet64<T> {""")],
         demo="""
use ordinal_map::set::OrdinalSet64;
use std::convert::Infallible;
fn main() {
    assert!(OrdinalSet64::<Infallible>::new() == OrdinalSet64::<Infallible>::new());
}
"""),
    dict(id="c02-array-of-units", property="C02",
         needs="from_ordinal of an out-of-range number for an array of a type with one value",
         breaks="every number gives the only array of a type with one value",
         edits=[(O + "array.rs", "        let mut n = ordinal;", "        let mut n = if T::ORDINAL_SIZE == 1 { 0 } else { ordinal };")],
         demo="""
use ordinal_map::Ordinal;
fn main() {
    assert_eq!(<[(); 3]>::from_ordinal(1), None);
    assert_eq!(<[bool; 3]>::from_ordinal(8), None);
}
"""),
    dict(id="c03-raw-defaults", property="C03",
         needs="deriving for a type whose type parameters have defaults",
         breaks="the derived implementation repeats the defaults and does not compile",
         edits=[(D, """    let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
""", """    let (_, ty_generics, where_clause) = input.generics.split_for_impl();
    let impl_generics = &input.generics;
""")],
         demo="""
use ordinal_map::Ordinal;
#[derive(Ordinal)]
struct S<T: Ordinal = bool>(T);
fn main() {
    assert_eq!(<S>::ORDINAL_SIZE, 2);
}
"""),
    dict(id="c09-map-values-cached", property="C09",
         needs="indexing mutably by a key of an array map with more than 256 keys",
         breaks="IndexMut narrows the ordinal to a byte",
         edits=[(M + "total/array_map.rs", """    fn index_mut(&mut self, index: &'a K) -> &mut Self::Output {
        &mut self.map[index.ordinal()]""", """    fn index_mut(&mut self, index: &'a K) -> &mut Self::Output {
        &mut self.map[index.ordinal() as u8 as usize]""")],
         demo="""
use ordinal_map::map::total::OrdinalTotalArrayMap;
fn main() {
    let mut m = OrdinalTotalArrayMap::<(bool, u8), u8, 512>::new(|_| 0);
    m[&(true, 0)] = 1;
    assert_eq!((m[&(true, 0)], m[&(false, 0)]), (1, 0));
}
"""),
]
