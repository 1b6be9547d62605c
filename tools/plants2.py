"""Specifications of further seeded changes; see plant.py."""
M = "ordinal-map/src/map/"
O = "ordinal-map/src/ordinal/impls/"
S = "ordinal-map/src/set/"
D = "ordinal-map-derive/src/ordinal.rs"
PLANTS = [
    dict(id="c01-nonzero-wraps", property="C01",
         needs="NonZeroI32::from_ordinal of a number just above the last ordinal, or above 2^32",
         breaks="ordinals out of range convert to negative numbers instead of None",
         edits=[(O + "non_zero.rs", "            Some(rem) => NonZeroI32::new(i32::try_from(rem + 1).ok()?),",
                 "            Some(rem) => NonZeroI32::new((rem + 1) as i32),")],
         demo="""
use ordinal_map::Ordinal;
use std::num::NonZeroI32;
fn main() {
    assert_eq!(NonZeroI32::from_ordinal((1 << 32) - 2).unwrap().get(), i32::MAX);
    for o in [(1usize << 32) - 1, 1 << 32, 1 << 33, usize::MAX - 1] {
        assert_eq!(NonZeroI32::from_ordinal(o), None, "{o}");
    }
}
"""),
    dict(id="c02-result-empty-ok", property="C02",
         needs="a Result whose Ok type has no values",
         breaks="from_ordinal of the first Err value asks the empty type for a value and panics",
         edits=[(O + "std.rs", """        if ordinal < A::ORDINAL_SIZE {
            Some(Ok(""", """        if ordinal <= A::ORDINAL_SIZE.saturating_sub(1) {
            Some(Ok(""")],
         demo="""
use ordinal_map::Ordinal;
use std::convert::Infallible;
fn main() {
    assert_eq!(Result::<bool, bool>::from_ordinal(2), Some(Err(false)));
    assert_eq!(Result::<Infallible, bool>::from_ordinal(0), Some(Err(false)));
}
"""),
    dict(id="c02-long-tuples", property="C02",
         needs="a tuple of twelve or more components with different values in the last ones",
         breaks="the weight of the first component leaves out the last component of long tuples",
         edits=[(D, "SizeExpr::product(rem_tys.iter().copied().map(|e| SizeExpr::ordinal_size(e)));",
                 "SizeExpr::product(rem_tys.iter().copied().take(10).map(|e| SizeExpr::ordinal_size(e)));")],
         demo="""
use ordinal_map::Ordinal;
type T = (bool, (), (), (), (), (), (), (), (), (), (), bool);
fn main() {
    let all: Vec<T> = T::all_values().collect();
    assert_eq!(all.len(), 4);
    for (i, v) in all.iter().enumerate() {
        assert_eq!(v.ordinal(), i, "{v:?}");
    }
}
"""),
    dict(id="c03-narrow-counts", property="C03",
         needs="an enum with more than 255 variants without fields before a variant",
         breaks="the number of preceding plain variants is generated modulo 256",
         edits=[(D, '        let c = syn::LitInt::new(&format!("{value}usize"), proc_macro2::Span::call_site());',
                 '        let c = syn::LitInt::new(&format!("{}usize", value as u8), proc_macro2::Span::call_site());')],
         demo="""
use ordinal_map::Ordinal;
#[derive(Ordinal, Debug, PartialEq)]
enum Big { """ + ", ".join(f"V{i}" for i in range(300)) + """ }
fn main() {
    assert_eq!(Big::ORDINAL_SIZE, 300);
    assert_eq!(Big::V299.ordinal(), 299);
    assert_eq!(Big::from_ordinal(256), Some(Big::V256));
}
"""),
    dict(id="c03-where-clause", property="C03",
         needs="a generic type whose bound stands in a where clause",
         breaks="the derived implementation loses the where clause and does not compile",
         edits=[(D, "        impl #impl_generics ordinal_map::Ordinal for #ident #ty_generics #where_clause {",
                 "        impl #impl_generics ordinal_map::Ordinal for #ident #ty_generics {"),
                (D, "let (impl_generics, ty_generics, where_clause) =", "let (impl_generics, ty_generics, _where_clause) =")],
         demo="""
use ordinal_map::Ordinal;
#[derive(Ordinal)]
struct W<T>(T, bool) where T: Ordinal;
fn main() {
    assert_eq!(W::<bool>::ORDINAL_SIZE, 4);
}
"""),
    dict(id="c04-negative-order", property="C04",
         needs="comparing two negative NonZeroI32",
         breaks="negative NonZeroI32 are numbered from -1 downwards",
         edits=[(O + "non_zero.rs", "            self.get().abs_diff(i32::MIN) as usize", "            self.get().unsigned_abs() as usize - 1"),
                (O + "non_zero.rs", """            None => NonZeroI32::new(
                i32::MIN
                    .checked_add_unsigned(u32::try_from(ordinal).unwrap())
                    .unwrap(),
            ),""", "            None => NonZeroI32::new((-1i32).checked_sub_unsigned(u32::try_from(ordinal).unwrap()).unwrap()),")],
         demo="""
use ordinal_map::Ordinal;
use std::num::NonZeroI32;
fn main() {
    let a = NonZeroI32::new(-5).unwrap();
    let b = NonZeroI32::new(-4).unwrap();
    assert!(a < b && a.ordinal() < b.ordinal());
}
"""),
    dict(id="c05-nth-adds", property="C05",
         needs="skipping a number of values close to usize::MAX after at least one step",
         breaks="nth adds the step to the position: it overflows",
         edits=[("ordinal-map/src/values.rs", """    #[inline]
    fn count(self) -> usize
    where
        Self: Sized,
    {
        self.range.count()
    }
""", """    #[inline]
    fn count(self) -> usize {
        self.range.count()
    }

    #[inline]
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        self.range.start = (self.range.start + n).min(self.range.end);
        self.next()
    }
""")],
         demo="""
use ordinal_map::Ordinal;
fn main() {
    let mut it = u8::all_values();
    assert_eq!(it.nth(3), Some(3));
    assert_eq!(it.nth(usize::MAX), None);
    assert_eq!(it.next(), None);
}
"""),
    dict(id="c06-retain-reversed", property="C06",
         needs="retain with a predicate whose answer depends on what it saw before",
         breaks="retain offers the entries from the last key to the first",
         edits=[(M + "array_map.rs", "        for (key, value_opt) in self.map.iter_mut() {", "        for (key, value_opt) in self.map.iter_mut().rev() {")],
         demo="""
use ordinal_map::map::OrdinalArrayMap;
fn main() {
    let mut m: OrdinalArrayMap<u8, u8, 256> = (0..10).map(|k| (k, k)).collect();
    let mut budget = 3;
    m.retain(|_, _| { budget -= 1; budget >= 0 });
    assert_eq!(m.keys().collect::<Vec<_>>(), [0, 1, 2]);
}
"""),
    dict(id="c08-drain-skips-drop", property="C08",
         needs="dropping a drain before its end when values need no destructor",
         breaks="values without a destructor stay in the map when a drain is dropped early",
         edits=[(M + "iter.rs", "        for _ in self {}", """        if mem::needs_drop::<V>() {
            for _ in self {}
        }""")],
         demo="""
use ordinal_map::map::OrdinalMap;
fn main() {
    let mut m: OrdinalMap<u8, u32> = [(1, 1), (2, 2)].into_iter().collect();
    m.drain().next();
    assert!(m.is_empty());
}
"""),
    dict(id="c08-nth-key", property="C08",
         needs="going on with a map iterator after skipping with nth",
         breaks="after nth the following values are paired with the key before their own",
         edits=[(M + "enumerate.rs", """        self.next += 1;
        Some((k, v))
    }

    #[inline]
    fn size_hint""", """        self.next += 1;
        Some((k, v))
    }

    #[inline]
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        let v = self.iter.nth(n)?;
        self.next += n;
        Some((K::from_ordinal(self.next).unwrap(), v))
    }

    #[inline]
    fn size_hint"""), (M + "total/iter.rs", """impl<'a, K: Ordinal, V> Iterator for Iter<'a, K, V> {
    type Item = (K, &'a V);

    #[inline]
    fn next(&mut self) -> Option<Self::Item> {
        self.iter.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }
""", """impl<'a, K: Ordinal, V> Iterator for Iter<'a, K, V> {
    type Item = (K, &'a V);

    #[inline]
    fn next(&mut self) -> Option<(K, &'a V)> {
        self.iter.next()
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        self.iter.nth(n)
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }
""")],
         demo="""
use ordinal_map::map::total::OrdinalTotalMap;
fn main() {
    let m = OrdinalTotalMap::<u8, u8>::new(|k| k);
    let mut it = m.iter();
    assert_eq!(it.nth(4), Some((4, &4)));
    assert_eq!(it.next(), Some((5, &5)));
}
"""),
    dict(id="c09-new-from-the-end", property="C09",
         needs="an initialiser with a state, for a heap total map",
         breaks="the initialiser is called from the last key to the first",
         edits=[(M + "total/map.rs", """        for v in K::all_values() {
            map.push(init(v)?);
        }
        Ok(OrdinalTotalMap {""", """        for v in K::all_values().rev() {
            map.push(init(v)?);
        }
        map.reverse();
        Ok(OrdinalTotalMap {""")],
         demo="""
use ordinal_map::map::total::OrdinalTotalMap;
fn main() {
    let mut n = 0;
    let m = OrdinalTotalMap::<bool, i32>::new(|_| { n += 1; n });
    assert_eq!((m[&false], m[&true]), (1, 2));
}
"""),
    dict(id="c10-word-too-many", property="C10",
         needs="a large set of a type whose number of values is a multiple of 64, with debug assertions",
         breaks="ordinal_array_set_s counts one word too many for whole words, and the set of that type panics",
         edits=[(S + "array.rs", "    T::ORDINAL_SIZE.div_ceil(u64::BITS as usize)", "    T::ORDINAL_SIZE / u64::BITS as usize + 1")],
         demo="""
use ordinal_map::set::OrdinalSet;
fn main() {
    let mut s = OrdinalSet::<u8>::new();
    assert!(s.insert(200));
    assert!(s.contains(&200));
}
"""),
    dict(id="c11-skips-last-of-word", property="C11",
         needs="a large set iterated from the back, with an empty word after one that has its last element",
         breaks="stepping back over an empty word also steps over the last element before it",
         edits=[(S + "iter.rs", """            let next = self.iter.next_back()?;
            if self.set.contains(&next) {
                return Some(next);
            }""", """            let next = self.iter.next_back()?;
            let ordinal = next.ordinal();
            if self.set.contains(&next) {
                return Some(next);
            } else if self.set.ends_empty_word(ordinal) {
                self.iter.nth_back(63);
            }"""), (S + "set_ref.rs", """        let Some(word) = self.words.get(ordinal.ordinal() / u64::BITS as usize) else {
            return false;
        };
        word & (1 << (ordinal.ordinal() % u64::BITS as usize)) != 0
    }
""", """        let index = ordinal.ordinal();
        let Some(word) = self.words.get(index / u64::BITS as usize) else {
            return false;
        };
        word & (1 << (index % u64::BITS as usize)) != 0
    }

    /// Whether nothing of the word that ends with this ordinal is in the set.
    #[inline]
    pub(crate) fn ends_empty_word(&self, ordinal: usize) -> bool {
        ordinal % 64 == 63 && self.words.get(ordinal / 64) == Some(&0)
    }
""")],
         demo="""
use ordinal_map::set::OrdinalSet;
fn main() {
    let s: OrdinalSet<u8> = [3u8, 127, 200].into_iter().collect();
    assert_eq!(s.iter().rev().collect::<Vec<_>>(), [200, 127, 3]);
}
"""),
    dict(id="c15-spurious-failure", property="C15", miri="x86_64", miriflags="-Zmiri-compare-exchange-weak-failure-rate=0.9",
         needs="hardware on which a weak exchange fails spuriously",
         breaks="compare_exchange fails although the expected value is stored",
         edits=[("ordinal-map/src/atomic.rs", "            .compare_exchange(old_ord, new_ord, success, failure);",
                 "            .compare_exchange_weak(old_ord, new_ord, success, failure);")],
         demo="""
use ordinal_map::AtomicOrdinal;
use std::sync::atomic::Ordering::SeqCst;
fn main() {
    let a = AtomicOrdinal::new(0u8);
    for i in 0..40u8 {
        assert_eq!(a.compare_exchange(i, i + 1, SeqCst, SeqCst), Ok(i));
    }
}
"""),
    dict(id="c16-store-relaxed", property="C16", miri="x86_64",
         needs="a thread that reads data published with a Release store of the cell",
         breaks="a Release store is only Relaxed",
         edits=[("ordinal-map/src/atomic.rs", "        self.atomic.store(value.ordinal(), ordering);", """        let ordering = match ordering {
            Ordering::SeqCst => Ordering::SeqCst,
            _ => Ordering::Relaxed,
        };
        self.atomic.store(value.ordinal(), ordering);""")],
         demo="""
use ordinal_map::AtomicOrdinal;
use std::cell::UnsafeCell;
use std::sync::atomic::Ordering::{Acquire, Release};
struct Shared { flag: AtomicOrdinal<bool>, data: UnsafeCell<u32> }
unsafe impl Sync for Shared {}
fn main() {
    let s = Shared { flag: AtomicOrdinal::new(false), data: UnsafeCell::new(0) };
    std::thread::scope(|t| {
        t.spawn(|| {
            unsafe { *s.data.get() = 7 };
            s.flag.store(true, Release);
        });
        while !s.flag.load(Acquire) {
            std::thread::yield_now();
        }
        assert_eq!(unsafe { *s.data.get() }, 7);
    });
}
"""),
    dict(id="c16-failed-exchange-relaxed", property="C16", miri="x86_64",
         needs="a thread that reads published data after a failed exchange with Acquire failure ordering",
         breaks="a failed exchange with failure ordering Acquire does not acquire",
         edits=[("ordinal-map/src/atomic.rs", "            .compare_exchange(old_ord, new_ord, success, failure);", """            .compare_exchange(old_ord, new_ord, success, match failure {
                Ordering::Acquire => Ordering::Relaxed,
                other => other,
            });""")],
         demo="""
use ordinal_map::AtomicOrdinal;
use std::cell::UnsafeCell;
use std::sync::atomic::Ordering::{Acquire, Relaxed, Release};
struct Shared { flag: AtomicOrdinal<u8>, data: UnsafeCell<u32> }
unsafe impl Sync for Shared {}
impl Shared {
    fn data(&self) -> *mut u32 { self.data.get() }
}
fn main() {
    let s = &Shared { flag: AtomicOrdinal::new(0), data: UnsafeCell::new(0) };
    std::thread::scope(|t| {
        t.spawn(move || {
            unsafe { *s.data() = 7 };
            s.flag.store(1, Release);
        });
        while s.flag.compare_exchange(9, 9, Relaxed, Acquire) != Err(1) {
            std::thread::yield_now();
        }
        assert_eq!(unsafe { *s.data() }, 7);
    });
}
"""),
    dict(id="c17-grows", property="C17",
         needs="the first insertion into a heap map of more than four keys",
         breaks="the storage is grown step by step: several allocations instead of one",
         edits=[(M + "map.rs", "            let mut map = Vec::with_capacity(K::ORDINAL_SIZE);", "            let mut map = Vec::new();")],
         demo="""
use ordinal_map::map::OrdinalMap;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { N.fetch_add(1, SeqCst); System.realloc(p, l, n) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut m = OrdinalMap::<u8, u32>::new();
    let before = N.load(SeqCst);
    m.insert(3, 3);
    assert_eq!(N.load(SeqCst) - before, 1);
}
"""),
    dict(id="c18-insert-scans", property="C18",
         needs="inserting into a heap map of many keys of which only late ones are present",
         breaks="every insertion scans the map from its first key to see whether it is empty",
         edits=[(M + "map.rs", """    fn init_full_map(&mut self) {
        if self.map.is_empty() {""", """    fn init_full_map(&mut self) {
        if self.is_empty() && self.map.is_empty() {""")],
         demo="""
use ordinal_map::map::OrdinalMap;
use ordinal_map::Ordinal;
use std::cell::Cell;
thread_local!(static N: Cell<usize> = Cell::new(0));
#[derive(Clone, Copy)]
struct K(u16);
impl Ordinal for K {
    const ORDINAL_SIZE: usize = 1 << 16;
    fn ordinal(&self) -> usize { N.with(|n| n.set(n.get() + 1)); self.0 as usize }
    fn from_ordinal(o: usize) -> Option<K> { N.with(|n| n.set(n.get() + 1)); Some(K(o.try_into().ok()?)) }
}
fn main() {
    let mut m = OrdinalMap::<K, u32>::new();
    m.insert(K(60000), 1);
    N.with(|n| n.set(0));
    m.insert(K(60001), 2);
    assert!(N.with(|n| n.get()) < 10);
}
"""),
    dict(id="c19-clone-restarts", property="C19",
         needs="cloning a map iterator that has been advanced from the front",
         breaks="the clone pairs the remaining values with keys from the first one on",
         edits=[(M + "enumerate.rs", """            next: self.next,
            iter: self.iter.clone(),""", """            next: 0,
            iter: self.iter.clone(),""")],
         demo="""
use ordinal_map::map::OrdinalMap;
fn main() {
    let m: OrdinalMap<u8, u32> = [(1, 1), (2, 2), (3, 3)].into_iter().collect();
    let mut it = m.iter();
    it.next();
    assert_eq!(it.clone().next(), Some((2, &2)));
}
"""),
    dict(id="c20-no-overflow-check", property="C20", profile="release", reject=True,
         needs="a tuple with more values than usize::MAX, in a release build",
         breaks="the ordinal of a tuple no longer needs its ORDINAL_SIZE: ordinals of too large tuples wrap around",
         edits=[(D, """            fn ordinal(&self) -> usize {
                #check_overflow
                #ordinal
            }

            fn from_ordinal(#ordinal_var: usize)""", """            fn ordinal(&self) -> usize {
                let _ = self;
                #ordinal
            }

            fn from_ordinal(#ordinal_var: usize)"""),
                (D, """    let check_overflow = check_overflow();
    let check_zero_size = check_zero_size();
    Ok(syn::parse_quote! {
        impl<""", """    let check_zero_size = check_zero_size();
    Ok(syn::parse_quote! {
        impl<""")],
         demo="""
use ordinal_map::Ordinal;
#[cfg(feature = "twin")]
type T = (u32, u16, u8);
#[cfg(not(feature = "twin"))]
type T = (u32, u32, u8);
fn main() {
    println!("{}", T::default().ordinal());
}
"""),
    dict(id="c20-set-size", property="C20", reject=True,
         needs="an array set with a size parameter that is too large",
         breaks="OrdinalArraySet accepts more words than its elements need",
         edits=[(S + "array.rs", "    const ASSERT: () = assert!(S == ordinal_array_set_s::<T>());", "    const ASSERT: () = assert!(S >= ordinal_array_set_s::<T>());")],
         demo="""
use ordinal_map::set::OrdinalArraySet;
const N: usize = if cfg!(feature = "twin") { 4 } else { 5 };
fn main() {
    let s = OrdinalArraySet::<u8, N>::new();
    println!("{}", s.contains(&1) as u8 + N as u8);
}
"""),
    dict(id="c21-little-endian", property="C21", miri="s390x",
         needs="a big-endian target",
         breaks="set lookups read the words as bytes, least significant first",
         edits=[(S + "set_ref.rs", """        let Some(word) = self.words.get(ordinal.ordinal() / u64::BITS as usize) else {
            return false;
        };
        word & (1 << (ordinal.ordinal() % u64::BITS as usize)) != 0""", """        // SAFETY: the bytes of initialised words.
        let bytes = unsafe { std::slice::from_raw_parts(self.words.as_ptr().cast::<u8>(), self.words.len() * 8) };
        let Some(byte) = bytes.get(ordinal.ordinal() / u8::BITS as usize) else {
            return false;
        };
        byte & (1 << (ordinal.ordinal() % u8::BITS as usize)) != 0""")],
         demo="""
use ordinal_map::set::OrdinalSet;
fn main() {
    let s: OrdinalSet<u8> = [3u8, 200].into_iter().collect();
    assert!(s.contains(&3) && s.contains(&200) && !s.contains(&59));
}
"""),
    dict(id="c21-narrow-shift", property="C21", miri="i686",
         needs="a 32-bit target and a single-word set of more than 32 elements",
         breaks="OrdinalSet64::contains shifts a usize: it overflows on 32-bit targets",
         edits=[(S + "set64.rs", "        self.set & (1 << ordinal.ordinal()) != 0", "        self.set & (1usize << ordinal.ordinal()) as u64 != 0")],
         demo="""
use ordinal_map::set::OrdinalSet64;
use ordinal_map::Ordinal;
#[derive(Ordinal)]
struct K([bool; 6]);
fn main() {
    let s: OrdinalSet64<K> = K::all_values().collect();
    assert!(s.contains(&K([true; 6])));
}
"""),
    dict(id="c21-debug-assert", property="C21",
         needs="a heap total map of a key type with one value, with debug assertions",
         breaks="a wrong debug assertion panics in debug builds only",
         edits=[(M + "total/map.rs", "        &self.map[key.ordinal()]", """        debug_assert!(key.ordinal() < self.len() - 1 || self.len() > 1);
        &self.map[key.ordinal()]""")],
         demo="""
use ordinal_map::map::total::OrdinalTotalMap;
fn main() {
    let m = OrdinalTotalMap::<(), u8>::new(|_| 5);
    assert_eq!(m[&()], 5);
}
"""),
    dict(id="c22-cell-not-send", property="C22",
         needs="sharing an atomic cell between threads",
         breaks="AtomicOrdinal is neither Send nor Sync",
         edits=[("ordinal-map/src/atomic.rs", "    _marker: PhantomData<T>,", "    _marker: PhantomData<*const T>,")],
         demo="""
use ordinal_map::AtomicOrdinal;
use std::sync::atomic::Ordering::SeqCst;
fn main() {
    let a = AtomicOrdinal::new(false);
    std::thread::scope(|s| { s.spawn(|| a.store(true, SeqCst)); });
    assert!(a.load(SeqCst));
}
"""),
    dict(id="c22-map-always-sync", property="C22", reject=True,
         needs="a map whose values may not be shared between threads",
         breaks="OrdinalMap is Sync whatever its values are",
         edits=[(M + "map.rs", """    map: Box<[Option<V>]>,
    _phantom: PhantomData<K>,
}
""", """    map: Box<[Option<V>]>,
    _phantom: PhantomData<fn() -> K>,
}

// SAFETY: shared references only read.
unsafe impl<K, V> Sync for OrdinalMap<K, V> {}
""")],
         demo="""
use ordinal_map::map::OrdinalMap;
use std::cell::Cell;
fn shared<T: Sync>(_: &T) {}
fn main() {
    #[cfg(feature = "twin")]
    shared(&OrdinalMap::<u8, u32>::new());
    #[cfg(not(feature = "twin"))]
    shared(&OrdinalMap::<u8, Cell<u32>>::new());
}
"""),
]
