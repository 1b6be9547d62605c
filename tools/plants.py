"""Specifications of the seeded changes; see plant.py."""
M = "ordinal-map/src/map/"
O = "ordinal-map/src/ordinal/impls/"
S = "ordinal-map/src/set/"
D = "ordinal-map-derive/src/ordinal.rs"
PLANTS = [
    dict(id="c05-last-after-end", property="C05",
         needs="an exhausted iterator over all values, walked from the front, asked for last()",
         breaks="OrdinalValues::last() reads the end of the range without looking whether anything remains",
         edits=[("ordinal-map/src/values.rs", """    fn last(mut self) -> Option<Self::Item>
    where
        Self: Sized,
    {
        self.next_back()""", """    fn last(self) -> Option<Self::Item>
    where
        Self: Sized,
    {
        T::from_ordinal(self.range.end.checked_sub(1)?)""")],
         demo="""
use ordinal_map::Ordinal;
fn main() {
    let mut it = u8::all_values();
    assert_eq!(it.by_ref().count(), 256);
    assert_eq!(it.last(), None);
    let mut it = bool::all_values();
    it.nth(1);
    assert_eq!(it.last(), None);
}
"""),
    dict(id="c06-collect-first-wins", property="C06",
         needs="collecting pairs of which two share a key",
         breaks="collecting into an OrdinalMap keeps the first value of a repeated key instead of the last",
         edits=[(M + "map.rs", """        for (k, v) in iter {
            map.insert(k, v);
        }""", """        for (k, v) in iter {
            map.entry(k).or_insert(v);
        }""")],
         demo="""
use ordinal_map::map::OrdinalMap;
fn main() {
    let m: OrdinalMap<u8, u32> = [(1, 10), (2, 20), (1, 30)].into_iter().collect();
    assert_eq!(m.get(&1), Some(&30));
    assert_eq!(m.get(&2), Some(&20));
}
"""),
    dict(id="c07-or-insert-replaces", property="C07",
         needs="or_insert on an occupied entry with a different value",
         breaks="Entry::or_insert overwrites the value of an occupied entry",
         edits=[(M + "entry.rs", "            Entry::Occupied(entry) => entry.entry.as_mut().unwrap(),",
                 "            Entry::Occupied(entry) => entry.entry.insert(value),")],
         demo="""
use ordinal_map::map::OrdinalMap;
fn main() {
    let mut m: OrdinalMap<bool, u32> = OrdinalMap::new();
    m.insert(true, 1);
    assert_eq!(*m.entry(true).or_insert(2), 1);
    assert_eq!(m.get(&true), Some(&1));
}
"""),
    dict(id="c08-back-after-front", property="C08",
         needs="an iterator of an array map by value, advanced from the front before it is advanced from the back",
         breaks="keys taken from the back are off by the number of items already taken from the front",
         edits=[(M + "enumerate.rs", "        let k = K::from_ordinal(self.next + self.iter.len()).unwrap();",
                 "        let k = K::from_ordinal((self.next + self.iter.len()).min(K::ORDINAL_SIZE - 1 - self.next)).unwrap();")],
         demo="""
use ordinal_map::map::total::OrdinalTotalMap;
fn main() {
    let m = OrdinalTotalMap::<u8, u8>::new(|k| k);
    let mut it = m.iter();
    it.next();
    assert_eq!(it.next_back(), Some((255, &255)));
    assert_eq!(it.next_back(), Some((254, &254)));
}
"""),
    dict(id="c09-try-new-runs-on", property="C09",
         needs="try_new with an initialiser that fails and observes later calls",
         breaks="OrdinalTotalMap::try_new calls the initialiser for all keys after one failed",
         edits=[(M + "total/map.rs", """        for v in K::all_values() {
            map.push(init(v)?);
        }""", """        let values: Vec<Result<V, E>> = K::all_values().map(&mut init).collect();
        for v in values {
            map.push(v?);
        }""")],
         demo="""
use ordinal_map::map::total::OrdinalTotalMap;
fn main() {
    let mut calls = 0;
    let r = OrdinalTotalMap::<u8, u8>::try_new(|k| { calls += 1; if k == 3 { Err(k) } else { Ok(k) } });
    assert_eq!(r.err(), Some(3));
    assert_eq!(calls, 4);
}
"""),
    dict(id="c10-sixteen-bit-words", property="C10",
         needs="a set of a type with more than 65536 values holding one beyond that",
         breaks="lookups in sets truncate the ordinal to 16 bits",
         edits=[(S + "set_ref.rs", "        let Some(word) = self.words.get(ordinal.ordinal() / u64::BITS as usize) else {",
                 "        let ordinal_word = (ordinal.ordinal() / u64::BITS as usize) as u16 % 1024;\n"
                 "        let Some(word) = self.words.get(ordinal_word as usize) else {")],
         demo="""
use ordinal_map::set::OrdinalSet;
fn main() {
    let mut s = OrdinalSet::<char>::new();
    s.insert('a');
    s.insert('\\u{10ffff}');
    assert!(s.contains(&'\\u{10ffff}'));
    let far = char::from_u32('a' as u32 + 65536 * 2 + 0x0).unwrap();
    assert!(!s.contains(&far));
}
"""),
    dict(id="c12-builder-leak", property="C12",
         needs="try_new of an array total map that fails after some values were made",
         breaks="values built before a failure are not all dropped: the first one leaks",
         edits=[("ordinal-map/src/array_builder.rs", """        for i in 0..self.filled {
            unsafe {
                self.array[i].assume_init_drop();
            }
        }""", """        while self.filled > 1 {
            self.filled -= 1;
            unsafe {
                self.array[self.filled].assume_init_drop();
            }
        }""")],
         demo="""
use std::rc::Rc;
use ordinal_map::map::total::OrdinalTotalArrayMap;
fn main() {
    let rc = Rc::new(());
    let r = OrdinalTotalArrayMap::<u8, Rc<()>, 256>::try_new(|k| if k == 5 { Err(()) } else { Ok(rc.clone()) });
    assert!(r.is_err());
    drop(r);
    assert_eq!(Rc::strong_count(&rc), 1);
}
"""),
    dict(id="c13-retain-takes", property="C13",
         needs="a predicate given to retain() that panics",
         breaks="the entry being judged is lost from the map when the predicate panics",
         edits=[(M + "array_map.rs", """            if let Some(value) = value_opt {
                if !f(key, value) {
                    *value_opt = None;
                }
            }""", """            if let Some(mut value) = value_opt.take() {
                if f(key, &mut value) {
                    *value_opt = Some(value);
                }
            }""")],
         demo="""
use ordinal_map::map::OrdinalArrayMap;
fn main() {
    let mut m = OrdinalArrayMap::<u8, u8, 256>::new();
    for k in 0..10 { m.insert(k, k); }
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.retain(|k, _| { if k == 4 { panic!() } true })));
    assert!(r.is_err());
    if m.get(&4) != Some(&4) { std::process::exit(1) }
}
"""),
    dict(id="c14-unchecked-get", property="C14",
         needs="a key type whose ordinal() is not below ORDINAL_SIZE (safe code, breaking the contract)",
         breaks="OrdinalTotalMap::get reads outside the allocation instead of panicking",
         edits=[(M + "total/map.rs", "        &self.map[key.ordinal()]\n    }\n\n    /// Returns a mutable",
                 "        // One value per key.\n        unsafe { self.map.get_unchecked(key.ordinal()) }\n    }\n\n    /// Returns a mutable")],
         demo="""
use ordinal_map::map::total::OrdinalTotalMap;
use ordinal_map::Ordinal;
struct K(usize);
impl Ordinal for K {
    const ORDINAL_SIZE: usize = 4;
    fn ordinal(&self) -> usize { self.0 }
    fn from_ordinal(o: usize) -> Option<Self> { (o < 4).then_some(K(o)) }
}
fn main() {
    let m = OrdinalTotalMap::<K, u8>::new(|_| 7);
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| *m.get(&K(5)));
    if r.is_ok() { std::process::exit(1) }
}
"""),
    dict(id="c15-load-then-store", property="C15",
         needs="two threads exchanging on one cell at the same time",
         breaks="compare_exchange is a load followed by a store: an update between the two is lost",
         edits=[("ordinal-map/src/atomic.rs", """        let res = self
            .atomic
            .compare_exchange(old_ord, new_ord, success, failure);""", """        let current = self.atomic.load(failure);
        let res = if current == old_ord {
            match success {
                Ordering::Acquire => self.atomic.store(new_ord, Ordering::Relaxed),
                Ordering::AcqRel => self.atomic.store(new_ord, Ordering::Release),
                o => self.atomic.store(new_ord, o),
            }
            Ok(current)
        } else {
            Err(current)
        };""")],
         demo="""
use std::sync::atomic::Ordering::SeqCst;
use ordinal_map::AtomicOrdinal;
fn main() {
    for _ in 0..20 {
        let a = AtomicOrdinal::new(0u16);
        std::thread::scope(|s| {
            for _ in 0..4 {
                s.spawn(|| for _ in 0..10000 {
                    let mut v = a.load(SeqCst);
                    while let Err(x) = a.compare_exchange(v, v + 1, SeqCst, SeqCst) { v = x; }
                });
            }
        });
        assert_eq!(a.load(SeqCst), 40000);
    }
}
"""),
    dict(id="c17-clear-frees", property="C17",
         needs="clearing a heap map and inserting again, with allocations counted",
         breaks="clear() gives the allocation back, so the next insertion allocates again",
         edits=[(M + "map.rs", "        self.drain();", "        self.map = Box::default();")],
         demo="""
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use ordinal_map::map::OrdinalMap;
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut m: OrdinalMap<u8, u32> = OrdinalMap::new();
    m.insert(1, 1);
    m.clear();
    let n = N.load(SeqCst);
    m.insert(2, 2);
    assert_eq!(N.load(SeqCst), n);
}
"""),
    dict(id="c18-contains-scans", property="C18",
         needs="contains_key on a map with many entries",
         breaks="OrdinalArrayMap::contains_key walks over the keys instead of looking the key up",
         edits=[(M + "array_map.rs", "        self.get(key).is_some()", "        self.keys().any(|k| k.ordinal() == key.ordinal())")],
         demo="""
use std::time::Instant;
use ordinal_map::map::OrdinalArrayMap;
fn main() {
    let mut big = OrdinalArrayMap::<u16, u8, 65536>::new();
    big.insert(65535, 1);
    let t = Instant::now();
    for _ in 0..2000 { assert!(big.contains_key(&65535)); }
    // Constant time is microseconds; walking takes seconds.
    assert!(t.elapsed().as_millis() < 300, "{:?}", t.elapsed());
}
"""),
    dict(id="c19-debug-keys-shift", property="C19",
         needs="the Debug text of an owning map iterator that was advanced from the front",
         breaks="the text pairs the remaining values with keys counted from zero",
         edits=[(M + "total/iter.rs", """impl<K, V, const S: usize> IntoIterArray<K, V, S> {
    #[inline]
    pub(crate) fn new(iter: array::IntoIter<V, S>) -> Self {
        IntoIterArray {
            iter: OrdinalEnumerate::new(iter, 0),
        }
    }

    pub(crate) fn iter(&self) -> Iter<'_, K, V> {
        Iter::new(self.iter.iter.as_slice().iter(), self.iter.next)""", """impl<K, V, const S: usize> IntoIterArray<K, V, S> {
    #[inline]
    pub(crate) fn new(iter: array::IntoIter<V, S>) -> Self {
        IntoIterArray {
            iter: OrdinalEnumerate::new(iter, 0),
        }
    }

    pub(crate) fn iter(&self) -> Iter<'_, K, V> {
        Iter::new(self.iter.iter.as_slice().iter(), 0)""")],
         demo="""
use ordinal_map::map::OrdinalArrayMap;
fn main() {
    let mut m = OrdinalArrayMap::<bool, u8, 2>::new();
    m.insert(false, 1);
    m.insert(true, 2);
    let mut it = m.into_iter();
    it.next();
    assert_eq!(format!("{it:?}"), "[(true, 2)]");
}
"""),
    dict(id="c20-from-array-size", property="C20", reject=True,
         needs="from_array with an array longer than the key type has values",
         breaks="OrdinalTotalArrayMap::from_array no longer checks its size parameter at compile time",
         edits=[(M + "total/array_map.rs", """        const { Self::ASSERT };
        OrdinalTotalArrayMap {
            map: array,""", """        OrdinalTotalArrayMap {
            map: array,""")],
         demo="""
use ordinal_map::map::total::OrdinalTotalArrayMap;
const N: usize = if cfg!(feature = "twin") { 2 } else { 3 };
fn main() {
    let m = OrdinalTotalArrayMap::<bool, u8, N>::from_array([0; N]);
    println!("{}", m.len());
}
"""),
]
