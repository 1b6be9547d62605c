//! One interface over the sparse maps and one over the total maps.

use std::fmt::Debug;
use std::ops::Index;
use std::ops::IndexMut;

use ordinal_map::map::total::OrdinalTotalArrayMap;
use ordinal_map::map::total::OrdinalTotalMap;
use ordinal_map::map::Entry;
use ordinal_map::map::OrdinalArrayMap;
use ordinal_map::map::OrdinalMap;
use ordinal_map::Ordinal;

use crate::keys::TestKey;

pub trait Sparse: Sized + Clone + Debug + Default {
    type K: TestKey;
    type V: Clone + Debug;
    const NAME: &'static str;
    fn make() -> Self;
    fn collect(it: impl IntoIterator<Item = (Self::K, Self::V)>) -> Self;
    fn get(&self, k: &Self::K) -> Option<&Self::V>;
    fn get_mut(&mut self, k: &Self::K) -> Option<&mut Self::V>;
    fn contains_key(&self, k: &Self::K) -> bool;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn insert(&mut self, k: Self::K, v: Self::V) -> Option<Self::V>;
    fn remove(&mut self, k: &Self::K) -> Option<Self::V>;
    fn entry(&mut self, k: Self::K) -> Entry<'_, Self::K, Self::V>;
    fn clear(&mut self);
    /// False if the map has no such operation.
    fn retain(&mut self, f: impl FnMut(Self::K, &mut Self::V) -> bool) -> bool;
    fn iter(&self) -> impl DoubleEndedIterator<Item = (Self::K, &Self::V)> + Clone + Debug;
    fn ref_iter(&self) -> impl DoubleEndedIterator<Item = (Self::K, &Self::V)> + Clone + Debug;
    fn iter_mut(&mut self) -> impl DoubleEndedIterator<Item = (Self::K, &mut Self::V)> + Debug;
    fn keys(&self) -> impl DoubleEndedIterator<Item = Self::K> + Clone;
    fn values(&self) -> impl DoubleEndedIterator<Item = &Self::V> + Clone + Debug;
    fn values_mut(&mut self) -> impl DoubleEndedIterator<Item = &mut Self::V> + Debug;
    fn drain(&mut self) -> impl DoubleEndedIterator<Item = (Self::K, Self::V)>;
    fn into_it(self) -> impl DoubleEndedIterator<Item = (Self::K, Self::V)> + Clone + Debug;
}

macro_rules! sparse_common {
    () => {
        fn make() -> Self {
            Self::new()
        }
        fn collect(it: impl IntoIterator<Item = (K, V)>) -> Self {
            it.into_iter().collect()
        }
        fn get(&self, k: &K) -> Option<&V> {
            self.get(k)
        }
        fn get_mut(&mut self, k: &K) -> Option<&mut V> {
            self.get_mut(k)
        }
        fn contains_key(&self, k: &K) -> bool {
            self.contains_key(k)
        }
        fn len(&self) -> usize {
            self.len()
        }
        fn is_empty(&self) -> bool {
            self.is_empty()
        }
        fn insert(&mut self, k: K, v: V) -> Option<V> {
            self.insert(k, v)
        }
        fn remove(&mut self, k: &K) -> Option<V> {
            self.remove(k)
        }
        fn entry(&mut self, k: K) -> Entry<'_, K, V> {
            self.entry(k)
        }
        fn clear(&mut self) {
            self.clear()
        }
        fn iter(&self) -> impl DoubleEndedIterator<Item = (K, &V)> + Clone + Debug {
            self.iter()
        }
        fn ref_iter(&self) -> impl DoubleEndedIterator<Item = (K, &V)> + Clone + Debug {
            self.into_iter()
        }
        fn iter_mut(&mut self) -> impl DoubleEndedIterator<Item = (K, &mut V)> + Debug {
            self.iter_mut()
        }
        fn keys(&self) -> impl DoubleEndedIterator<Item = K> + Clone {
            self.keys()
        }
        fn values(&self) -> impl DoubleEndedIterator<Item = &V> + Clone + Debug {
            self.values()
        }
        fn values_mut(&mut self) -> impl DoubleEndedIterator<Item = &mut V> + Debug {
            self.values_mut()
        }
        fn drain(&mut self) -> impl DoubleEndedIterator<Item = (K, V)> {
            self.drain()
        }
        fn into_it(self) -> impl DoubleEndedIterator<Item = (K, V)> + Clone + Debug {
            self.into_iter()
        }
    };
}

impl<K: TestKey, V: Clone + Debug> Sparse for OrdinalMap<K, V> {
    type K = K;
    type V = V;
    const NAME: &'static str = "OrdinalMap";
    sparse_common!();
    fn retain(&mut self, _: impl FnMut(K, &mut V) -> bool) -> bool {
        false
    }
}

impl<K: TestKey, V: Clone + Debug, const S: usize> Sparse for OrdinalArrayMap<K, V, S> {
    type K = K;
    type V = V;
    const NAME: &'static str = "OrdinalArrayMap";
    sparse_common!();
    fn retain(&mut self, f: impl FnMut(K, &mut V) -> bool) -> bool {
        self.retain(f);
        true
    }
}

pub trait Total: Sized + Clone + Debug
where
    for<'a> Self: IndexMut<&'a Self::K> + Index<&'a Self::K, Output = Self::V>,
{
    type K: TestKey;
    type V: Clone + Debug;
    const NAME: &'static str;
    fn make(f: impl FnMut(Self::K) -> Self::V) -> Self;
    fn try_make<E>(f: impl FnMut(Self::K) -> Result<Self::V, E>) -> Result<Self, E>;
    fn make_default() -> Self
    where
        Self::V: Default;
    fn get(&self, k: &Self::K) -> &Self::V;
    fn get_mut(&mut self, k: &Self::K) -> &mut Self::V;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn insert(&mut self, k: Self::K, v: Self::V) -> Self::V;
    fn iter(
        &self,
    ) -> impl DoubleEndedIterator<Item = (Self::K, &Self::V)> + ExactSizeIterator + Clone + Debug;
    fn ref_iter(
        &self,
    ) -> impl DoubleEndedIterator<Item = (Self::K, &Self::V)> + ExactSizeIterator + Clone + Debug;
    fn iter_mut(
        &mut self,
    ) -> impl DoubleEndedIterator<Item = (Self::K, &mut Self::V)> + ExactSizeIterator + Debug;
    fn keys(&self) -> ordinal_map::OrdinalValues<Self::K>;
    fn into_keys(self) -> ordinal_map::OrdinalValues<Self::K>;
    fn values(&self) -> std::slice::Iter<'_, Self::V>;
    fn values_mut(&mut self) -> std::slice::IterMut<'_, Self::V>;
    /// The values in key order, however the map gives them.
    fn into_vals(self) -> Vec<Self::V>;
    fn into_it(
        self,
    ) -> impl DoubleEndedIterator<Item = (Self::K, Self::V)> + ExactSizeIterator + Clone + Debug;
}

macro_rules! total_common {
    () => {
        fn make(f: impl FnMut(K) -> V) -> Self {
            Self::new(f)
        }
        fn try_make<E>(f: impl FnMut(K) -> Result<V, E>) -> Result<Self, E> {
            Self::try_new(f)
        }
        fn make_default() -> Self
        where
            V: Default,
        {
            Self::default()
        }
        fn get(&self, k: &K) -> &V {
            self.get(k)
        }
        fn get_mut(&mut self, k: &K) -> &mut V {
            self.get_mut(k)
        }
        fn len(&self) -> usize {
            self.len()
        }
        fn is_empty(&self) -> bool {
            self.is_empty()
        }
        fn insert(&mut self, k: K, v: V) -> V {
            self.insert(k, v)
        }
        fn iter(
            &self,
        ) -> impl DoubleEndedIterator<Item = (K, &V)> + ExactSizeIterator + Clone + Debug {
            self.iter()
        }
        fn ref_iter(
            &self,
        ) -> impl DoubleEndedIterator<Item = (K, &V)> + ExactSizeIterator + Clone + Debug {
            self.into_iter()
        }
        fn iter_mut(
            &mut self,
        ) -> impl DoubleEndedIterator<Item = (K, &mut V)> + ExactSizeIterator + Debug {
            self.iter_mut()
        }
        fn keys(&self) -> ordinal_map::OrdinalValues<K> {
            self.keys()
        }
        fn into_keys(self) -> ordinal_map::OrdinalValues<K> {
            self.into_keys()
        }
        fn values(&self) -> std::slice::Iter<'_, V> {
            self.values()
        }
        fn values_mut(&mut self) -> std::slice::IterMut<'_, V> {
            self.values_mut()
        }
        fn into_vals(self) -> Vec<V> {
            Vec::from(self.into_values())
        }
        fn into_it(
            self,
        ) -> impl DoubleEndedIterator<Item = (K, V)> + ExactSizeIterator + Clone + Debug {
            self.into_iter()
        }
    };
}

impl<K: TestKey, V: Clone + Debug> Total for OrdinalTotalMap<K, V> {
    type K = K;
    type V = V;
    const NAME: &'static str = "OrdinalTotalMap";
    total_common!();
}

impl<K: TestKey, V: Clone + Debug, const S: usize> Total for OrdinalTotalArrayMap<K, V, S> {
    type K = K;
    type V = V;
    const NAME: &'static str = "OrdinalTotalArrayMap";
    total_common!();
}

/// Size of a key type as the library reports it, for const generics in tests.
pub const fn size<K: Ordinal>() -> usize {
    K::ORDINAL_SIZE
}
