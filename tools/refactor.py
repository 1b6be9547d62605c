"""Development aid: rewrites of the repository that keep its behaviour. All checks must stay quiet on them.

refactor.py DIR applies all of them to the copy of the repository in DIR."""
import sys

M = "ordinal-map/src/map/"
A = "ordinal-map/src/"
O = "ordinal-map/src/ordinal/impls/"
S = "ordinal-map/src/set/"
D = "ordinal-map-derive/src/ordinal.rs"
EDITS = [
    (M + "map.rs", "        self.get(key).is_some()", "        matches!(self.map.get(key.ordinal()), Some(Some(_)))"),
    (M + "map.rs", "        self.iter().count()", "        self.map.iter().filter(|v| v.is_some()).count()"),
    (M + "map.rs", "        self.iter().next().is_none()", "        self.map.iter().all(Option::is_none)"),
    (M + "map.rs", """            let mut map = Vec::with_capacity(K::ORDINAL_SIZE);
            for _ in 0..K::ORDINAL_SIZE {
                map.push(None);
            }
            self.map = map.into_boxed_slice();
""", """            self.map = (0..K::ORDINAL_SIZE).map(|_| None).collect();
"""),
    (M + "map.rs", "        self.map[key.ordinal()].replace(value)", """        let ordinal = key.ordinal();
        std::mem::replace(&mut self.map[ordinal], Some(value))"""),
    (M + "map.rs", """        let mut map = OrdinalMap::new();
        for (k, v) in iter {
            map.insert(k, v);
        }
        map""", """        let mut map = OrdinalMap::new();
        iter.into_iter().for_each(|(k, v)| {
            let _previous = map.insert(k, v);
        });
        map"""),
    (M + "map.rs", """            map: self.map.clone(),
            _phantom: PhantomData,""", """            map: self.map.iter().cloned().collect(),
            _phantom: PhantomData,"""),
    (M + "map.rs", "        f.debug_map().entries(self.iter()).finish()", """        let mut text = f.debug_map();
        for (key, value) in self.iter() {
            text.entry(&key, value);
        }
        text.finish()"""),
    (M + "array_map.rs", "        self.iter().count()", "        self.map.values().filter(|v| v.is_some()).count()"),
    (M + "array_map.rs", "        self.iter().next().is_none()", "        self.len() == 0"),
    (M + "array_map.rs", """            if let Some(value) = value_opt {
                if !f(key, value) {
                    *value_opt = None;
                }
            }
""", """            let keep = match value_opt {
                Some(value) => f(key, value),
                None => continue,
            };
            if !keep {
                drop(value_opt.take());
            }
"""),
    (M + "array_map.rs", "        self.map.get_mut(&key).replace(value)", "        std::mem::replace(&mut self.map[&key], Some(value))"),
    (M + "entry.rs", """        match self {
            Entry::Occupied(entry) => entry.entry.as_mut().unwrap(),
            Entry::Vacant(entry) => entry.entry.insert(value),
        }""", """        let slot = match self {
            Entry::Occupied(entry) => entry.entry,
            Entry::Vacant(entry) => entry.entry,
        };
        slot.get_or_insert(value)"""),
    (M + "enumerate.rs", """        let k = K::from_ordinal(self.next + self.iter.len()).unwrap();
        Some((k, v))""", """        let ordinal = self.iter.len() + self.next;
        K::from_ordinal(ordinal).map(|k| (k, v)).or_else(|| unreachable!())"""),
    (M + "iter.rs", """    fn drop(&mut self) {
        for _ in self {}
    }""", """    fn drop(&mut self) {
        while let Some(entry) = self.next() {
            drop(entry);
        }
    }"""),
    (M + "iter.rs", """        loop {
            let next = self.iter.next()?;
            if let (k, Some(v)) = next {
                return Some((k, v));
            }
        }
    }

    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, Some(self.iter.len()))
    }
}

impl<'a, K: Ordinal, V> DoubleEndedIterator for Iter<'a, K, V> {""", """        self.iter.by_ref().find_map(present)
    }

    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (_, upper) = self.iter.size_hint();
        (0, upper)
    }
}

#[inline]
fn present<K, V>((key, value): (K, &Option<V>)) -> Option<(K, &V)> {
    value.as_ref().map(|value| (key, value))
}

impl<'a, K: Ordinal, V> DoubleEndedIterator for Iter<'a, K, V> {"""),
    (M + "total/map.rs", """        let mut map = Vec::with_capacity(K::ORDINAL_SIZE);
        for v in K::all_values() {
            map.push(init(v)?);
        }
        Ok(OrdinalTotalMap {
            map: map.into_boxed_slice(),
            _phantom: PhantomData,
        })""", """        let mut values = Vec::with_capacity(K::ORDINAL_SIZE);
        let mut keys = K::all_values();
        while let Some(key) = keys.next() {
            let value = init(key)?;
            values.push(value);
        }
        let map = values.into_boxed_slice();
        Ok(OrdinalTotalMap {
            map,
            _phantom: PhantomData,
        })"""),
    (M + "total/map.rs", "        mem::replace(&mut self.map[key.ordinal()], value)", "        mem::replace(self.get_mut(&key), value)"),
    (M + "total/array_map.rs", "        mem::replace(&mut self.map[key.ordinal()], value)", "        mem::replace(&mut self[&key], value)"),
    (M + "total/array_map.rs", "            map: array_from_iter(self.into_iter().map(|(k, v)| f(k, v))),", """            map: {
                let mut builder = ArrayBuilder::new();
                for (k, v) in self {
                    builder.push(f(k, v));
                }
                builder.finish()
            },"""),
    (M + "total/array_map.rs", "        OrdinalTotalArrayMap::new(|k| self.get(&k))", "        OrdinalTotalArrayMap::from_array(array_from_iter(self.map.iter()))"),
    (M + "total/iter.rs", """    #[inline]
    fn next_back(&mut self) -> Option<Self::Item> {
        self.iter.next_back()
    }
}

impl<'a, K, V> Clone for Iter<'a, K, V> {""", """    #[inline]
    fn next_back(&mut self) -> Option<Self::Item> {
        self.iter.next_back()
    }

    #[inline]
    fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
        self.iter.iter.nth_back(n).map(|v| (K::from_ordinal(self.iter.next + self.iter.iter.len()).unwrap(), v))
    }
}

impl<'a, K, V> Clone for Iter<'a, K, V> {"""),
    (A + "array_as_mut.rs", """    let mut array: &mut [T] = array;

    let mut result = ArrayBuilder::new();
    while let Some((first, rest)) = array.split_first_mut() {
        result.push(first);
        array = rest;
    }
    result.finish()""", """    let mut result = ArrayBuilder::new();
    for value in array.iter_mut() {
        result.push(value);
    }
    result.finish()"""),
    (A + "array_builder.rs", """        for i in 0..self.filled {
            unsafe {
                self.array[i].assume_init_drop();
            }
        }""", """        let filled = ptr::slice_from_raw_parts_mut(self.array.as_mut_ptr().cast::<T>(), self.filled);
        unsafe { ptr::drop_in_place(filled) }"""),
    (A + "array_builder.rs", """        unsafe {
            self.array
                .as_mut_ptr()
                .cast::<T>()
                .add(self.filled)
                .write(value);
        }
""", """        self.array[self.filled].write(value);
"""),
    (A + "array_from_iter.rs", """    for item in iter {
        builder.push(item);
    }
""", """    iter.into_iter().for_each(|item| builder.push(item));
"""),
    (A + "values.rs", """    #[inline]
    fn count(self) -> usize""", """    #[inline]
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        self.range.nth(n).map(|ordinal| T::from_ordinal(ordinal).unwrap())
    }

    #[inline]
    fn count(self) -> usize"""),
    (A + "values.rs", """        let next = self.range.next_back()?;
        Some(T::from_ordinal(next).unwrap())""", """        if self.range.is_empty() {
            return None;
        }
        self.range.end -= 1;
        Some(T::from_ordinal(self.range.end).unwrap())"""),
    (A + "atomic.rs", """        match res {
            Ok(v) => Ok(T::from_ordinal(v).unwrap()),
            Err(v) => Err(T::from_ordinal(v).unwrap()),
        }""", """        let value = |ordinal| T::from_ordinal(ordinal).unwrap();
        res.map(value).map_err(value)"""),
    (A + "atomic.rs", """        let old_ord = old.ordinal();
        let new_ord = new.ordinal();
""", """        let new_ord = new.ordinal();
        let old_ord = old.ordinal();
"""),
    (S + "set64.rs", """        let r = !self.contains(&ordinal);
        self.set |= 1 << ordinal.ordinal();
        r""", """        let bit = 1 << ordinal.ordinal();
        let before = self.set;
        self.set = before | bit;
        before != self.set"""),
    (S + "set64.rs", """        let ordinal = self.set.trailing_zeros();
        if ordinal == u64::BITS {
            None
        } else {
            self.set &= !(1 << ordinal);
            Some(T::from_ordinal(ordinal as usize).unwrap())
        }""", """        if self.set == 0 {
            return None;
        }
        let ordinal = self.set.trailing_zeros() as usize;
        self.set &= self.set - 1;
        Some(T::from_ordinal(ordinal).unwrap())"""),
    (S + "set64.rs", """        for ordinal in iter {
            set.set |= 1 << ordinal.ordinal();
        }
        set""", """        set.extend_with(iter);
        set"""),
    (S + "set64.rs", """    /// Iterate over the elements of the set.""", """    fn extend_with(&mut self, iter: impl IntoIterator<Item = T>) {
        for value in iter {
            self.insert(value);
        }
    }

    /// Iterate over the elements of the set."""),
    (S + "set_mut.rs", """        let prev = self.as_ref().contains(&value);
        self.words[value.ordinal() / u64::BITS as usize] |=
            1 << (value.ordinal() % u64::BITS as usize);
        !prev""", """        let ordinal = value.ordinal();
        let bit = 1u64 << (ordinal % u64::BITS as usize);
        let word = &mut self.words[ordinal / u64::BITS as usize];
        let inserted = *word & bit == 0;
        *word |= bit;
        inserted"""),
    (S + "set_mut.rs", """    #[inline]
    fn as_ref(&self) -> OrdinalSetRef<'_, T> {
        OrdinalSetRef::new(self.words)
    }

""", ""),
    (S + "set_mut.rs", "use crate::set::set_ref::OrdinalSetRef;\n", ""),
    (S + "iter.rs", """        loop {
            let next = self.iter.next_back()?;
            if self.set.contains(&next) {
                return Some(next);
            }
        }""", """        let set = &self.set;
        self.iter.rfind(|value| set.contains(value))"""),
    (S + "set.rs", """        for ordinal in iter {
            set.insert(ordinal);
        }
        set""", """        let mut iter = iter.into_iter();
        while let Some(value) = iter.next() {
            set.insert(value);
        }
        set"""),
    (O + "array.rs", """        for v in self {
            r = r.checked_mul(T::ORDINAL_SIZE).unwrap();
            r += v.ordinal();
        }
        r""", """        let mut weight = 1usize;
        for v in self.iter().rev() {
            r += v.ordinal() * weight;
            weight = weight.saturating_mul(T::ORDINAL_SIZE);
        }
        r"""),
    (O + "array.rs", """            let Some(i) = n.checked_rem(T::ORDINAL_SIZE) else {
                return None;
            };
            array.push""", """            if T::ORDINAL_SIZE == 0 {
                return None;
            }
            let i = n % T::ORDINAL_SIZE;
            array.push"""),
    (O + "std.rs", """        if ordinal == 0 {
            Some(None)
        } else {
            A::from_ordinal(ordinal - 1).map(Some)
        }""", """        match ordinal.checked_sub(1) {
            None => Some(None),
            Some(ordinal) => Some(Some(A::from_ordinal(ordinal)?)),
        }"""),
    (O + "std.rs", """        if ordinal < A::ORDINAL_SIZE {
            Some(Ok(A::from_ordinal(ordinal).unwrap()))
        } else {
            B::from_ordinal(ordinal - A::ORDINAL_SIZE).map(Err)
        }""", """        match ordinal.checked_sub(A::ORDINAL_SIZE) {
            None => A::from_ordinal(ordinal).map(Ok),
            Some(ordinal) => B::from_ordinal(ordinal).map(Err),
        }"""),
    (O + "primitive.rs", """        match ordinal {
            0 => Some(false),
            1 => Some(true),
            _ => None,
        }""", """        if ordinal < 2 {
            Some(ordinal == 1)
        } else {
            None
        }"""),
    (D, """    stmts.push(syn::parse_quote_spanned! { span =>
        if #rem != 0 {
            return std::option::Option::None
        }
    });""", """    stmts.push(syn::parse_quote_spanned! { span =>
        match #rem {
            0 => {}
            _ => return std::option::Option::None,
        }
    });"""),
    (D, """                if #ordinal_var < #size_of_first_variants_including {
                    return #struct_from_ordinal;
                }""", """                if !(#ordinal_var >= #size_of_first_variants_including) {
                    return #struct_from_ordinal;
                }"""),
    (D, """        .map(|(i, f)| syn::Ident::new(&format!("_field_{}", i), f.span()))""", """        .map(|(i, f)| syn::Ident::new(&format!("_value_of_field_{}", i), f.span()))"""),
]


def main():
    root = sys.argv[1]
    for path, old, new in EDITS:
        text = open(f"{root}/{path}").read()
        assert text.count(old) >= 1, (path, old)
        open(f"{root}/{path}", "w").write(text.replace(old, new, 1))


main()
