//! Object-safe faces of the maps, in terms of key indices and numbers, so that the
//! workloads are compiled once.

use std::cell::RefCell;
use std::rc::Rc;

use ordinal_map::map::Entry;

use crate::iterdrive::wrap_clone;
use crate::iterdrive::wrap_clone_exact;
use crate::iterdrive::wrap_exact;
use crate::iterdrive::wrap_mut;
use crate::iterdrive::BoxIt;
use crate::iterdrive::Obs;
use crate::iterdrive::NO;
use crate::keys::TestKey;
use crate::maps::Sparse;
use crate::maps::Total;
use crate::vals::TestVal;

pub enum EntryDo {
    Drop,
    Forget,
    Look,
    OrInsert(u64),
    /// `or_insert`, then write through the reference.
    OrInsertWrite(u64, u64),
    /// `get_mut` when occupied, `insert` when vacant.
    Write(u64),
}

/// What was seen through an entry handle.
#[derive(Debug, Default, PartialEq)]
pub struct EntrySaw {
    pub occupied: bool,
    pub key: usize,
    pub handle_key: Option<usize>,
    pub before: Option<u64>,
    pub after: Option<u64>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum ItKind {
    Iter,
    Ref,
    Keys,
    Values,
    IterMut,
    ValuesMut,
    Drain,
    Into,
}

pub type Sink = Rc<RefCell<Vec<Obs>>>;

pub trait DynSparse {
    fn label(&self) -> &'static str;
    fn n(&self) -> usize;
    fn norm(&self, x: u64) -> u64;
    fn key_dbg(&self, i: usize) -> String;
    fn val_dbg(&self, x: u64) -> String;
    fn fresh(&self, default: bool) -> Box<dyn DynSparse>;
    fn collect(&self, pairs: &[(usize, u64)]) -> Box<dyn DynSparse>;
    fn get(&self, i: usize) -> Option<u64>;
    fn get_mut(&mut self, i: usize, write: Option<u64>) -> Option<u64>;
    fn contains_key(&self, i: usize) -> bool;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn insert(&mut self, i: usize, x: u64) -> Option<u64>;
    fn remove(&mut self, i: usize) -> Option<u64>;
    fn entry(&mut self, i: usize, how: EntryDo) -> EntrySaw;
    fn clear(&mut self);
    /// The callback gets index and value and returns (keep, new value).
    fn retain(&mut self, f: &mut dyn FnMut(usize, u64) -> (bool, u64)) -> bool;
    fn boxed_clone(&self) -> Box<dyn DynSparse>;
    fn entries(&self) -> Vec<(usize, u64)>;
    fn it(&self, kind: ItKind) -> BoxIt<'_>;
    /// Mutable iterators apply `write` to each value they visit, noted in the sink.
    fn it_mut(&mut self, kind: ItKind, write: fn(u64) -> u64, sink: Sink) -> BoxIt<'_>;
    fn into_it(self: Box<Self>) -> BoxIt<'static>;
    fn debug(&self, alt: bool) -> String;
    /// Debug text of an iterator after some steps from both ends.
    fn it_debug(&mut self, kind: ItKind, front: usize, back: usize, alt: bool) -> Option<String>;
}

pub struct H<M>(pub M);

fn text(x: &impl std::fmt::Debug, alt: bool) -> String {
    if alt {
        format!("{x:#?}")
    } else {
        format!("{x:?}")
    }
}

fn steps<I: DoubleEndedIterator>(mut it: I, front: usize, back: usize) -> I {
    for _ in 0..front {
        it.next();
    }
    for _ in 0..back {
        it.next_back();
    }
    it
}

impl<M: Sparse + 'static> DynSparse for H<M>
where
    M::V: TestVal,
    M::K: 'static,
{
    fn label(&self) -> &'static str {
        M::NAME
    }
    fn n(&self) -> usize {
        M::K::N
    }
    fn norm(&self, x: u64) -> u64 {
        M::V::norm(x)
    }
    fn key_dbg(&self, i: usize) -> String {
        M::K::dbg(i)
    }
    fn val_dbg(&self, x: u64) -> String {
        M::V::dbg(x)
    }
    fn fresh(&self, default: bool) -> Box<dyn DynSparse> {
        Box::new(H(if default { M::default() } else { M::make() }))
    }
    fn collect(&self, pairs: &[(usize, u64)]) -> Box<dyn DynSparse> {
        Box::new(H(M::collect(
            pairs.iter().map(|(i, x)| (M::K::at(*i), M::V::mk(*x))),
        )))
    }
    fn get(&self, i: usize) -> Option<u64> {
        let k = M::K::at(i);
        let r = self.0.get(&k).map(|v| v.rd());
        crate::check_eq!(k.idx(), i, "key after a lookup");
        r
    }
    fn get_mut(&mut self, i: usize, write: Option<u64>) -> Option<u64> {
        let v = self.0.get_mut(&M::K::at(i))?;
        let r = v.rd();
        if let Some(x) = write {
            v.wr(x);
        }
        Some(r)
    }
    fn contains_key(&self, i: usize) -> bool {
        self.0.contains_key(&M::K::at(i))
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    fn insert(&mut self, i: usize, x: u64) -> Option<u64> {
        self.0.insert(M::K::at(i), M::V::mk(x)).map(|v| v.rd())
    }
    fn remove(&mut self, i: usize) -> Option<u64> {
        self.0.remove(&M::K::at(i)).map(|v| v.rd())
    }
    fn entry(&mut self, i: usize, how: EntryDo) -> EntrySaw {
        let mut e = self.0.entry(M::K::at(i));
        let mut saw = EntrySaw {
            occupied: matches!(e, Entry::Occupied(_)),
            key: e.key().idx(),
            ..EntrySaw::default()
        };
        match how {
            EntryDo::OrInsert(x) => saw.after = Some(e.or_insert(M::V::mk(x)).rd()),
            EntryDo::OrInsertWrite(x, y) => {
                let r = e.or_insert(M::V::mk(x));
                saw.before = Some(r.rd());
                r.wr(y);
                saw.after = Some(r.rd());
            }
            EntryDo::Drop => drop(e),
            EntryDo::Forget => std::mem::forget(e),
            EntryDo::Look | EntryDo::Write(_) => {
                match &mut e {
                    Entry::Occupied(o) => {
                        saw.handle_key = Some(o.key().idx());
                        saw.before = Some(o.get().rd());
                        if let EntryDo::Write(x) = how {
                            o.get_mut().wr(x);
                            saw.after = Some(o.get().rd());
                        }
                    }
                    Entry::Vacant(v) => saw.handle_key = Some(v.key().idx()),
                }
                if let (Entry::Vacant(v), EntryDo::Write(x)) = (e, how) {
                    v.insert(M::V::mk(x));
                }
            }
        }
        saw
    }
    fn clear(&mut self) {
        self.0.clear()
    }
    fn retain(&mut self, f: &mut dyn FnMut(usize, u64) -> (bool, u64)) -> bool {
        self.0.retain(|k, v| {
            let old = v.rd();
            let (keep, new) = f(k.idx(), old);
            if new != old {
                v.wr(new);
            }
            keep
        })
    }
    fn boxed_clone(&self) -> Box<dyn DynSparse> {
        Box::new(H(self.0.clone()))
    }
    fn entries(&self) -> Vec<(usize, u64)> {
        let mut r = Vec::new();
        for (k, v) in self.0.iter() {
            r.push((k.idx(), v.rd()));
        }
        r
    }
    fn it(&self, kind: ItKind) -> BoxIt<'_> {
        match kind {
            ItKind::Iter => wrap_clone(self.0.iter(), |(k, v)| (k.idx() as u64, v.rd())),
            ItKind::Ref => wrap_clone(self.0.ref_iter(), |(k, v)| (k.idx() as u64, v.rd())),
            ItKind::Keys => wrap_clone(self.0.keys(), |k| (k.idx() as u64, NO)),
            ItKind::Values => wrap_clone(self.0.values(), |v| (NO, v.rd())),
            _ => unreachable!(),
        }
    }
    fn it_mut(&mut self, kind: ItKind, write: fn(u64) -> u64, sink: Sink) -> BoxIt<'_> {
        let touch = move |k: u64, v: &mut M::V| {
            let o = (k, v.rd());
            v.wr(write(o.1));
            sink.borrow_mut().push(o);
            o
        };
        match kind {
            ItKind::IterMut => wrap_mut(self.0.iter_mut(), move |(k, v)| touch(k.idx() as u64, v)),
            ItKind::ValuesMut => wrap_mut(self.0.values_mut(), move |v| touch(NO, v)),
            ItKind::Drain => wrap_mut(self.0.drain(), |(k, v)| (k.idx() as u64, v.rd())),
            _ => unreachable!(),
        }
    }
    fn into_it(self: Box<Self>) -> BoxIt<'static> {
        wrap_clone(self.0.into_it(), |(k, v)| (k.idx() as u64, v.rd()))
    }
    fn debug(&self, alt: bool) -> String {
        text(&self.0, alt)
    }
    fn it_debug(&mut self, kind: ItKind, front: usize, back: usize, alt: bool) -> Option<String> {
        Some(match kind {
            ItKind::Iter => text(&steps(self.0.iter(), front, back), alt),
            ItKind::Ref => text(&steps(self.0.ref_iter(), front, back), alt),
            ItKind::Values => text(&steps(self.0.values(), front, back), alt),
            ItKind::IterMut => text(&steps(self.0.iter_mut(), front, back), alt),
            ItKind::ValuesMut => text(&steps(self.0.values_mut(), front, back), alt),
            ItKind::Into => text(&steps(self.0.clone().into_it(), front, back), alt),
            ItKind::Keys | ItKind::Drain => return None,
        })
    }
}

pub trait DynTotal {
    fn label(&self) -> &'static str;
    fn n(&self) -> usize;
    fn norm(&self, x: u64) -> u64;
    fn key_dbg(&self, i: usize) -> String;
    fn val_dbg(&self, x: u64) -> String;
    fn fresh(&self, f: &mut dyn FnMut(usize) -> u64) -> Box<dyn DynTotal>;
    fn try_fresh(
        &self,
        f: &mut dyn FnMut(usize) -> Result<u64, String>,
    ) -> Result<Box<dyn DynTotal>, String>;
    fn get(&self, i: usize) -> u64;
    fn get_mut(&mut self, i: usize, write: Option<u64>) -> u64;
    fn index(&self, i: usize) -> u64;
    fn index_mut(&mut self, i: usize, write: u64) -> u64;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn insert(&mut self, i: usize, x: u64) -> u64;
    fn boxed_clone(&self) -> Box<dyn DynTotal>;
    fn entries(&self) -> Vec<(usize, u64)>;
    fn keys(&self) -> Vec<usize>;
    fn into_keys(self: Box<Self>) -> Vec<usize>;
    fn into_vals(self: Box<Self>) -> Vec<u64>;
    fn it(&self, kind: ItKind) -> BoxIt<'_>;
    fn it_mut(&mut self, kind: ItKind, write: fn(u64) -> u64, sink: Sink) -> BoxIt<'_>;
    fn into_it(self: Box<Self>) -> BoxIt<'static>;
    fn debug(&self, alt: bool) -> String;
    fn it_debug(&mut self, kind: ItKind, front: usize, back: usize, alt: bool) -> Option<String>;
}

impl<M: Total + 'static> DynTotal for H<M>
where
    M::V: TestVal + 'static,
    M::K: 'static,
{
    fn label(&self) -> &'static str {
        M::NAME
    }
    fn n(&self) -> usize {
        M::K::N
    }
    fn norm(&self, x: u64) -> u64 {
        M::V::norm(x)
    }
    fn key_dbg(&self, i: usize) -> String {
        M::K::dbg(i)
    }
    fn val_dbg(&self, x: u64) -> String {
        M::V::dbg(x)
    }
    fn fresh(&self, f: &mut dyn FnMut(usize) -> u64) -> Box<dyn DynTotal> {
        Box::new(H(M::make(|k| M::V::mk(f(k.idx())))))
    }
    fn try_fresh(
        &self,
        f: &mut dyn FnMut(usize) -> Result<u64, String>,
    ) -> Result<Box<dyn DynTotal>, String> {
        let m: M = M::try_make(|k| f(k.idx()).map(M::V::mk))?;
        Ok(Box::new(H(m)))
    }
    fn get(&self, i: usize) -> u64 {
        self.0.get(&M::K::at(i)).rd()
    }
    fn get_mut(&mut self, i: usize, write: Option<u64>) -> u64 {
        let v = self.0.get_mut(&M::K::at(i));
        let r = v.rd();
        if let Some(x) = write {
            v.wr(x);
        }
        r
    }
    fn index(&self, i: usize) -> u64 {
        self.0[&M::K::at(i)].rd()
    }
    fn index_mut(&mut self, i: usize, write: u64) -> u64 {
        let v = &mut self.0[&M::K::at(i)];
        let r = v.rd();
        v.wr(write);
        r
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    fn insert(&mut self, i: usize, x: u64) -> u64 {
        self.0.insert(M::K::at(i), M::V::mk(x)).rd()
    }
    fn boxed_clone(&self) -> Box<dyn DynTotal> {
        Box::new(H(self.0.clone()))
    }
    fn entries(&self) -> Vec<(usize, u64)> {
        let mut r = Vec::new();
        for (k, v) in self.0.iter() {
            r.push((k.idx(), v.rd()));
        }
        r
    }
    fn keys(&self) -> Vec<usize> {
        let mut r = Vec::new();
        for k in self.0.keys() {
            r.push(k.idx());
        }
        r
    }
    fn into_keys(self: Box<Self>) -> Vec<usize> {
        let mut r = Vec::new();
        for k in self.0.into_keys() {
            r.push(k.idx());
        }
        r
    }
    fn into_vals(self: Box<Self>) -> Vec<u64> {
        let v = self.0.into_vals();
        v.iter().map(|v| v.rd()).collect()
    }
    fn it(&self, kind: ItKind) -> BoxIt<'_> {
        match kind {
            ItKind::Iter => wrap_clone_exact(self.0.iter(), |(k, v)| (k.idx() as u64, v.rd())),
            ItKind::Ref => wrap_clone_exact(self.0.ref_iter(), |(k, v)| (k.idx() as u64, v.rd())),
            ItKind::Keys => wrap_clone_exact(self.0.keys(), |k| (k.idx() as u64, NO)),
            ItKind::Values => wrap_clone_exact(self.0.values(), |v| (NO, v.rd())),
            _ => unreachable!(),
        }
    }
    fn it_mut(&mut self, kind: ItKind, write: fn(u64) -> u64, sink: Sink) -> BoxIt<'_> {
        let touch = move |k: u64, v: &mut M::V| {
            let o = (k, v.rd());
            v.wr(write(o.1));
            sink.borrow_mut().push(o);
            o
        };
        match kind {
            ItKind::IterMut => {
                wrap_exact(self.0.iter_mut(), move |(k, v)| touch(k.idx() as u64, v))
            }
            ItKind::ValuesMut => wrap_exact(self.0.values_mut(), move |v| touch(NO, v)),
            _ => unreachable!(),
        }
    }
    fn into_it(self: Box<Self>) -> BoxIt<'static> {
        wrap_clone_exact(self.0.into_it(), |(k, v)| (k.idx() as u64, v.rd()))
    }
    fn debug(&self, alt: bool) -> String {
        text(&self.0, alt)
    }
    fn it_debug(&mut self, kind: ItKind, front: usize, back: usize, alt: bool) -> Option<String> {
        Some(match kind {
            ItKind::Iter => text(&steps(self.0.iter(), front, back), alt),
            ItKind::Ref => text(&steps(self.0.ref_iter(), front, back), alt),
            ItKind::IterMut => text(&steps(self.0.iter_mut(), front, back), alt),
            ItKind::Into => text(&steps(self.0.clone().into_it(), front, back), alt),
            // Slice iterators print as the standard library likes.
            _ => return None,
        })
    }
}
