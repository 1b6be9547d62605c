//! Drives an iterator through a random interleaving of operations against a
//! double-ended queue that holds what must still come out.
//!
//! Iterators of the library are wrapped thinly in `DynIt`; everything else is
//! compiled once.

use std::collections::VecDeque;
use std::fmt::Debug;

use crate::check;
use crate::check_eq;
use crate::mon::Case;
use crate::op;
use crate::rng::Rng;

/// Observation of one item: (key index, value).
pub type Obs = (u64, u64);
pub const NO: u64 = u64::MAX;

/// The library's own methods, one by one.
pub trait DynIt<'a> {
    fn next(&mut self) -> Option<Obs>;
    fn next_back(&mut self) -> Option<Obs>;
    fn nth(&mut self, n: usize) -> Option<Obs>;
    fn nth_back(&mut self, n: usize) -> Option<Obs>;
    fn size_hint(&self) -> (usize, Option<usize>);
    /// Stops when `f` returns true; tells whether it did.
    fn search(&mut self, how: usize, f: &mut dyn FnMut(Obs) -> bool) -> bool;
    fn rsearch(&mut self, how: usize, f: &mut dyn FnMut(Obs) -> bool) -> bool;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<Obs>;
    fn fold(self: Box<Self>, how: usize, f: &mut dyn FnMut(Obs));
    fn rfold(self: Box<Self>, how: usize, f: &mut dyn FnMut(Obs));
    /// `ExactSizeIterator::len`, where promised.
    fn len(&self) -> Option<usize>;
    /// rposition of the `k`-th item from the back, where a length is promised.
    fn rposition(&mut self, f: &mut dyn FnMut(Obs) -> bool) -> Option<usize>;
    fn clone_it(&self) -> Option<Box<dyn DynIt<'a> + 'a>>;
}

macro_rules! dynit_common {
    () => {
        fn next(&mut self) -> Option<Obs> {
            self.it.next().map(&self.obs)
        }
        fn next_back(&mut self) -> Option<Obs> {
            self.it.next_back().map(&self.obs)
        }
        fn nth(&mut self, n: usize) -> Option<Obs> {
            self.it.nth(n).map(&self.obs)
        }
        fn nth_back(&mut self, n: usize) -> Option<Obs> {
            self.it.nth_back(n).map(&self.obs)
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.it.size_hint()
        }
        fn search(&mut self, how: usize, f: &mut dyn FnMut(Obs) -> bool) -> bool {
            let obs = &self.obs;
            match how % 4 {
                0 => self.it.any(|x| f(obs(x))),
                1 => self.it.position(|x| f(obs(x))).is_some(),
                2 => self
                    .it
                    .find_map(|x| f(obs(x)).then_some(()))
                    .is_some(),
                _ => self
                    .it
                    .try_for_each(|x| if f(obs(x)) { Err(()) } else { Ok(()) })
                    .is_err(),
            }
        }
        fn rsearch(&mut self, _how: usize, f: &mut dyn FnMut(Obs) -> bool) -> bool {
            let obs = &self.obs;
            self.it
                .try_rfold((), |(), x| if f(obs(x)) { Err(()) } else { Ok(()) })
                .is_err()
        }
        fn count(self: Box<Self>) -> usize {
            self.it.count()
        }
        fn last(self: Box<Self>) -> Option<Obs> {
            self.it.last().map(&self.obs)
        }
        fn fold(self: Box<Self>, how: usize, f: &mut dyn FnMut(Obs)) {
            let obs = &self.obs;
            match how % 3 {
                0 => self.it.fold((), |(), x| f(obs(x))),
                1 => self.it.for_each(|x| f(obs(x))),
                _ => self.it.collect::<Vec<_>>().into_iter().for_each(|x| f(obs(x))),
            }
        }
        fn rfold(self: Box<Self>, how: usize, f: &mut dyn FnMut(Obs)) {
            let obs = &self.obs;
            match how % 2 {
                0 => self.it.rfold((), |(), x| f(obs(x))),
                _ => self.it.rev().for_each(|x| f(obs(x))),
            }
        }
    };
}

/// Not cloneable, no length.
struct WMut<I, F> {
    it: I,
    obs: F,
}

impl<'a, I: DoubleEndedIterator + 'a, F: Fn(I::Item) -> Obs + 'a> DynIt<'a> for WMut<I, F> {
    dynit_common!();
    fn len(&self) -> Option<usize> {
        None
    }
    fn rposition(&mut self, _: &mut dyn FnMut(Obs) -> bool) -> Option<usize> {
        None
    }
    fn clone_it(&self) -> Option<Box<dyn DynIt<'a> + 'a>> {
        None
    }
}

/// Cloneable, no length.
struct WClone<I, F> {
    it: I,
    obs: F,
}

impl<'a, I: DoubleEndedIterator + Clone + 'a, F: Fn(I::Item) -> Obs + Clone + 'a> DynIt<'a>
    for WClone<I, F>
{
    dynit_common!();
    fn len(&self) -> Option<usize> {
        None
    }
    fn rposition(&mut self, _: &mut dyn FnMut(Obs) -> bool) -> Option<usize> {
        None
    }
    fn clone_it(&self) -> Option<Box<dyn DynIt<'a> + 'a>> {
        Some(Box::new(WClone {
            it: self.it.clone(),
            obs: self.obs.clone(),
        }))
    }
}

/// Not cloneable, with a length.
struct WExact<I, F> {
    it: I,
    obs: F,
}

impl<'a, I: DoubleEndedIterator + ExactSizeIterator + 'a, F: Fn(I::Item) -> Obs + 'a> DynIt<'a>
    for WExact<I, F>
{
    dynit_common!();
    fn len(&self) -> Option<usize> {
        Some(self.it.len())
    }
    fn rposition(&mut self, f: &mut dyn FnMut(Obs) -> bool) -> Option<usize> {
        let obs = &self.obs;
        self.it.rposition(|x| f(obs(x)))
    }
    fn clone_it(&self) -> Option<Box<dyn DynIt<'a> + 'a>> {
        None
    }
}

/// Cloneable, with a length.
struct WCloneExact<I, F> {
    it: I,
    obs: F,
}

impl<
        'a,
        I: DoubleEndedIterator + ExactSizeIterator + Clone + 'a,
        F: Fn(I::Item) -> Obs + Clone + 'a,
    > DynIt<'a> for WCloneExact<I, F>
{
    dynit_common!();
    fn len(&self) -> Option<usize> {
        Some(self.it.len())
    }
    fn rposition(&mut self, f: &mut dyn FnMut(Obs) -> bool) -> Option<usize> {
        let obs = &self.obs;
        self.it.rposition(|x| f(obs(x)))
    }
    fn clone_it(&self) -> Option<Box<dyn DynIt<'a> + 'a>> {
        Some(Box::new(WCloneExact {
            it: self.it.clone(),
            obs: self.obs.clone(),
        }))
    }
}

pub type BoxIt<'a> = Box<dyn DynIt<'a> + 'a>;

pub fn wrap_mut<'a, I: DoubleEndedIterator + 'a>(
    it: I,
    obs: impl Fn(I::Item) -> Obs + 'a,
) -> BoxIt<'a> {
    Box::new(WMut { it, obs })
}

pub fn wrap_clone<'a, I: DoubleEndedIterator + Clone + 'a>(
    it: I,
    obs: impl Fn(I::Item) -> Obs + Clone + 'a,
) -> BoxIt<'a> {
    Box::new(WClone { it, obs })
}

pub fn wrap_exact<'a, I: DoubleEndedIterator + ExactSizeIterator + 'a>(
    it: I,
    obs: impl Fn(I::Item) -> Obs + 'a,
) -> BoxIt<'a> {
    Box::new(WExact { it, obs })
}

pub fn wrap_clone_exact<'a, I: DoubleEndedIterator + ExactSizeIterator + Clone + 'a>(
    it: I,
    obs: impl Fn(I::Item) -> Obs + Clone + 'a,
) -> BoxIt<'a> {
    Box::new(WCloneExact { it, obs })
}

/// The wrapped iterator as an `Iterator` that forwards to the library's methods,
/// for the standard adaptors.
struct Fwd<'a>(Option<BoxIt<'a>>);

impl Iterator for Fwd<'_> {
    type Item = Obs;
    fn next(&mut self) -> Option<Obs> {
        self.0.as_mut().unwrap().next()
    }
    fn nth(&mut self, n: usize) -> Option<Obs> {
        self.0.as_mut().unwrap().nth(n)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.as_ref().unwrap().size_hint()
    }
    fn fold<B, F: FnMut(B, Obs) -> B>(mut self, init: B, mut f: F) -> B {
        let mut acc = Some(init);
        self.0.take().unwrap().fold(0, &mut |x| {
            acc = Some(f(acc.take().unwrap(), x));
        });
        acc.unwrap()
    }
}

impl DoubleEndedIterator for Fwd<'_> {
    fn next_back(&mut self) -> Option<Obs> {
        self.0.as_mut().unwrap().next_back()
    }
    fn nth_back(&mut self, n: usize) -> Option<Obs> {
        self.0.as_mut().unwrap().nth_back(n)
    }
}

impl ExactSizeIterator for Fwd<'_> {
    fn len(&self) -> usize {
        self.0.as_ref().unwrap().len().unwrap()
    }
}

pub struct How {
    /// The size hint must be exact even without a length promise.
    pub exact_hint: bool,
}

fn check_hint(it: &dyn DynIt<'_>, q: &VecDeque<Obs>, how: &How, case: &mut Case) {
    let (lo, hi) = it.size_hint();
    let n = q.len();
    check!(
        lo <= n && hi.is_none_or(|h| n <= h),
        "size_hint {:?} does not bracket {n}",
        (lo, hi)
    );
    if how.exact_hint {
        check_eq!((lo, hi), (n, Some(n)), "size_hint of an exact iterator");
    }
    if let Some(len) = it.len() {
        check_eq!(len, n, "len()");
        check_eq!((lo, hi), (n, Some(n)), "size_hint of an ExactSizeIterator");
    }
    case.count("size_hint checks");
}

fn item(case: &mut Case, what: &str, got: Option<Obs>, exp: Option<Obs>) {
    if got != exp {
        check!(false, "{what}: got {got:?}, expected {exp:?}");
    }
    if let Some((k, v)) = got {
        case.obs(k);
        case.obs(v);
        case.count("items observed");
    }
}

/// Runs until the iterator is consumed or dropped part way.
pub fn drive(
    rng: &mut Rng,
    case: &mut Case,
    name: &str,
    it: BoxIt<'_>,
    q: VecDeque<Obs>,
    how: &How,
) {
    drive_inner(rng, case, name, it, q, how, 0)
}

fn drive_inner(
    rng: &mut Rng,
    case: &mut Case,
    name: &str,
    mut it: BoxIt<'_>,
    mut q: VecDeque<Obs>,
    how: &How,
    depth: usize,
) {
    op!("{name}: drive ({} remaining)", q.len());
    let style = rng.below(4);
    let steps = if q.len() > 200 {
        rng.range(0, 40)
    } else {
        rng.range(0, q.len() * 2 + 3)
    };
    check_hint(&*it, &q, how, case);
    for _ in 0..steps {
        let o = match style {
            0 => rng.below(2), // single steps from both ends
            1 => 0,            // front only
            2 => 1,            // back only
            _ => rng.below(18),
        };
        match o {
            0 | 12 => {
                op!("{name}.next()");
                let e = q.pop_front();
                item(case, "next()", it.next(), e);
            }
            1 | 13 => {
                op!("{name}.next_back()");
                let e = q.pop_back();
                item(case, "next_back()", it.next_back(), e);
            }
            2 | 3 => {
                let n = skip_amount(rng, q.len());
                op!("{name}.nth({n})");
                let mut e = None;
                if n >= q.len() {
                    q.clear();
                } else {
                    q.drain(..n);
                    e = q.pop_front();
                }
                item(case, "nth()", it.nth(n), e);
            }
            4 | 5 => {
                let n = skip_amount(rng, q.len());
                op!("{name}.nth_back({n})");
                let mut e = None;
                if n >= q.len() {
                    q.clear();
                } else {
                    q.truncate(q.len() - n);
                    e = q.pop_back();
                }
                item(case, "nth_back()", it.nth_back(n), e);
            }
            6 | 7 => {
                if depth < 2 {
                    if let Some(c) = it.clone_it() {
                        op!("{name}.clone()");
                        drive_inner(rng, case, name, c, q.clone(), how, depth + 1);
                        case.count("clones driven");
                    }
                }
            }
            8 | 9 | 10 => {
                // Consumes up to and including the match.
                let t = rng.below(4);
                let h = rng.below(4);
                op!("{name}: search #{h} for the {t}-th");
                let mut want = Vec::new();
                for _ in 0..=t {
                    match q.pop_front() {
                        Some(x) => want.push(x),
                        None => break,
                    }
                }
                let mut got = Vec::new();
                let found = it.search(h, &mut |x| {
                    got.push(x);
                    got.len() > t
                });
                check_eq!(got, want, "items visited by a search");
                check_eq!(found, want.len() > t, "search found its item");
            }
            11 => {
                let t = rng.below(4);
                let exact = it.len().is_some() && rng.chance(1, 2);
                op!("{name}: search from the back for the {t}-th, rposition {exact}");
                let n = q.len();
                let mut want = Vec::new();
                for _ in 0..=t {
                    match q.pop_back() {
                        Some(x) => want.push(x),
                        None => break,
                    }
                }
                let mut got = Vec::new();
                let mut f = |x| {
                    got.push(x);
                    got.len() > t
                };
                if exact {
                    let p = it.rposition(&mut f);
                    let e = if want.len() > t { Some(n - 1 - t) } else { None };
                    check_eq!(p, e, "rposition()");
                } else {
                    let found = it.rsearch(0, &mut f);
                    check_eq!(found, want.len() > t, "search found its item");
                }
                check_eq!(got, want, "items visited by a search from the back");
            }
            _ => check_hint(&*it, &q, how, case),
        }
        if rng.chance(1, 3) {
            check_hint(&*it, &q, how, case);
        }
    }
    finish(rng, case, name, it, q, how);
}

pub fn skip_amount(rng: &mut Rng, len: usize) -> usize {
    match rng.below(12) {
        0..=5 => rng.below(3),
        6 | 7 => rng.below(len + 2),
        8 => len,
        9 => len.saturating_sub(1),
        10 => usize::MAX,
        _ => usize::MAX - 1 - rng.below(3),
    }
}

fn finish(
    rng: &mut Rng,
    case: &mut Case,
    name: &str,
    mut it: BoxIt<'_>,
    mut q: VecDeque<Obs>,
    how: &How,
) {
    let t = rng.below(16);
    let n = q.len();
    op!("{name}: finish #{t} ({n} remaining)");
    match t {
        0 => check_eq!(it.count(), n, "count()"),
        1 => check_eq!(it.last(), q.pop_back(), "last()"),
        2 | 3 | 4 => {
            let mut g = Vec::new();
            it.fold(rng.below(3), &mut |x| g.push(x));
            check_eq!(g, Vec::from(q), "fold()/for_each()/collect()");
        }
        5 | 6 => {
            let mut g = Vec::new();
            it.rfold(rng.below(2), &mut |x| g.push(x));
            let e: Vec<Obs> = q.into_iter().rev().collect();
            check_eq!(g, e, "rfold()/rev()");
        }
        7 => {
            let s = rng.range(1, 4);
            let exact = it.len().is_some();
            let f = Fwd(Some(it)).step_by(s);
            if exact && rng.chance(1, 2) {
                                check_eq!(f.len(), n.div_ceil(s), "step_by().len()");
                let g: Vec<Obs> = f.rev().collect();
                let e: Vec<Obs> = q.into_iter().step_by(s).rev().collect();
                check_eq!(g, e, "step_by().rev()");
            } else {
                let g: Vec<Obs> = f.collect();
                let e: Vec<Obs> = q.into_iter().step_by(s).collect();
                check_eq!(g, e, "step_by()");
            }
        }
        8 => {
            let s = rng.below(n + 2);
            let exact = it.len().is_some();
            let f = Fwd(Some(it)).skip(s);
            if exact && rng.chance(1, 2) {
                check_eq!(f.len(), n.saturating_sub(s), "skip().len()");
                let g: Vec<Obs> = f.rev().collect();
                let e: Vec<Obs> = q.into_iter().skip(s).rev().collect();
                check_eq!(g, e, "skip().rev()");
            } else {
                let g: Vec<Obs> = f.collect();
                let e: Vec<Obs> = q.into_iter().skip(s).collect();
                check_eq!(g, e, "skip()");
            }
        }
        9 => {
            let s = rng.below(4);
            let g: Vec<Obs> = Fwd(Some(it)).rev().skip(s).collect();
            let e: Vec<Obs> = q.into_iter().rev().skip(s).collect();
            check_eq!(g, e, "rev().skip()");
        }
        10 => {
            if it.len().is_some() {
                let g: Vec<(usize, Obs)> = Fwd(Some(it)).enumerate().rev().collect();
                let e: Vec<(usize, Obs)> = q.into_iter().enumerate().rev().collect();
                check_eq!(g, e, "enumerate().rev()");
            } else {
                let g: Vec<(usize, Obs)> = Fwd(Some(it)).enumerate().collect();
                let e: Vec<(usize, Obs)> = q.into_iter().enumerate().collect();
                check_eq!(g, e, "enumerate()");
            }
        }
        11 => {
            let g = Fwd(Some(it)).max();
            check_eq!(g, q.into_iter().max(), "max()");
        }
        12 | 13 | 14 => {
            // Exhaust step by step, alternating, then ask again.
            let front = rng.below(3);
            let mut i = 0;
            while !q.is_empty() {
                i += 1;
                let f = match front {
                    0 => true,
                    1 => false,
                    _ => rng.chance(1, 2),
                };
                if f {
                    let e = q.pop_front();
                    item(case, "next()", it.next(), e);
                } else {
                    let e = q.pop_back();
                    item(case, "next_back()", it.next_back(), e);
                }
                if q.len() < 3 || i % 16 == 0 {
                    check_hint(&*it, &q, how, case);
                }
            }
            for _ in 0..4 {
                let g = if rng.chance(1, 2) {
                    it.next()
                } else {
                    it.next_back()
                };
                check_eq!(g, None, "exhausted iterator");
                check_hint(&*it, &q, how, case);
            }
            let k = rng.below(3);
            let g = if rng.chance(1, 2) {
                it.nth(k)
            } else {
                it.nth_back(k)
            };
            check_eq!(g, None, "nth of an exhausted iterator");
            check_eq!(it.count(), 0, "count of an exhausted iterator");
            case.count("exhausted");
        }
        _ => drop(it),
    }
    case.count("iterators driven");
}

/// Text of a list of observations as `debug_list` would give it.
pub fn list_text(items: &[String], alt: bool) -> String {
    struct Raw<'x>(&'x str);
    impl Debug for Raw<'_> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(self.0)
        }
    }
    let v: Vec<Raw> = items.iter().map(|s| Raw(s)).collect();
    if alt {
        format!("{v:#?}")
    } else {
        format!("{v:?}")
    }
}
