//! Sets against a mathematical set.

use std::collections::BTreeSet;
use std::collections::VecDeque;

use ordinal_map::set::OrdinalArraySet;
use ordinal_map::set::OrdinalSet;
use ordinal_map::set::OrdinalSet64;

use crate::check_eq;
use crate::iterdrive::drive;
use crate::iterdrive::wrap_clone;
use crate::iterdrive::wrap_clone_exact;
use crate::iterdrive::BoxIt;
use crate::iterdrive::How;
use crate::iterdrive::Obs;
use crate::iterdrive::NO;
use crate::keys::TestKey;
use crate::mon::Case;
use crate::mon::Ctx;
use crate::op;
use crate::rng::Rng;

pub trait DynSet {
    fn n(&self) -> usize;
    fn key_dbg(&self, i: usize) -> String;
    fn fresh(&self, default: bool) -> Set;
    fn collect(&self, xs: &[usize]) -> Set;
    fn contains(&self, i: usize) -> bool;
    fn insert(&mut self, i: usize) -> bool;
    fn boxed_clone(&self) -> Set;
    fn debug(&self, alt: bool) -> String;
    /// None if the set has no iterator.
    fn it(&self) -> Option<BoxIt<'_>>;
    fn it_debug(&self, front: usize, back: usize, alt: bool) -> Option<String>;
    /// The set of everything, where there is such a constructor.
    fn all(&self) -> Option<Set>;
    /// Equality with another set of the same type, where defined.
    fn equals(&self, other: &dyn DynSet) -> Option<bool>;
    /// The words behind a comparison of `self` with what `other` was made from.
    fn as_any(&self) -> &dyn std::any::Any;
}

pub type Set = Box<dyn DynSet>;

pub struct Proto {
    pub label: &'static str,
    pub make: fn() -> Set,
}

fn text(x: &impl std::fmt::Debug, alt: bool) -> String {
    if alt {
        format!("{x:#?}")
    } else {
        format!("{x:?}")
    }
}

fn steps<I: DoubleEndedIterator>(mut it: I, front: usize, back: usize) -> I {
    for _ in 0..front {
        it.next();
    }
    for _ in 0..back {
        it.next_back();
    }
    it
}

macro_rules! set_common {
    ($k:ident) => {
        fn n(&self) -> usize {
            $k::N
        }
        fn key_dbg(&self, i: usize) -> String {
            $k::dbg(i)
        }
        fn fresh(&self, default: bool) -> Set {
            Box::new(if default {
                Self::default()
            } else {
                Self::new()
            })
        }
        fn collect(&self, xs: &[usize]) -> Set {
            let s: Self = xs.iter().map(|i| $k::at(*i)).collect();
            Box::new(s)
        }
        fn contains(&self, i: usize) -> bool {
            let k = $k::at(i);
            let r = self.contains(&k);
            check_eq!(k.idx(), i, "element after a lookup");
            r
        }
        fn insert(&mut self, i: usize) -> bool {
            self.insert($k::at(i))
        }
        fn boxed_clone(&self) -> Set {
            Box::new(self.clone())
        }
        fn debug(&self, alt: bool) -> String {
            text(self, alt)
        }
        fn as_any(&self) -> &dyn std::any::Any {
            self
        }
    };
}

impl<K: TestKey + 'static> DynSet for OrdinalSet<K> {
    set_common!(K);
    fn it(&self) -> Option<BoxIt<'_>> {
        Some(wrap_clone(self.iter(), |k: K| (k.idx() as u64, NO)))
    }
    fn it_debug(&self, front: usize, back: usize, alt: bool) -> Option<String> {
        Some(text(&steps(self.iter(), front, back), alt))
    }
    fn all(&self) -> Option<Set> {
        None
    }
    fn equals(&self, _: &dyn DynSet) -> Option<bool> {
        None
    }
}

impl<K: TestKey + 'static, const S: usize> DynSet for OrdinalArraySet<K, S> {
    set_common!(K);
    fn it(&self) -> Option<BoxIt<'_>> {
        None
    }
    fn it_debug(&self, _: usize, _: usize, _: bool) -> Option<String> {
        None
    }
    fn all(&self) -> Option<Set> {
        None
    }
    fn equals(&self, _: &dyn DynSet) -> Option<bool> {
        None
    }
}

impl<K: TestKey + Eq + 'static> DynSet for OrdinalSet64<K> {
    set_common!(K);
    fn it(&self) -> Option<BoxIt<'_>> {
        Some(wrap_clone_exact(self.iter(), |k: K| (k.idx() as u64, NO)))
    }
    fn it_debug(&self, front: usize, back: usize, alt: bool) -> Option<String> {
        Some(text(&steps(self.iter(), front, back), alt))
    }
    fn all(&self) -> Option<Set> {
        Some(Box::new(Self::all()))
    }
    fn equals(&self, other: &dyn DynSet) -> Option<bool> {
        let o = other.as_any().downcast_ref::<Self>()?;
        let eq = self == o;
        #[allow(clippy::nonminimal_bool)]
        let ne = !(self != o);
        check_eq!(eq, ne, "== and != agree");
        check_eq!(o == self, eq, "equality is symmetric");
        Some(eq)
    }
}

type Model = BTreeSet<usize>;

/// `{a, b}` as the standard library prints sets.
pub fn set_text(items: &[String], alt: bool) -> String {
    struct Raw<'x>(&'x [String]);
    struct One<'x>(&'x str);
    impl std::fmt::Debug for One<'_> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(self.0)
        }
    }
    impl std::fmt::Debug for Raw<'_> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.debug_set().entries(self.0.iter().map(|s| One(s))).finish()
        }
    }
    text(&Raw(items), alt)
}

pub fn audit(case: &mut Case, rng: &mut Rng, s: &Set, model: &Model) {
    let n = s.n();
    if n <= 140 {
        for i in 0..n {
            check_eq!(s.contains(i), model.contains(&i), "contains({i})");
        }
    } else {
        for _ in 0..60 {
            let i = rng.index(n);
            check_eq!(s.contains(i), model.contains(&i), "contains({i})");
        }
        for i in model.iter().take(60) {
            check_eq!(s.contains(*i), true, "contains({i})");
            if *i + 64 < n {
                check_eq!(s.contains(*i + 64), model.contains(&(*i + 64)), "contains({})", i + 64);
            }
        }
    }
    if n <= 5000 {
        if let Some(it) = s.it() {
            let mut got = Vec::new();
            it.fold(0, &mut |o| got.push(o.0 as usize));
            check_eq!(got, model.iter().copied().collect::<Vec<_>>(), "members");
        }
    }
    case.count("audits");
    case.obs(model.len() as u64);
}

pub fn history(rng: &mut Rng, case: &mut Case, p: &Proto, steps: usize) {
    let origin = (p.make)();
    let n = origin.n();
    let default = rng.chance(1, 4);
    op!("{} over {n} elements, default() {default}", p.label);
    let mut s = origin.fresh(default);
    let mut model = Model::new();
    audit(case, rng, &s, &model);
    if let Some(all) = s.all() {
        // Everything and nothing else.
        let full: Model = (0..n).collect();
        audit(case, rng, &all, &full);
        check_eq!(all.it().unwrap().len(), Some(n), "len of all().iter()");
        let by_hand = s.collect(&(0..n).collect::<Vec<_>>());
        check_eq!(all.equals(&*by_hand), Some(true), "all() equals the set of every element");
        check_eq!(
            all.equals(&*s),
            Some(n == 0),
            "all() equals the empty set only without elements"
        );
        case.count("all()");
    }
    for _ in 0..steps {
        if n == 0 {
            match rng.below(3) {
                0 => s = s.boxed_clone(),
                1 => s = s.collect(&[]),
                _ => s = s.fresh(true),
            }
            s.debug(false);
            audit(case, rng, &s, &model);
            case.count("element-free operations");
            continue;
        }
        let i = rng.index(n);
        match rng.below(10) {
            0..=4 => {
                let g = s.insert(i);
                op!("insert({i}) -> {g}");
                check_eq!(g, model.insert(i), "insert({i}) tells whether it was absent");
                case.obs(g as u64);
                case.count("insert");
                case.mark();
            }
            5 => {
                let g = s.contains(i);
                op!("contains({i}) -> {g}");
                check_eq!(g, model.contains(&i), "contains({i})");
                case.obs(g as u64);
                case.count("contains");
            }
            6 => {
                op!("clone, insert({i}) into the original");
                let c = s.boxed_clone();
                let before = model.clone();
                check_eq!(s.insert(i), model.insert(i), "insert({i})");
                audit(case, rng, &c, &before);
                if let Some(eq) = s.equals(&*c) {
                    check_eq!(eq, model == before, "equality of a set with an earlier clone");
                    case.count("equality");
                }
                if rng.chance(1, 2) {
                    s = c;
                    model = before;
                }
                case.count("clone");
            }
            7 => {
                let k = rng.below(12);
                let mut xs: Vec<usize> = (0..k).map(|_| rng.index(n)).collect();
                if rng.chance(1, 4) {
                    xs = model.iter().copied().collect();
                    let l = xs.len();
                    xs.rotate_left(rng.below(l + 1).min(l));
                }
                op!("collect({xs:?})");
                let c = s.collect(&xs);
                let m2: Model = xs.iter().copied().collect();
                audit(case, rng, &c, &m2);
                if let Some(eq) = s.equals(&*c) {
                    check_eq!(eq, model == m2, "equality with a collected set");
                    case.count("equality");
                }
                if rng.chance(1, 2) {
                    s = c;
                    model = m2;
                }
                case.count("collect");
            }
            8 => {
                if n <= 200 && rng.chance(1, 4) {
                    op!("insert everything");
                    for i in 0..n {
                        check_eq!(s.insert(i), model.insert(i), "insert({i})");
                    }
                    case.mark();
                }
            }
            _ => audit(case, rng, &s, &model),
        }
        if n > 0 && n <= 300 && rng.chance(1, 12) {
            let names: Vec<String> = model.iter().map(|i| s.key_dbg(*i)).collect();
            check_eq!(s.debug(false), set_text(&names, false), "Debug");
        }
    }
    audit(case, rng, &s, &model);
    for i in &model {
        case.obs(*i as u64);
    }
}

pub fn iterate(rng: &mut Rng, case: &mut Case, p: &Proto) {
    let mut s = (p.make)();
    let n = s.n();
    let mut model = Model::new();
    let how = rng.below(6);
    if n > 0 {
        match how {
            0 => {}
            1 => {
                model.extend(0..n);
            }
            2 => {
                model.extend((0..n).filter(|_| rng.chance(1, 2)));
            }
            3 => {
                model.extend([0, n - 1]);
            }
            _ => {
                for _ in 0..rng.range(1, 9) {
                    model.insert(rng.index(n));
                }
            }
        }
        for i in &model {
            s.insert(*i);
        }
    }
    if how == 1 && rng.chance(1, 2) {
        if let Some(all) = s.all() {
            s = all;
        }
    }
    op!("{} holding {:?}", p.label, model);
    if !model.is_empty() {
        case.mark();
    }
    let q: VecDeque<Obs> = model.iter().map(|i| (*i as u64, NO)).collect();
    let it = s.it();
    if let Some(it) = it {
        drive(rng, case, "iter", it, q, &How { exact_hint: false });
        case.count("iterators over sets");
    };
}

pub fn walk_histories(ctx: &Ctx, protos: &[Proto], n: usize) {
    for p in protos {
        ctx.cases(&format!("history of {}", p.label), n, |rng, case| {
            let steps = if crate::mon::small() { 10 } else { rng.range(3, 70) };
            history(rng, case, p, steps);
        });
    }
}

pub fn walk_iterators(ctx: &Ctx, protos: &[Proto], n: usize) {
    for p in protos {
        ctx.cases(&format!("iterators of {}", p.label), n, |rng, case| {
            iterate(rng, case, p);
        });
    }
}
