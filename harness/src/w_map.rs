//! Sparse maps against a dictionary: operation histories, entries and iterators.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::collections::HashMap;
use std::collections::VecDeque;
use std::rc::Rc;

use crate::check;
use crate::check_eq;
use crate::dynmap::DynSparse;
use crate::dynmap::EntryDo;
use crate::dynmap::ItKind;
use crate::iterdrive::drive;
use crate::iterdrive::How;
use crate::iterdrive::Obs;
use crate::iterdrive::NO;
use crate::mon::Case;
use crate::mon::Ctx;
use crate::op;
use crate::rng::Rng;

pub type Model = BTreeMap<usize, u64>;
pub type Map = Box<dyn DynSparse>;

/// A map type of the catalogue.
pub struct Proto {
    pub label: &'static str,
    pub make: fn() -> Map,
}

/// What a walk over the sparse maps concentrates on.
#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    /// C06
    Dictionary,
    /// C07
    Entries,
    /// C08
    Iterators,
    /// Everything (memory checks, portability digests)
    All,
}

pub fn model_items(m: &Model) -> VecDeque<Obs> {
    m.iter().map(|(k, v)| (*k as u64, *v)).collect()
}

fn model_vec(m: &Model) -> Vec<(usize, u64)> {
    m.iter().map(|(k, v)| (*k, *v)).collect()
}

/// Compare everything observable with the model.
pub fn audit(case: &mut Case, rng: &mut Rng, m: &Map, model: &Model) {
    let n = m.n();
    check_eq!(m.len(), model.len(), "len()");
    check_eq!(m.is_empty(), model.is_empty(), "is_empty()");
    let probe = |i: usize| {
        check_eq!(m.get(i), model.get(&i).copied(), "get({i})");
        check_eq!(
            m.contains_key(i),
            model.contains_key(&i),
            "contains_key({i})"
        );
    };
    if n <= 80 {
        for i in 0..n {
            probe(i);
        }
    } else {
        for _ in 0..40 {
            probe(rng.index(n));
        }
        for i in model.keys().take(60) {
            probe(*i);
        }
    }
    check_eq!(m.entries(), model_vec(model), "entries");
    case.count("audits");
    case.obs(model.len() as u64);
}

/// Values are distinct within a map (as far as the value type can tell).
pub fn fill(rng: &mut Rng, m: &mut Map, model: &mut Model, how: usize) {
    let n = m.n();
    if n == 0 {
        return;
    }
    let mut next = 0;
    let mut put = |m: &mut Map, model: &mut Model, i: usize, x: u64| {
        next += 1000;
        let x = x % 1000 + next;
        m.insert(i, x);
        model.insert(i, m.norm(x));
    };
    match how {
        0 => {}
        1 => put(m, model, rng.index(n), rng.u64()),
        2 => {
            for i in 0..n {
                put(m, model, i, rng.u64());
            }
        }
        3 => {
            for i in 0..n {
                if rng.chance(1, 2) {
                    put(m, model, i, rng.u64());
                }
            }
        }
        4 => {
            // Only the ends.
            put(m, model, 0, 7);
            put(m, model, n - 1, 9);
        }
        _ => {
            for _ in 0..rng.range(1, 12) {
                let i = rng.index(n);
                put(m, model, i, rng.u64());
            }
        }
    }
    // Sometimes holes from removals.
    if rng.chance(1, 3) {
        for _ in 0..rng.below(5) {
            let i = rng.index(n);
            m.remove(i);
            model.remove(&i);
        }
    }
}

/// A random history of dictionary operations.
pub fn history(rng: &mut Rng, case: &mut Case, proto: &Proto, focus: Focus, steps: usize) {
    let origin = (proto.make)();
    let n = origin.n();
    let default = rng.chance(1, 4);
    op!("{} over {n} keys, default() {default}", proto.label);
    let mut m = origin.fresh(default);
    let mut model = Model::new();
    let entry_bias = focus == Focus::Entries;
    audit(case, rng, &m, &model);
    // A few hot keys make insert/remove/entry hit the same slots.
    let hot: Vec<usize> = if n == 0 {
        vec![]
    } else {
        (0..rng.range(1, 6)).map(|_| rng.index(n)).collect()
    };
    for _ in 0..steps {
        if n == 0 {
            // No key can be named: only key-free operations exist.
            match rng.below(5) {
                0 => m.clear(),
                1 => {
                    let c = m.boxed_clone();
                    audit(case, rng, &c, &model);
                }
                2 => {
                    let d = m.it_mut(ItKind::Drain, |x| x, Rc::default());
                    check_eq!(d.count(), 0, "drain of a map with no keys");
                }
                3 => {
                    m.retain(&mut |_, _| crate::mon::violate("retain offered an entry".into()));
                }
                _ => m = m.collect(&[]),
            }
            audit(case, rng, &m, &model);
            case.count("key-free operations");
            continue;
        }
        let i = if rng.chance(2, 3) {
            *rng.pick(&hot)
        } else {
            rng.index(n)
        };
        let x = rng.u64() % 10_000;
        let sel = if entry_bias && rng.chance(3, 5) {
            9
        } else {
            rng.below(20)
        };
        match sel {
            0..=2 => {
                let e = model.insert(i, m.norm(x));
                let g = m.insert(i, x);
                op!("insert({i}, {x}) -> {g:?}");
                check_eq!(g, e, "insert({i}) returns the previous value");
                case.obs(g.unwrap_or(NO));
                case.count("insert");
                case.mark();
            }
            3 | 4 => {
                let e = model.remove(&i);
                let g = m.remove(i);
                op!("remove({i}) -> {g:?}");
                check_eq!(g, e, "remove({i}) returns the previous value");
                case.obs(g.unwrap_or(NO));
                case.count("remove");
                case.mark();
            }
            5 => {
                let g = m.get(i);
                op!("get({i}) -> {g:?}");
                check_eq!(g, model.get(&i).copied(), "get({i})");
                case.obs(g.unwrap_or(NO));
                case.count("get");
            }
            6 => {
                let g = m.contains_key(i);
                op!("contains_key({i}) -> {g}");
                check_eq!(g, model.contains_key(&i), "contains_key({i})");
                case.obs(g as u64);
                case.count("contains_key");
            }
            7 | 8 => {
                let w = rng.chance(3, 4).then_some(x);
                let g = m.get_mut(i, w);
                op!("get_mut({i}), write {w:?} -> {g:?}");
                check_eq!(g, model.get(&i).copied(), "get_mut({i})");
                if let (Some(x), Some(_)) = (w, g) {
                    model.insert(i, m.norm(x));
                }
                case.count("get_mut");
            }
            9..=11 => entry_op(rng, case, &mut m, &mut model, i, x),
            12 => {
                if rng.chance(1, 4) {
                    op!("clear()");
                    m.clear();
                    model.clear();
                    case.count("clear");
                }
            }
            13 => {
                let modulus = rng.range(2, 4);
                let bump = rng.chance(1, 2) as u64;
                op!("retain(index % {modulus} != 0, bump {bump})");
                let mut offered = Vec::new();
                let has = m.retain(&mut |k, v| {
                    offered.push((k, v));
                    (k % modulus != 0, v ^ bump)
                });
                if has {
                    check_eq!(offered, model_vec(&model), "entries offered to retain");
                    model.retain(|k, v| {
                        if bump == 1 {
                            *v = m.norm(*v ^ 1);
                        }
                        k % modulus != 0
                    });
                    case.count("retain");
                    case.mark();
                }
            }
            14 => {
                if rng.chance(1, 3) {
                    let front = rng.below(model.len() + 1);
                    let fwd = rng.chance(1, 2);
                    op!("drain(), {front} steps, forward {fwd}");
                    let mut d = m.it_mut(ItKind::Drain, |x| x, Rc::default());
                    for _ in 0..front {
                        let (e, g) = if fwd {
                            (model.pop_first(), d.next())
                        } else {
                            (model.pop_last(), d.next_back())
                        };
                        let e = e.map(|(k, v)| (k as u64, v));
                        check_eq!(g, e, "drained entry");
                    }
                    drop(d);
                    model.clear();
                    check!(m.is_empty(), "map not empty after drain");
                    case.count("drain");
                    case.mark();
                }
            }
            15 => {
                op!("clone, insert({i}, {x}) into the original, compare");
                let c = m.boxed_clone();
                let before = model.clone();
                m.insert(i, x);
                model.insert(i, m.norm(x));
                audit(case, rng, &c, &before);
                if rng.chance(1, 2) {
                    m = c;
                    model = before;
                }
                case.count("clone");
            }
            16 => {
                if rng.chance(1, 3) {
                    let pairs: Vec<(usize, u64)> = (0..rng.below(10))
                        .map(|_| (rng.index(n), rng.u64() % 1000))
                        .collect();
                    op!("collect({pairs:?})");
                    m = m.collect(&pairs);
                    model = pairs.iter().map(|(i, x)| (*i, m.norm(*x))).collect();
                    case.count("collect");
                    case.mark();
                }
            }
            17 => {
                op!("iter_mut, change every value");
                let sink: crate::dynmap::Sink = Rc::default();
                m.it_mut(ItKind::IterMut, |x| x ^ 2, sink.clone())
                    .fold(0, &mut |_| {});
                let exp = model_items(&model);
                check_eq!(*sink.borrow(), Vec::from(exp), "iter_mut entries");
                for v in model.values_mut() {
                    *v = m.norm(*v ^ 2);
                }
                case.count("iter_mut");
            }
            18 => {
                let l = m.len();
                check_eq!(l, model.len(), "len()");
                check_eq!(m.is_empty(), model.is_empty(), "is_empty()");
                case.obs(l as u64);
            }
            _ => audit(case, rng, &m, &model),
        }
        if rng.chance(1, 6) {
            audit(case, rng, &m, &model);
        }
    }
    audit(case, rng, &m, &model);
    let mut got = Vec::new();
    m.into_it().fold(0, &mut |o| got.push(o));
    check_eq!(got, Vec::from(model_items(&model)), "entries of into_iter");
    for (a, b) in got {
        case.obs(a);
        case.obs(b);
    }
}

/// One entry handle, used in a random way.
pub fn entry_op(
    rng: &mut Rng,
    case: &mut Case,
    m: &mut Map,
    model: &mut Model,
    i: usize,
    x: u64,
) {
    let how = rng.below(8);
    let before = model.get(&i).copied();
    op!("entry({i}) #{how}, holds {before:?}, value {x}");
    case.count("entry handles");
    if before.is_some() {
        case.count("entry handles occupied");
    }
    let saw = match how {
        0 => m.entry(i, EntryDo::OrInsert(x)),
        1 | 2 => m.entry(i, EntryDo::OrInsertWrite(x, x ^ 5)),
        3 => m.entry(i, EntryDo::Drop),
        4 => m.entry(i, EntryDo::Forget),
        5 => m.entry(i, EntryDo::Look),
        _ => m.entry(i, EntryDo::Write(x)),
    };
    check_eq!(saw.key, i, "Entry::key()");
    check_eq!(
        saw.occupied,
        before.is_some(),
        "entry({i}) is occupied exactly when present"
    );
    if let Some(k) = saw.handle_key {
        check_eq!(k, i, "key() of the handle");
    }
    match how {
        0 => {
            let e = *model.entry(i).or_insert(m.norm(x));
            check_eq!(saw.after, Some(e), "value or_insert refers to");
            case.count("or_insert");
            case.mark();
        }
        1 | 2 => {
            let e = *model.entry(i).or_insert(m.norm(x));
            check_eq!(saw.before, Some(e), "value or_insert refers to");
            check_eq!(
                saw.after,
                Some(m.norm(x ^ 5)),
                "value written through or_insert"
            );
            model.insert(i, m.norm(x ^ 5));
            case.count("or_insert");
            case.mark();
        }
        5 => check_eq!(saw.before, before, "OccupiedEntry::get()"),
        6 | 7 => {
            check_eq!(saw.before, before, "OccupiedEntry::get()");
            if before.is_some() {
                check_eq!(saw.after, Some(m.norm(x)), "value written by get_mut()");
                case.count("occupied get_mut");
            } else {
                case.count("vacant insert");
            }
            model.insert(i, m.norm(x));
            case.mark();
        }
        _ => {}
    }
    // Nothing but that key changed.
    audit(case, rng, m, model);
}

/// One iterator of a filled map, driven at random.
pub fn iterate(rng: &mut Rng, case: &mut Case, proto: &Proto) {
    let mut m = (proto.make)();
    let mut model = Model::new();
    let how = rng.below(6);
    fill(rng, &mut m, &mut model, how);
    let q = model_items(&model);
    op!("{} over {} keys holding {:?}", proto.label, m.n(), model);
    if !q.is_empty() {
        case.mark();
    }
    let keys_only: VecDeque<Obs> = q.iter().map(|(k, _)| (*k, NO)).collect();
    let vals_only: VecDeque<Obs> = q.iter().map(|(_, v)| (NO, *v)).collect();
    let h = How { exact_hint: false };
    case.count("iterators over maps");
    match rng.below(10) {
        0 => drive(rng, case, "iter", m.it(ItKind::Iter), q, &h),
        1 => drive(rng, case, "&map", m.it(ItKind::Ref), q, &h),
        2 => drive(rng, case, "keys", m.it(ItKind::Keys), keys_only, &h),
        3 => drive(rng, case, "values", m.it(ItKind::Values), vals_only, &h),
        4 | 5 => {
            // Writes through the iterator reach exactly the visited entries.
            let sink: crate::dynmap::Sink = Rc::new(RefCell::default());
            let it = m.it_mut(ItKind::IterMut, |x| x ^ 8, sink.clone());
            drive(rng, case, "iter_mut", it, q, &h);
            for (k, v) in sink.take() {
                let e = model.get_mut(&(k as usize)).unwrap();
                check_eq!(v, *e, "value visited once by iter_mut");
                *e = m.norm(v ^ 8);
            }
            audit(case, rng, &m, &model);
        }
        6 => {
            let sink: crate::dynmap::Sink = Rc::new(RefCell::default());
            let it = m.it_mut(ItKind::ValuesMut, |x| x ^ 8, sink.clone());
            drive(rng, case, "values_mut", it, vals_only, &h);
            // Values are distinct, so they tell which entry was visited.
            let place: HashMap<u64, usize> = model.iter().map(|(k, v)| (*v, *k)).collect();
            if place.len() == model.len() {
                for (_, v) in sink.take() {
                    model.insert(place[&v], m.norm(v ^ 8));
                }
                audit(case, rng, &m, &model);
            }
        }
        7 => {
            let it = m.it_mut(ItKind::Drain, |x| x, Rc::default());
            drive(rng, case, "drain", it, q, &h);
            model.clear();
            audit(case, rng, &m, &model);
            // And it is an ordinary map afterwards.
            if m.n() > 0 {
                let i = rng.index(m.n());
                m.insert(i, 3);
                model.insert(i, m.norm(3));
                audit(case, rng, &m, &model);
            }
        }
        8 => drive(rng, case, "into_iter", m.into_it(), q, &h),
        _ => {
            // Two iterators over one map at the same time.
            let mut a = m.it(ItKind::Iter);
            let mut b = m.it(ItKind::Values);
            let mut c = m.it(ItKind::Keys);
            for (k, v) in &q {
                check_eq!(a.next(), Some((*k, *v)), "iter() in step");
                check_eq!(b.next(), Some((NO, *v)), "values() in step");
                check_eq!(c.next(), Some((*k, NO)), "keys() in step");
                case.obs(*k);
            }
            check_eq!(a.next(), None, "iter() at its end");
            check_eq!(b.next(), None, "values() at its end");
            check_eq!(c.next(), None, "keys() at its end");
        }
    }
}

pub fn walk(ctx: &Ctx, protos: &[Proto], focus: Focus, n: usize) {
    for p in protos {
        if focus != Focus::Iterators {
            ctx.cases(&format!("history of {}", p.label), n, |rng, case| {
                let steps = if crate::mon::small() { 12 } else { rng.range(4, 90) };
                history(rng, case, p, focus, steps);
            });
        }
        if matches!(focus, Focus::Iterators | Focus::All) {
            ctx.cases(&format!("iterators of {}", p.label), n * 4, |rng, case| {
                iterate(rng, case, p);
            });
        }
    }
}
