//! Total maps against an array of values.

use std::cell::RefCell;
use std::collections::HashMap;
use std::collections::VecDeque;
use std::rc::Rc;

use ordinal_map::map::total::OrdinalTotalArrayMap;

use crate::check;
use crate::check_eq;
use crate::dynmap::DynTotal;
use crate::dynmap::ItKind;
use crate::dynmap::Sink;
use crate::iterdrive::drive;
use crate::iterdrive::How;
use crate::iterdrive::Obs;
use crate::iterdrive::NO;
use crate::keys::TestKey;
use crate::mon::Case;
use crate::mon::Ctx;
use crate::op;
use crate::rng::Rng;
use crate::vals::TestVal;

pub type Map = Box<dyn DynTotal>;

pub struct Proto {
    pub label: &'static str,
    pub make: fn(&mut dyn FnMut(usize) -> u64) -> Map,
    pub try_make: fn(&mut dyn FnMut(usize) -> Result<u64, String>) -> Result<Map, String>,
    pub n: usize,
    /// Operations only the array map has.
    pub array: Option<fn(&mut Rng, &mut Case)>,
}

pub fn audit(case: &mut Case, rng: &mut Rng, m: &Map, model: &[u64]) {
    let n = model.len();
    check_eq!(m.len(), n, "len()");
    check_eq!(m.is_empty(), n == 0, "is_empty()");
    let probe = |i: usize| {
        check_eq!(m.get(i), model[i], "get({i})");
        check_eq!(m.index(i), model[i], "index({i})");
    };
    if n <= 80 {
        for i in 0..n {
            probe(i);
        }
    } else {
        for _ in 0..50 {
            probe(rng.index(n));
        }
    }
    let exp: Vec<(usize, u64)> = model.iter().copied().enumerate().collect();
    check_eq!(m.entries(), exp, "entries");
    case.count("audits");
    case.obs(n as u64);
}

fn construct(rng: &mut Rng, case: &mut Case, p: &Proto) -> (Map, Vec<u64>) {
    let n = p.n;
    let base = rng.u64() % 100;
    let val = |i: usize| base + 1000 * i as u64;
    let mut calls: Vec<usize> = Vec::new();
    let m = match rng.below(3) {
        0 => {
            op!("{}: new()", p.label);
            (p.make)(&mut |i| {
                calls.push(i);
                val(i)
            })
        }
        1 => {
            op!("{}: try_new()", p.label);
            let r = (p.try_make)(&mut |i| {
                calls.push(i);
                Ok(val(i))
            });
            match r {
                Ok(m) => m,
                Err(e) => crate::mon::violate(format!("try_new invented the error {e:?}")),
            }
        }
        _ => {
            op!("{}: try_new() until it succeeds", p.label);
            let mut m = None;
            if n > 0 {
                for _ in 0..3 {
                    let fail = rng.index(n);
                    let mut calls = Vec::new();
                    let r = (p.try_make)(&mut |i| {
                        calls.push(i);
                        if i == fail {
                            Err(format!("error at {i}"))
                        } else {
                            Ok(val(i))
                        }
                    });
                    check_eq!(calls, (0..=fail).collect::<Vec<_>>(), "initialiser calls");
                    match r {
                        Ok(_) => crate::mon::violate("try_new ignored an error".into()),
                        Err(e) => check_eq!(e, format!("error at {fail}"), "error of try_new"),
                    }
                    case.count("failed constructions");
                }
            }
            if n == 0 {
                let r = (p.try_make)(&mut |_| Err("called without a key".into()));
                m = r.ok();
                check!(m.is_some(), "try_new over no keys failed");
            }
            m.unwrap_or_else(|| {
                (p.make)(&mut |i| {
                    calls.push(i);
                    val(i)
                })
            })
        }
    };
    check_eq!(calls, (0..n).collect::<Vec<_>>(), "initialiser calls");
    let model: Vec<u64> = (0..n).map(|i| m.norm(val(i))).collect();
    case.count("constructions");
    (m, model)
}

pub fn history(rng: &mut Rng, case: &mut Case, p: &Proto, steps: usize) {
    let (mut m, mut model) = construct(rng, case, p);
    let n = p.n;
    audit(case, rng, &m, &model);
    for _ in 0..steps {
        if n == 0 {
            if rng.chance(1, 2) {
                m = m.boxed_clone();
            }
            audit(case, rng, &m, &model);
            continue;
        }
        let i = rng.index(n);
        let x = rng.u64() % 10_000;
        match rng.below(9) {
            0 | 1 => {
                let g = m.insert(i, x);
                op!("insert({i}, {x}) -> {g}");
                check_eq!(g, model[i], "insert({i}) returns the previous value");
                model[i] = m.norm(x);
                case.obs(g);
                case.count("insert");
                case.mark();
            }
            2 => {
                let w = rng.chance(3, 4).then_some(x);
                op!("get_mut({i}), write {w:?}");
                check_eq!(m.get_mut(i, w), model[i], "get_mut({i})");
                if let Some(x) = w {
                    model[i] = m.norm(x);
                    case.mark();
                }
                case.count("get_mut");
            }
            3 => {
                op!("index_mut({i}) = {x}");
                check_eq!(m.index_mut(i, x), model[i], "index_mut({i})");
                model[i] = m.norm(x);
                case.count("index_mut");
                case.mark();
            }
            4 => {
                let c = m.boxed_clone();
                let before = model.clone();
                op!("clone, insert({i}, {x}) into the original");
                m.insert(i, x);
                model[i] = m.norm(x);
                audit(case, rng, &c, &before);
                if rng.chance(1, 2) {
                    m = c;
                    model = before;
                }
                case.count("clone");
            }
            5 => {
                op!("write through iter_mut");
                let sink: Sink = Rc::default();
                m.it_mut(ItKind::IterMut, |x| x ^ 2, sink.clone())
                    .fold(0, &mut |_| {});
                let exp: Vec<Obs> = model
                    .iter()
                    .enumerate()
                    .map(|(i, v)| (i as u64, *v))
                    .collect();
                check_eq!(*sink.borrow(), exp, "iter_mut entries");
                for v in &mut model {
                    *v = m.norm(*v ^ 2);
                }
                case.count("iter_mut");
            }
            6 => {
                op!("write through values_mut");
                let sink: Sink = Rc::default();
                m.it_mut(ItKind::ValuesMut, |x| x ^ 4, sink.clone())
                    .fold(0, &mut |_| {});
                let exp: Vec<Obs> = model.iter().map(|v| (NO, *v)).collect();
                check_eq!(*sink.borrow(), exp, "values_mut values");
                for v in &mut model {
                    *v = m.norm(*v ^ 4);
                }
                case.count("values_mut");
            }
            7 => {
                check_eq!(m.keys(), (0..n).collect::<Vec<_>>(), "keys()");
                let mut g = Vec::new();
                m.it(ItKind::Values).fold(0, &mut |o| g.push(o.1));
                check_eq!(g, model, "values()");
            }
            _ => audit(case, rng, &m, &model),
        }
        if rng.chance(1, 6) {
            audit(case, rng, &m, &model);
        }
    }
    audit(case, rng, &m, &model);
    for v in &model {
        case.obs(*v);
    }
    match rng.below(3) {
        0 => check_eq!(m.into_vals(), model, "into_values()"),
        1 => check_eq!(m.into_keys(), (0..n).collect::<Vec<_>>(), "into_keys()"),
        _ => {
            let mut got = Vec::new();
            m.into_it().fold(0, &mut |o| got.push(o));
            let exp: Vec<Obs> = model
                .iter()
                .enumerate()
                .map(|(i, v)| (i as u64, *v))
                .collect();
            check_eq!(got, exp, "entries of into_iter");
        }
    }
}

pub fn iterate(rng: &mut Rng, case: &mut Case, p: &Proto) {
    let (mut m, mut model) = construct(rng, case, p);
    if p.n > 0 {
        for _ in 0..rng.below(4) {
            let i = rng.index(p.n);
            m.insert(i, i as u64 * 1000 + 777);
            model[i] = m.norm(i as u64 * 1000 + 777);
        }
        case.mark();
    }
    case.count("iterators over total maps");
    let q: VecDeque<Obs> = model
        .iter()
        .enumerate()
        .map(|(i, v)| (i as u64, *v))
        .collect();
    op!("{} holding {:?}", p.label, q);
    let keys_only: VecDeque<Obs> = q.iter().map(|(k, _)| (*k, NO)).collect();
    let vals_only: VecDeque<Obs> = q.iter().map(|(_, v)| (NO, *v)).collect();
    let h = How { exact_hint: true };
    match rng.below(8) {
        0 => drive(rng, case, "iter", m.it(ItKind::Iter), q, &h),
        1 => drive(rng, case, "&map", m.it(ItKind::Ref), q, &h),
        2 => drive(rng, case, "keys", m.it(ItKind::Keys), keys_only, &h),
        3 => drive(rng, case, "values", m.it(ItKind::Values), vals_only, &h),
        4 | 5 => {
            let sink: Sink = Rc::new(RefCell::default());
            let it = m.it_mut(ItKind::IterMut, |x| x ^ 8, sink.clone());
            drive(rng, case, "iter_mut", it, q, &h);
            for (k, v) in sink.take() {
                let e = &mut model[k as usize];
                check_eq!(v, *e, "value visited once by iter_mut");
                *e = m.norm(v ^ 8);
            }
            audit(case, rng, &m, &model);
        }
        6 => {
            let sink: Sink = Rc::new(RefCell::default());
            let it = m.it_mut(ItKind::ValuesMut, |x| x ^ 8, sink.clone());
            drive(rng, case, "values_mut", it, vals_only, &h);
            let place: HashMap<u64, usize> =
                model.iter().enumerate().map(|(k, v)| (*v, k)).collect();
            if place.len() == model.len() {
                for (_, v) in sink.take() {
                    model[place[&v]] = m.norm(v ^ 8);
                }
                audit(case, rng, &m, &model);
            }
        }
        _ => drive(rng, case, "into_iter", m.into_it(), q, &h),
    }
}

/// Operations of `OrdinalTotalArrayMap` that the heap map does not have.
pub fn array_case<K: TestKey, V: TestVal + 'static, const S: usize>(
    rng: &mut Rng,
    case: &mut Case,
) {
    let base = rng.u64() % 100;
    let model: Vec<u64> = (0..S).map(|i| V::norm(base + 1000 * i as u64)).collect();
    let arr = || -> [V; S] { std::array::from_fn(|i| V::mk(base + 1000 * i as u64)) };
    let mut m = OrdinalTotalArrayMap::<K, V, S>::from_array(arr());
    let entries = |m: &OrdinalTotalArrayMap<K, V, S>| -> Vec<(usize, u64)> {
        let mut r = Vec::new();
        for (k, v) in m {
            r.push((k.idx(), v.rd()));
        }
        r
    };
    let exp = |xs: &[u64]| -> Vec<(usize, u64)> { xs.iter().copied().enumerate().collect() };
    check_eq!(entries(&m), exp(&model), "from_array");
    let t = rng.below(8);
    op!("array map over {S} keys, operation #{t}");
    if S > 0 {
        case.mark();
    }
    for v in &model {
        case.obs(*v);
    }
    case.obs(t as u64);
    match t {
        0 => {
            case.count("as_ref");
            let r = m.as_ref();
            for i in 0..S {
                let k = K::at(i);
                check!(
                    std::ptr::eq(*r.get(&k), m.get(&k)),
                    "as_ref({i}) refers to another value"
                );
                check_eq!(r[&k].rd(), model[i], "as_ref({i})");
            }
            check_eq!(r.len(), S, "len of as_ref");
        }
        1 => {
            case.count("as_mut");
            let mut model = model;
            {
                let r = m.as_mut();
                let held: Vec<(usize, &mut V)> = {
                    let mut v = Vec::new();
                    for (k, x) in r {
                        v.push((k.idx(), x));
                    }
                    v
                };
                check_eq!(
                    held.iter().map(|x| x.0).collect::<Vec<_>>(),
                    (0..S).collect::<Vec<_>>(),
                    "keys of as_mut"
                );
                // All references are usable together.
                for (i, x) in held.into_iter().rev() {
                    check_eq!(x.rd(), model[i], "as_mut({i})");
                    if i % 2 == 0 {
                        x.wr(5000 + i as u64);
                        model[i] = V::norm(5000 + i as u64);
                    }
                }
            }
            check_eq!(entries(&m), exp(&model), "map after writes through as_mut");
        }
        2 => {
            case.count("zip");
            let other =
                OrdinalTotalArrayMap::<K, u64, S>::from_array(std::array::from_fn(|i| i as u64));
            let z = m.zip(other);
            let mut got = Vec::new();
            for (k, (v, w)) in z {
                got.push((k.idx(), v.rd(), w));
            }
            let e: Vec<(usize, u64, u64)> = (0..S).map(|i| (i, model[i], i as u64)).collect();
            check_eq!(got, e, "zip");
        }
        3 => {
            case.count("map");
            let mut calls = Vec::new();
            let r: OrdinalTotalArrayMap<K, (usize, u64), S> = m.map(|k, v| {
                calls.push((k.idx(), v.rd()));
                (k.idx() + 1, v.rd() ^ 1)
            });
            check_eq!(calls, exp(&model), "calls made by map");
            let got: Vec<(usize, u64)> = r.into_values().to_vec();
            let e: Vec<(usize, u64)> = (0..S).map(|i| (i + 1, model[i] ^ 1)).collect();
            check_eq!(got, e, "map");
        }
        4 => {
            case.count("map_values");
            let mut calls = Vec::new();
            let r: OrdinalTotalArrayMap<K, String, S> = m.map_values(|v| {
                calls.push(v.rd());
                format!("{}", v.rd())
            });
            check_eq!(calls, model, "calls made by map_values");
            let mut got = Vec::new();
            for (k, s) in &r {
                got.push((k.idx(), s.parse::<u64>().unwrap()));
            }
            check_eq!(got, exp(&model), "map_values");
        }
        5 => {
            case.count("values_array");
            let mut model = model;
            let a: &[V; S] = m.values_array();
            let got: Vec<u64> = a.iter().map(|v| v.rd()).collect();
            check_eq!(got, model, "values_array");
            let a: &mut [V; S] = m.values_array_mut();
            for (i, v) in a.iter_mut().enumerate() {
                if i % 3 == 0 {
                    check_eq!(v.rd(), model[i], "values_array_mut[{i}]");
                    v.wr(i as u64);
                    model[i] = V::norm(i as u64);
                }
            }
            check_eq!(entries(&m), exp(&model), "map after writes to values_array_mut");
        }
        6 => {
            case.count("into_values");
            let a: [V; S] = m.into_values();
            let got: Vec<u64> = a.iter().map(|v| v.rd()).collect();
            check_eq!(got, model, "into_values");
            // And back.
            let m = OrdinalTotalArrayMap::<K, V, S>::from_array(a);
            check_eq!(entries(&m), exp(&model), "from_array of into_values");
        }
        _ => {
            case.count("zip of views");
            // Views zipped with a map keep every value at its key.
            let other = OrdinalTotalArrayMap::<K, V, S>::from_array(arr());
            {
                let z = m.as_mut().zip(other.as_ref());
                for (k, (a, b)) in z {
                    check_eq!(a.rd(), b.rd(), "zipped views at {}", k.idx());
                    a.wr(b.rd() ^ 1);
                }
            }
            let e: Vec<u64> = model.iter().map(|x| V::norm(x ^ 1)).collect();
            check_eq!(entries(&m), exp(&e), "map after writes through zipped views");
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    /// C09
    Contents,
    /// C08
    Iterators,
    All,
}

pub fn walk(ctx: &Ctx, protos: &[Proto], focus: Focus, n: usize) {
    for p in protos {
        if focus != Focus::Iterators {
            ctx.cases(&format!("history of {}", p.label), n, |rng, case| {
                let steps = if crate::mon::small() { 8 } else { rng.range(2, 40) };
                history(rng, case, p, steps);
            });
            if let Some(f) = p.array {
                ctx.cases(&format!("array operations of {}", p.label), n, f);
            }
        }
        if focus != Focus::Contents {
            ctx.cases(&format!("iterators of {}", p.label), n * 4, |rng, case| {
                iterate(rng, case, p);
            });
        }
    }
}
