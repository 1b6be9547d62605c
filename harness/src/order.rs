//! Agreement of ordinals with `Ord`.
use std::cmp::Ordering;

use crate::leaf::interesting;
use crate::model::Model;
use crate::mon::violate;
use crate::mon::Ctx;
use crate::op;
use crate::rng::Rng;

/// Two values by rank: what `Ord` says and their ordinals.
pub type Pair = fn(u128, u128) -> (Ordering, usize, usize);

pub struct Ops {
    pub name: &'static str,
    pub size: u128,
    pub pair: Pair,
    pub show: fn(u128) -> String,
    /// (value at ordinal a).cmp(value at ordinal b)
    pub by_ordinal: fn(usize, usize) -> Option<Ordering>,
}

pub fn ops<T: Model + Ord>(name: &'static str) -> Ops {
    Ops {
        name,
        size: T::size(),
        pair: |a, b| {
            let (a, b) = (T::make(a), T::make(b));
            (a.cmp(&b), a.ordinal(), b.ordinal())
        },
        show: |r| T::make(r).show(),
        by_ordinal: |a, b| Some(T::from_ordinal(a)?.cmp(&T::from_ordinal(b)?)),
    }
}

/// For types whose `Ord` goes by discriminants: the declaration order is the model's.
pub fn declared<T: Model>(name: &'static str) -> Ops {
    Ops {
        name,
        size: T::size(),
        pair: |a, b| {
            let (x, y) = (T::make(a), T::make(b));
            (a.cmp(&b), x.ordinal(), y.ordinal())
        },
        show: |r| T::make(r).show(),
        by_ordinal: |a, b| Some(T::from_ordinal(a)?.rank().cmp(&T::from_ordinal(b)?.rank())),
    }
}

fn pair(t: &Ops, a: u128, b: u128) {
    let (cmp, x, y) = (t.pair)(a, b);
    if cmp != x.cmp(&y) {
        violate(format!(
            "{}: {} {cmp:?} {}, but their ordinals are {x} and {y}",
            t.name,
            (t.show)(a),
            (t.show)(b)
        ));
    }
}

fn numbers(t: &Ops, a: usize, b: usize) {
    match (t.by_ordinal)(a, b) {
        Some(c) if c == a.cmp(&b) => {}
        c => violate(format!("{}: the values with ordinals {a} and {b} compare {c:?}", t.name)),
    }
}

/// All pairs of small types; neighbours, boundaries and random pairs of others.
pub fn agree(ctx: &Ctx, all: &[Ops]) {
    let dict = crate::mon::dict();
    let n = all.len();
    ctx.sample(format!("{n} types"));
    ctx.cases("small types, all pairs; large types, boundaries", n, |_, case| {
        let t = &all[case.index];
        op!("{}", t.name);
        let lim = if crate::mon::small() { 12 } else { 400 };
        if t.size <= lim {
            for a in 0..t.size {
                for b in 0..t.size {
                    pair(t, a, b);
                    numbers(t, a as usize, b as usize);
                    case.count("pairs");
                }
            }
            case.count("types with all pairs checked");
        }
        // Neighbours give the whole order where they can all be visited.
        let chain = t.size.min(if crate::mon::small() { 30 } else { 1 << 18 });
        for a in 1..chain {
            pair(t, a - 1, a);
            case.count("pairs");
        }
        let xs: Vec<u128> = interesting(&dict, t.size)
            .into_iter()
            .filter(|x| *x < t.size && (!crate::mon::small() || x % 13 == 0))
            .collect();
        for x in &xs {
            for y in [0, t.size - 1, t.size / 2, x.saturating_sub(1), (x + 1).min(t.size - 1), x ^ 1, t.size - 1 - x] {
                if y < t.size {
                    pair(t, *x, y);
                    numbers(t, *x as usize, y as usize);
                    case.count("pairs");
                }
            }
        }
        case.obs(t.size as u64);
        if t.size > 1 {
            case.mark();
        }
    });
    let rounds = ctx.n(6, 200);
    ctx.cases("random pairs", n * rounds, |rng: &mut Rng, case| {
        let t = &all[case.index % n];
        if t.size == 0 {
            return;
        }
        for _ in 0..if crate::mon::small() { 10 } else { 250 } {
            let a = rng.u64() as u128 % t.size;
            let b = match rng.below(4) {
                0 => a,
                1 => (a + rng.below(5) as u128) % t.size,
                2 => (a ^ (1 << rng.below(64))) % t.size,
                _ => rng.u64() as u128 % t.size,
            };
            op!("{}: #{a} #{b}", t.name);
            pair(t, a, b);
            numbers(t, a as usize, b as usize);
            case.obs(a as u64);
            case.obs(b as u64);
            case.count("pairs");
        }
        case.mark();
    });
}
