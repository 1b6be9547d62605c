//! C18: lookups and updates take constant time regardless of the number of keys.
#[cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
mod main {
    use std::collections::BTreeMap;
    use std::collections::BTreeSet;
    use std::hint::black_box;
    use std::ops::Index;
    use std::ops::IndexMut;

    use harness::check;
    use harness::check_eq;
    use harness::keys;
    use harness::keys::Color;
    use harness::keys::Key;
    use harness::keys::OKey;
    use harness::keys::TestKey;
    use harness::maps::size;
    use harness::maps::Sparse;
    use harness::maps::Total;
    use harness::mon::Case;
    use harness::mon::Ctx;
    use harness::op;
    use harness::rng::Rng;
    use harness::step;
    use harness::vals::TestVal;
    use harness::heap::AnySet;
    use ordinal_map::map::total::OrdinalTotalArrayMap;
    use ordinal_map::map::total::OrdinalTotalMap;
    use ordinal_map::map::Entry;
    use ordinal_map::map::OrdinalArrayMap;
    use ordinal_map::map::OrdinalMap;
    use ordinal_map::set::ordinal_array_set_s;
    use ordinal_map::set::OrdinalArraySet;
    use ordinal_map::set::OrdinalSet;
    use ordinal_map::set::OrdinalSet64;

    /// What one call cost.
    #[derive(Clone, Copy, Default, Debug)]
    pub struct Work {
        steps: u64,
        conversions: u64,
    }

    /// The most any call of each operation cost.
    type Worst = BTreeMap<&'static str, Work>;

    fn measure<R>(f: impl FnOnce() -> R) -> (R, Work) {
        let before = keys::calls();
        let (r, steps) = step::steps(f);
        (r, Work { steps, conversions: keys::calls() - before })
    }

    /// Either gathers costs or judges them against those gathered before.
    enum Meter<'a> {
        Gather(&'a mut Worst),
        Judge(&'a Worst, &'a mut Case),
    }

    impl Meter<'_> {
        fn note(&mut self, op: &'static str, w: Work, about: &dyn Fn() -> String) {
            match self {
                Meter::Gather(worst) => {
                    let x = worst.entry(op).or_default();
                    x.steps = x.steps.max(w.steps);
                    x.conversions = x.conversions.max(w.conversions);
                }
                Meter::Judge(worst, case) => {
                    let Some(x) = worst.get(op) else {
                        panic!("{op} was never measured on a small container")
                    };
                    op!("{op} {} -> {w:?}", about());
                    check!(
                        w.conversions <= (2 * x.conversions).max(8),
                        "{op} performed {} key conversions ({} with three keys) {}",
                        w.conversions,
                        x.conversions,
                        about()
                    );
                    check!(
                        w.steps <= 3 * x.steps + 300,
                        "{op} executed {}{} instructions (at most {} with up to three keys) {}",
                        w.steps,
                        if w.steps >= step::LIMIT { " or more" } else { "" },
                        x.steps,
                        about()
                    );
                    case.obs(w.steps ^ w.conversions << 32);
                    case.add("operations measured", 1);
                    case.add("instructions stepped through", w.steps);
                }
            }
        }
    }

    #[derive(Clone, Copy, Debug)]
    enum Fill {
        None,
        One,
        Few,
        Half,
        FirstHalf,
        AllBut(usize),
        All,
    }

    /// How full, or which keys are there.
    fn fill(r: &mut Rng, n: usize) -> Fill {
        match r.below(7) {
            0 => Fill::None,
            1 => Fill::One,
            2 => Fill::Few,
            3 => Fill::Half,
            4 => Fill::FirstHalf,
            5 => Fill::AllBut(r.index(n)),
            _ => Fill::All,
        }
    }

    fn filled(r: &mut Rng, n: usize, f: Fill) -> Vec<usize> {
        match f {
            Fill::None => vec![],
            Fill::One => vec![r.index(n)],
            Fill::Few => (0..20).map(|_| r.index(n)).collect(),
            Fill::Half => (0..n).filter(|i| i % 2 == 0).collect(),
            Fill::FirstHalf => (0..n / 2).collect(),
            Fill::AllBut(x) => (0..n).filter(|&i| i != x).collect(),
            Fill::All => (0..n).collect(),
        }
    }

    fn sparse<M: Sparse>(r: &mut Rng, meter: &mut Meter, ops: usize)
    where
        M::V: TestVal,
    {
        let n = M::K::N;
        let f = fill(r, n);
        let mut m = M::make();
        let mut model = BTreeMap::new();
        // The first insertion may take as long as it likes.
        let at = r.index(n);
        m.insert(M::K::at(at), M::V::mk(7));
        model.insert(at, M::V::norm(7));
        if r.chance(1, 2) {
            m.remove(&M::K::at(at));
            model.remove(&at);
        }
        for i in filled(r, n, f) {
            m.insert(M::K::at(i), M::V::mk(i as u64));
            model.insert(i, M::V::norm(i as u64));
        }
        for _ in 0..ops {
            let i = match r.below(3) {
                0 => model.keys().nth(r.below(5)).copied().unwrap_or(0),
                _ => r.index(n),
            };
            let x = r.u64();
            let k = M::K::at(i);
            let was = model.get(&i).copied();
            let about = || {
                format!(
                    "with {n} keys, {} of them present ({f:?}), key {i} {}, in {} with values {}",
                    model.len(),
                    if was.is_some() { "present" } else { "absent" },
                    M::NAME,
                    M::V::NAME
                )
            };
            match r.below(10) {
                0 => {
                    let (v, w) = measure(|| black_box(m.get(black_box(&k))));
                    check_eq!(v.map(|v| v.rd()), was, "get({i})");
                    meter.note("get", w, &about);
                }
                1 => {
                    let (v, w) = measure(|| black_box(m.get_mut(black_box(&k))));
                    check_eq!(v.map(|v| v.rd()), was, "get_mut({i})");
                    meter.note("get_mut", w, &about);
                }
                2 => {
                    let (v, w) = measure(|| black_box(m.contains_key(black_box(&k))));
                    check_eq!(v, was.is_some(), "contains_key({i})");
                    meter.note("contains_key", w, &about);
                }
                3 | 4 => {
                    let v = M::V::mk(x);
                    let (v, w) = measure(|| black_box(m.insert(black_box(k), black_box(v))));
                    check_eq!(v.map(|v| v.rd()), was, "insert({i})");
                    meter.note("insert", w, &about);
                    model.insert(i, M::V::norm(x));
                }
                5 => {
                    let (v, w) = measure(|| black_box(m.remove(black_box(&k))));
                    check_eq!(v.map(|v| v.rd()), was, "remove({i})");
                    meter.note("remove", w, &about);
                    model.remove(&i);
                }
                6 => {
                    let (e, w) = measure(|| black_box(m.entry(black_box(k))));
                    meter.note("entry", w, &about);
                    let v = M::V::mk(x);
                    match e {
                        Entry::Occupied(e) => {
                            let (v, w) = measure(|| black_box(e.get()));
                            check_eq!(Some(v.rd()), was, "entry({i})");
                            meter.note("OccupiedEntry::get", w, &about);
                        }
                        Entry::Vacant(e) => {
                            check_eq!(was, None, "entry({i})");
                            let (_, w) = measure(|| {
                                black_box(e.insert(black_box(v)));
                            });
                            meter.note("VacantEntry::insert", w, &about);
                            model.insert(i, M::V::norm(x));
                        }
                    }
                }
                7 => {
                    let v = M::V::mk(x);
                    let (_, w) = measure(|| {
                        black_box(m.entry(black_box(k)).or_insert(black_box(v)));
                    });
                    meter.note("entry and or_insert", w, &about);
                    model.entry(i).or_insert(M::V::norm(x));
                }
                8 if r.chance(1, 6) => {
                    m.clear();
                    model.clear();
                }
                8 if r.chance(1, 4) => {
                    // Storage may be laid out anew, but must not be searched afterwards.
                    m = m.clone();
                    if model.is_empty() {
                        m.insert(k, M::V::mk(x));
                        model.insert(i, M::V::norm(x));
                    }
                }
                8 if r.chance(1, 3) => {
                    m.retain(|k, _| k.idx() % 2 == 0);
                    if m.len() != model.len() {
                        model.retain(|k, _| k % 2 == 0);
                    }
                }
                _ => {}
            }
        }
    }

    fn total<M: Total>(r: &mut Rng, meter: &mut Meter, ops: usize)
    where
        M::V: TestVal,
        for<'a> M: IndexMut<&'a M::K> + Index<&'a M::K, Output = M::V>,
    {
        let n = M::K::N;
        let mut m = M::make(|k| M::V::mk(k.idx() as u64));
        let mut model: BTreeMap<usize, u64> = BTreeMap::new();
        for _ in 0..ops {
            let i = r.index(n);
            let x = r.u64();
            let k = M::K::at(i);
            let was = model.get(&i).copied().unwrap_or(M::V::norm(i as u64));
            let about = || format!("with {n} keys, key {i}, in {} with values {}", M::NAME, M::V::NAME);
            match r.below(7) {
                0 => {
                    let (v, w) = measure(|| black_box(m.get(black_box(&k))));
                    check_eq!(v.rd(), was, "get({i})");
                    meter.note("get", w, &about);
                }
                1 => {
                    let (v, w) = measure(|| black_box(m.get_mut(black_box(&k))));
                    check_eq!(v.rd(), was, "get_mut({i})");
                    meter.note("get_mut", w, &about);
                }
                2 => {
                    let (v, w) = measure(|| black_box(&m[black_box(&k)]));
                    check_eq!(v.rd(), was, "index({i})");
                    meter.note("index", w, &about);
                }
                3 => {
                    let (v, w) = measure(|| black_box(&mut m[black_box(&k)]));
                    check_eq!(v.rd(), was, "index_mut({i})");
                    meter.note("index_mut", w, &about);
                }
                4 | 5 => {
                    let v = M::V::mk(x);
                    let (v, w) = measure(|| black_box(m.insert(black_box(k), black_box(v))));
                    check_eq!(v.rd(), was, "insert({i})");
                    meter.note("insert", w, &about);
                    model.insert(i, M::V::norm(x));
                }
                _ => {
                    let (v, w) = measure(|| black_box(m.len()));
                    check_eq!(v, n, "len");
                    meter.note("len", w, &about);
                    let (v, w) = measure(|| black_box(m.is_empty()));
                    check_eq!(v, n == 0, "is_empty");
                    meter.note("is_empty", w, &about);
                }
            }
        }
    }

    fn set<M: AnySet>(r: &mut Rng, meter: &mut Meter, ops: usize) {
        let n = M::T::N;
        let f = fill(r, n);
        let mut s = M::make();
        let mut model: BTreeSet<usize> = BTreeSet::new();
        let never = matches!(f, Fill::None) && r.chance(1, 2);
        if !never {
            let at = r.index(n);
            s.insert(M::T::at(at));
            model.insert(at);
        }
        for i in filled(r, n, f) {
            s.insert(M::T::at(i));
            model.insert(i);
        }
        for _ in 0..ops {
            let i = match r.below(3) {
                0 => model.iter().nth(r.below(5)).copied().unwrap_or(0),
                _ => r.index(n),
            };
            let k = M::T::at(i);
            let was = model.contains(&i);
            let about = || {
                format!(
                    "with {n} possible elements, {} of them in ({f:?}), element {i} {}, in {}",
                    model.len(),
                    if was { "present" } else { "absent" },
                    M::NAME
                )
            };
            if never || r.chance(1, 2) {
                let (v, w) = measure(|| black_box(s.contains(black_box(&k))));
                check_eq!(v, was, "contains({i})");
                meter.note("contains", w, &about);
            } else {
                let (v, w) = measure(|| black_box(s.insert(black_box(k))));
                check_eq!(v, !was, "insert({i})");
                meter.note("insert", w, &about);
                model.insert(i);
            }
            if r.chance(1, 30) {
                s = s.clone();
            }
        }
    }

    fn gather(f: impl Fn(&mut Rng, &mut Meter)) -> Worst {
        let mut worst = Worst::new();
        let mut r = Rng::new(1);
        for _ in 0..12 {
            f(&mut r, &mut Meter::Gather(&mut worst));
        }
        worst
    }

    macro_rules! family {
        ($ctx:expr, $n:expr, $f:ident, $name:expr, small [$($s:ty),* $(,)?] large [$($l:ty),* $(,)?]) => {{
            // Once to have everything lazily set up out of the way.
            let _ = gather(|r, m| { $( $f::<$s>(r, m, 3); )* });
            let worst = gather(|r, m| { $( $f::<$s>(r, m, 25); )* });
            for (op, w) in &worst {
                $ctx.sample(format!("{} {op} with up to three keys: {w:?}", $name));
            }
            $(
                let name = format!("{} {}", $name, stringify!($l));
                $ctx.cases(&name, $n, |r, c| {
                    c.mark();
                    $f::<$l>(r, &mut Meter::Judge(&worst, c), 30);
                });
            )*
        }};
    }

    type AMap<K, V, const S: usize> = OrdinalArrayMap<K, V, S>;
    type ATotal<K, V, const S: usize> = OrdinalTotalArrayMap<K, V, S>;
    type ASet<K, const S: usize> = OrdinalArraySet<K, S>;

    pub fn main() {
        let ctx = Ctx::from_args();
        if !step::install() {
            eprintln!("this machine cannot single-step");
            std::process::exit(3);
        }
        let n = ctx.n(30, 1500);
        family!(ctx, n, sparse, "heap map", small [OrdinalMap<Key<1>, u64>, OrdinalMap<Key<2>, u64>, OrdinalMap<Key<3>, u64>]
            large [OrdinalMap<Key<64>, u64>, OrdinalMap<Key<1000>, u64>, OrdinalMap<Key<20000>, u64>, OrdinalMap<Key<300000>, u64>]);
        family!(ctx, n, sparse, "heap map", small [OrdinalMap<Key<1>, String>, OrdinalMap<Key<2>, String>, OrdinalMap<Key<3>, String>]
            large [OrdinalMap<Key<3000>, String>]);
        family!(ctx, n, sparse, "heap map", small [OrdinalMap<OKey<1>, bool>, OrdinalMap<OKey<2>, bool>, OrdinalMap<OKey<3>, bool>]
            large [OrdinalMap<OKey<2000>, bool>]);
        family!(ctx, n, sparse, "array map", small [AMap<Key<1>, u64, 1>, AMap<Key<2>, u64, 2>, AMap<Key<3>, u64, 3>]
            large [AMap<Key<64>, u64, 64>, AMap<Key<1000>, u64, 1000>, AMap<Key<20000>, u64, 20000>]);
        family!(ctx, n, sparse, "array map", small [AMap<Color, (), { size::<Color>() }>]
            large [AMap<Key<7000>, (), 7000>]);
        family!(ctx, n, total, "heap total map", small [OrdinalTotalMap<Key<1>, u64>, OrdinalTotalMap<Key<2>, u64>, OrdinalTotalMap<Key<3>, u64>]
            large [OrdinalTotalMap<Key<64>, u64>, OrdinalTotalMap<Key<20000>, u64>, OrdinalTotalMap<Key<300000>, u64>]);
        family!(ctx, n, total, "array total map", small [ATotal<Key<1>, u64, 1>, ATotal<Key<2>, u64, 2>, ATotal<Key<3>, u64, 3>]
            large [ATotal<Key<64>, u64, 64>, ATotal<Key<1000>, u64, 1000>, ATotal<Key<20000>, u64, 20000>]);
        family!(ctx, n, set, "set", small [OrdinalSet<Key<1>>, OrdinalSet<Key<2>>, OrdinalSet<Key<3>>]
            large [OrdinalSet<Key<64>>, OrdinalSet<Key<65>>, OrdinalSet<Key<1000>>, OrdinalSet<Key<300000>>]);
        family!(ctx, n, set, "array set", small [ASet<Key<1>, 1>, ASet<Key<2>, 1>, ASet<Key<3>, 1>]
            large [ASet<Key<64>, 1>, ASet<Key<65>, 2>, ASet<Key<1000>, 16>, ASet<Key<100000>, { ordinal_array_set_s::<Key<100000>>() }>]);
        family!(ctx, n, set, "single-word set", small [OrdinalSet64<Key<1>>, OrdinalSet64<Key<2>>, OrdinalSet64<Key<3>>]
            large [OrdinalSet64<Key<63>>, OrdinalSet64<Key<64>>]);
        ctx.finish();
    }
}

#[cfg(not(all(target_arch = "x86_64", target_os = "linux", not(miri))))]
mod main {
    pub fn main() {}
}

fn main() {
    main::main();
}
