//! C15: the atomic cell is linearizable.
use std::collections::HashMap;
use std::fmt::Debug;
#[cfg(target_pointer_width = "64")]
use std::num::NonZeroI64;
#[cfg(target_pointer_width = "64")]
use std::num::NonZeroU64;
use std::num::NonZeroU8;
use std::sync::atomic::AtomicU64;
use std::sync::atomic::AtomicUsize;
use std::sync::atomic::Ordering;
use std::sync::atomic::Ordering::*;

use either::Either;
use harness::check;
use harness::check_eq;
use harness::keys::Key;
use harness::lin;
use harness::lin::Call;
use harness::lin::Event;
use harness::model::Model;
use harness::mon;
use harness::mon::violate;
use harness::mon::Case;
use harness::mon::Ctx;
use harness::op;
use harness::rng::Rng;
use ordinal_map::AtomicOrdinal;
use ordinal_map::Ordinal;

const LOAD: [Ordering; 3] = [Relaxed, Acquire, SeqCst];
const STORE: [Ordering; 3] = [Relaxed, Release, SeqCst];
const BOTH: [Ordering; 5] = [Relaxed, Acquire, Release, AcqRel, SeqCst];

#[derive(Ordinal, Clone, Copy, PartialEq, Debug)]
enum Shape {
    Dot,
    Line(bool),
    Box { wide: bool, tall: Option<bool> },
}

impl Model for Shape {
    fn size() -> u128 {
        9
    }
    fn make(r: u128) -> Self {
        match r {
            0 => Shape::Dot,
            1 | 2 => Shape::Line(r == 2),
            _ => Shape::Box {
                wide: r >= 6,
                tall: [None, Some(false), Some(true)][(r % 3) as usize],
            },
        }
    }
    fn rank(&self) -> u128 {
        match *self {
            Shape::Dot => 0,
            Shape::Line(b) => 1 + b as u128,
            Shape::Box { wide, tall } => {
                3 + wide as u128 * 3 + tall.map_or(0, |t| 1 + t as u128)
            }
        }
    }
    fn show(&self) -> String {
        format!("{self:?}")
    }
}

/// Ranks worth using: the edges of large types.
fn value(rng: &mut Rng, size: u128) -> u128 {
    match rng.below(4) {
        0 => rng.u64() as u128 % size,
        1 => (rng.below(3) as u128) % size,
        2 => size - 1 - rng.below(3) as u128 % size,
        _ => ((1u128 << rng.below(64)) + rng.below(3) as u128).wrapping_sub(1) % size,
    }
}

fn sequential<T: Model + Debug>(rng: &mut Rng, case: &mut Case) {
    let n = T::size();
    let mut now = value(rng, n);
    let mut cell = AtomicOrdinal::new(T::make(now));
    op!("new({})", T::make(now).show());
    case.obs(now as u64);
    let steps = if mon::small() { 12 } else { 60 };
    for _ in 0..steps {
        match rng.below(10) {
            0..=2 => {
                let o = *rng.pick(&LOAD);
                let v = cell.load(o);
                op!("load({o:?}) = {}", v.show());
                check_eq!(v.rank(), now, "rank of the value loaded with {o:?}");
                case.obs(1);
            }
            3..=4 => {
                let o = *rng.pick(&STORE);
                let v = value(rng, n);
                op!("store({}, {o:?})", T::make(v).show());
                cell.store(T::make(v), o);
                now = v;
                case.obs(v as u64);
            }
            5..=8 => {
                let (s, f) = (*rng.pick(&BOTH), *rng.pick(&LOAD));
                let old = if rng.chance(1, 2) { now } else { value(rng, n) };
                let new = value(rng, n);
                op!("compare_exchange({}, {}, {s:?}, {f:?})", T::make(old).show(), T::make(new).show());
                let r = cell.compare_exchange(T::make(old), T::make(new), s, f);
                let r = r.map(|v| v.rank()).map_err(|v| v.rank());
                if old == now {
                    check_eq!(r, Ok(now), "result of an exchange that must succeed ({s:?}, {f:?})");
                    now = new;
                    case.obs(new as u64);
                } else {
                    check_eq!(r, Err(now), "result of an exchange that must fail ({s:?}, {f:?})");
                    case.obs(2);
                }
            }
            _ => {
                let v = T::make(now);
                check_eq!(format!("{cell:?}"), format!("{v:?}"), "Debug of the cell");
                check_eq!(format!("{cell:#?}"), format!("{v:#?}"), "alternate Debug of the cell");
                check_eq!(format!("{cell:12?}|{cell:<5?}"), format!("{v:12?}|{v:<5?}"), "padded Debug of the cell");
                case.obs(3);
                // Moving the cell keeps its value.
                cell = *Box::new(cell);
            }
        }
    }
    check_eq!(cell.load(Relaxed).rank(), now, "value at the end");
    case.mark();
}

// -------------------------------------------------------------- concurrent

static CLOCK: AtomicU64 = AtomicU64::new(0);

fn tick() -> u64 {
    CLOCK.fetch_add(1, SeqCst)
}

#[derive(Clone, Copy)]
enum Plan {
    Load(Ordering),
    Store(u128, Ordering),
    Cas(u128, u128, Ordering, Ordering),
    /// Exchange what the last load or exchange returned.
    CasSeen(u128, Ordering, Ordering),
}

fn pause(n: u64) {
    match n {
        0..=3 => {}
        4 => std::thread::yield_now(),
        _ => {
            if !cfg!(miri) {
                for _ in 0..n * 3 {
                    std::hint::spin_loop();
                }
            }
        }
    }
}

/// `unique`: every written value is written once, which makes reads identify writes.
fn concurrent<T: Model + Send + Sync>(rng: &mut Rng, case: &mut Case, unique: bool) {
    let threads = rng.range(2, 4);
    let per = if mon::small() { rng.range(2, 5) } else { rng.range(3, 12) };
    let n = T::size();
    let mut next = 1u128;
    let mut fresh = |rng: &mut Rng| {
        if unique {
            next += 1;
            (next * 7919) % n
        } else {
            rng.u64() as u128 % n
        }
    };
    // Same place in memory orders for all, or mixed.
    let init = if unique { 0 } else { rng.u64() as u128 % n };
    let mut plans: Vec<Vec<(Plan, u64)>> = Vec::new();
    let mut written = vec![init];
    for _ in 0..threads {
        let mut p = Vec::new();
        for _ in 0..per {
            let (s, f) = (*rng.pick(&BOTH), *rng.pick(&LOAD));
            let what = match rng.below(10) {
                0..=2 => Plan::Load(f),
                3 | 4 => {
                    let v = fresh(rng);
                    written.push(v);
                    Plan::Store(v, *rng.pick(&STORE))
                }
                5..=7 => {
                    let v = fresh(rng);
                    written.push(v);
                    Plan::CasSeen(v, s, f)
                }
                _ => {
                    let old = *rng.pick(&written);
                    let v = fresh(rng);
                    written.push(v);
                    Plan::Cas(old, v, s, f)
                }
            };
            p.push((what, rng.u64() % 40));
        }
        plans.push(p);
    }
    let cell = AtomicOrdinal::new(T::make(init));
    let ready = AtomicUsize::new(0);
    let mut events: Vec<Event> = std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .iter()
            .enumerate()
            .map(|(thread, plan)| {
                let (cell, ready) = (&cell, &ready);
                s.spawn(move || {
                    let mut log = Vec::with_capacity(plan.len());
                    ready.fetch_add(1, SeqCst);
                    let mut spins = 0;
                    while ready.load(Relaxed) < threads {
                        std::hint::spin_loop();
                        spins += 1;
                        if cfg!(miri) || spins > 300 {
                            std::thread::yield_now();
                        }
                    }
                    let mut seen = init;
                    for (p, delay) in plan {
                        pause(*delay);
                        // Values are built and taken apart outside the measured time,
                        // except where the cell does it.
                        let (start, call, end);
                        match *p {
                            Plan::Load(o) => {
                                start = tick();
                                let v = cell.load(o);
                                end = tick();
                                seen = v.rank();
                                call = Call::Load(seen);
                            }
                            Plan::Store(v, o) => {
                                let x = T::make(v);
                                start = tick();
                                cell.store(x, o);
                                end = tick();
                                call = Call::Store(v);
                            }
                            Plan::Cas(..) | Plan::CasSeen(..) => {
                                let (old, new, s, f) = match *p {
                                    Plan::Cas(old, new, s, f) => (old, new, s, f),
                                    Plan::CasSeen(new, s, f) => (seen, new, s, f),
                                    _ => unreachable!(),
                                };
                                let (a, b) = (T::make(old), T::make(new));
                                start = tick();
                                let r = cell.compare_exchange(a, b, s, f);
                                end = tick();
                                let r = r.map(|v| v.rank()).map_err(|v| v.rank());
                                seen = match r {
                                    Ok(_) => new,
                                    Err(v) => v,
                                };
                                call = Call::Cas(old, new, r);
                            }
                        }
                        log.push(Event { thread, call, start, end });
                    }
                    log
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    let start = tick();
    let v = cell.load(SeqCst).rank();
    events.push(Event { thread: threads, call: Call::Load(v), start, end: tick() });
    events.sort_by_key(|e| e.start);
    for e in &events {
        op!("thread {} [{}, {}] {:?}", e.thread, e.start, e.end, e.call);
    }
    if lin::linearize(init, &events).is_none() {
        let text: Vec<String> = events
            .iter()
            .map(|e| format!("T{}[{},{}] {:?}", e.thread, e.start, e.end, e.call))
            .collect();
        violate(format!("no sequential order explains this history from {init}: {}", text.join("; ")));
    }
    // Which interleaving it was: the order of starts and ends.
    let base = events[0].start;
    for e in &events {
        case.obs((e.start - base).min(1 << 20) << 8 | e.thread as u64);
        case.obs(match e.call {
            Call::Load(v) => v as u64,
            Call::Store(v) => v as u64 ^ 0x5555,
            Call::Cas(_, _, Ok(v)) => v as u64 ^ 0xaaaa,
            Call::Cas(_, _, Err(v)) => v as u64 ^ 0xffff,
        });
        match e.call {
            Call::Cas(_, _, Ok(_)) => case.count("successful exchanges"),
            Call::Cas(_, _, Err(_)) => case.count("failed exchanges"),
            Call::Load(_) => case.count("loads"),
            Call::Store(_) => case.count("stores"),
        }
    }
    let o = lin::overlaps(&events);
    case.add("overlapping pairs of calls", o);
    if o > 0 {
        case.mark();
    }
}

// ------------------------------------------------------------ conservation

/// Every thread adds one `rounds` times by exchange: no addition may be lost, and each
/// value is left by exactly one successful exchange.
fn counter<T: Model + Send + Sync>(rng: &mut Rng, case: &mut Case, rounds: usize) {
    let threads = rng.range(2, 6);
    let (s, f) = (*rng.pick(&BOTH), *rng.pick(&LOAD));
    let cell = AtomicOrdinal::new(T::make(0));
    op!("{threads} threads, {rounds} rounds, {s:?}, {f:?}");
    let logs: Vec<(Vec<u128>, u64)> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let cell = &cell;
                sc.spawn(move || {
                    let mut won = Vec::with_capacity(rounds);
                    let mut lost = 0;
                    let mut v = cell.load(f).rank();
                    while won.len() < rounds {
                        match cell.compare_exchange(T::make(v), T::make(v + 1), s, f) {
                            Ok(p) => {
                                if p.rank() != v {
                                    violate(format!("Ok({}) from an exchange of {v}", p.rank()));
                                }
                                won.push(v);
                                v += 1;
                            }
                            Err(p) => {
                                let p = p.rank();
                                if p == v {
                                    violate(format!("exchange of {v} failed although {p} was there"));
                                }
                                lost += 1;
                                v = p;
                            }
                        }
                    }
                    (won, lost)
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|p| std::panic::resume_unwind(p)))
            .collect()
    });
    let mut by: HashMap<u128, usize> = HashMap::new();
    for (t, (won, lost)) in logs.iter().enumerate() {
        case.add("failed exchanges", *lost);
        case.obs(*lost);
        for v in won {
            if let Some(u) = by.insert(*v, t) {
                violate(format!("threads {u} and {t} both exchanged {v} for {}", v + 1));
            }
        }
    }
    check_eq!(cell.load(SeqCst).rank(), (threads * rounds) as u128, "sum of all additions");
    check_eq!(by.len(), threads * rounds, "values exchanged");
    case.add("successful exchanges", by.len() as u64);
    case.mark();
}

/// One thread stores rising values: readers never see them fall (coherence).
fn rising<T: Model + Send + Sync>(rng: &mut Rng, case: &mut Case, rounds: usize) {
    let (o, s) = (*rng.pick(&LOAD), *rng.pick(&STORE));
    let cell = AtomicOrdinal::new(T::make(0));
    let seen: Vec<u64> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..3)
            .map(|i| {
                let cell = &cell;
                sc.spawn(move || {
                    let mut last = 0;
                    let mut distinct = 0;
                    for _ in 0..rounds {
                        let v = if i == 0 {
                            // A failing exchange reads as well.
                            match cell.compare_exchange(T::make(T::size() - 1), T::make(0), AcqRel, o) {
                                Ok(_) => violate("exchanged a value that was never stored".into()),
                                Err(v) => v.rank(),
                            }
                        } else {
                            cell.load(o).rank()
                        };
                        if v < last {
                            violate(format!("read {v} after {last}, though only rising values are stored"));
                        }
                        distinct += (v != last) as u64;
                        last = v;
                    }
                    distinct
                })
            })
            .collect();
        for v in 1..=rounds as u128 {
            cell.store(T::make(v), s);
        }
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|p| std::panic::resume_unwind(p)))
            .collect()
    });
    for d in seen {
        case.add("distinct values read", d);
        case.obs(d);
    }
    check_eq!(cell.load(Relaxed).rank(), rounds as u128, "last value");
    case.mark();
}

macro_rules! sequentials {
    ($ctx:expr, $n:expr; $($t:ty,)*) => {
        $( $ctx.cases(&format!("sequential {}", stringify!($t)), $n, |r, c| sequential::<$t>(r, c)); )*
    };
}

fn main() {
    let ctx = Ctx::from_args();
    let args: Vec<String> = std::env::args().collect();
    let salt = args
        .iter()
        .position(|a| a == "--salt")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    check!(CLOCK.load(Relaxed) == 0, "clock");
    let n = if cfg!(miri) { 1 } else { ctx.n(300, 10_000) };
    sequentials!(ctx, n;
        (), bool, std::cmp::Ordering, u8, i8, u16, i16, char, NonZeroU8, Option<bool>, Result<u8, bool>, Either<i8, ()>,
        (bool, u8, Option<i8>), [bool; 5], Box<i8>, Shape, Key<1>, Key<2>, Key<64>, Key<65>, Key<300>, Option<()>, Option<std::convert::Infallible>,
    );
    #[cfg(target_pointer_width = "64")]
    sequentials!(ctx, n;
        u32, i32, NonZeroU64, NonZeroI64, Option<u32>, (u32, u16), Key<{ usize::MAX }>, [u8; 7],
    );
    let n = if cfg!(miri) { ctx.n(400, 3000) * 3 } else { ctx.n(2500, 100_000) };
    ctx.cases(&format!("unique values u16{salt}"), n, |r, c| concurrent::<u16>(r, c, true));
    ctx.cases(&format!("unique values i16{salt}"), n, |r, c| concurrent::<i16>(r, c, true));
    ctx.cases(&format!("unique values char{salt}"), n, |r, c| concurrent::<char>(r, c, true));
    ctx.cases(&format!("unique values (u8, Option<bool>, i8){salt}"), n, |r, c| concurrent::<(u8, Option<bool>, i8)>(r, c, true));
    ctx.cases(&format!("few values Shape{salt}"), n, |r, c| concurrent::<Shape>(r, c, false));
    ctx.cases(&format!("few values Option<bool>{salt}"), n, |r, c| concurrent::<Option<bool>>(r, c, false));
    ctx.cases(&format!("few values bool{salt}"), n, |r, c| concurrent::<bool>(r, c, false));
    let (n, rounds) = if cfg!(miri) { (2, 4) } else { (ctx.n(150, 2500), 3000) };
    ctx.cases(&format!("counter u16{salt}"), n, |r, c| counter::<u16>(r, c, rounds));
    ctx.cases(&format!("counter (u8, i16){salt}"), n, |r, c| counter::<(u8, i16)>(r, c, rounds));
    ctx.cases(&format!("counter char{salt}"), n, |r, c| counter::<char>(r, c, rounds));
    ctx.cases(&format!("rising u16{salt}"), n, |r, c| rising::<u16>(r, c, rounds));
    ctx.cases(&format!("rising char{salt}"), n, |r, c| rising::<char>(r, c, rounds));
    ctx.finish();
}
