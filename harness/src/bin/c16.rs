//! C16: the atomic cell honours the memory ordering it is given.
//!
//! Litmus programs. Plain (non-atomic) memory written before a releasing operation is
//! read after an acquiring one: Miri and ThreadSanitizer report a race if the promised
//! edge is missing, and the values read are checked everywhere.
use std::cell::UnsafeCell;
use std::sync::atomic::AtomicU64;
use std::sync::atomic::AtomicUsize;
use std::sync::atomic::Ordering;
use std::sync::atomic::Ordering::*;

use harness::mon::violate;
use harness::mon::Case;
use harness::mon::Ctx;
use harness::op;
use harness::rng::Rng;
use ordinal_map::AtomicOrdinal;
use ordinal_map::Ordinal;

#[derive(Ordinal, Clone, Copy, PartialEq, Debug)]
enum Flag {
    Idle,
    Ready,
    Taken,
    Never,
}
use Flag::*;

/// Plain memory shared between threads.
struct Plain(UnsafeCell<[u64; 3]>);
unsafe impl Sync for Plain {}

impl Plain {
    fn new() -> Plain {
        Plain(UnsafeCell::new([0; 3]))
    }
    #[inline(never)]
    fn set(&self, i: usize, v: u64) {
        unsafe { (*self.0.get())[i] = v }
    }
    #[inline(never)]
    fn get(&self, i: usize) -> u64 {
        unsafe { (*self.0.get())[i] }
    }
}

/// Ways to release the flag.
#[derive(Clone, Copy, Debug)]
enum Out {
    Store(Ordering),
    Cas(Ordering, Ordering),
}

/// Ways to acquire it.
#[derive(Clone, Copy, Debug)]
enum In {
    Load(Ordering),
    /// Succeeds on the released value.
    Cas(Ordering, Ordering),
    /// Reads it by failing.
    Fail(Ordering, Ordering),
}

const ANY: [Ordering; 5] = [Relaxed, Acquire, Release, AcqRel, SeqCst];
const READ: [Ordering; 3] = [Relaxed, Acquire, SeqCst];

fn outs() -> Vec<Out> {
    let mut v = vec![Out::Store(Release), Out::Store(SeqCst)];
    for s in [Release, AcqRel, SeqCst] {
        v.extend(READ.map(|f| Out::Cas(s, f)));
    }
    v
}

fn ins() -> Vec<In> {
    let mut v = vec![In::Load(Acquire), In::Load(SeqCst)];
    for s in [Acquire, AcqRel, SeqCst] {
        v.extend(READ.map(|f| In::Cas(s, f)));
    }
    for f in [Acquire, SeqCst] {
        v.extend(ANY.map(|s| In::Fail(s, f)));
    }
    v
}

fn release(c: &AtomicOrdinal<Flag>, from: Flag, to: Flag, how: Out) {
    match how {
        Out::Store(o) => c.store(to, o),
        Out::Cas(s, f) => loop {
            match c.compare_exchange(from, to, s, f) {
                Ok(_) => break,
                // Someone else's idle flag.
                Err(_) => wait(),
            }
        },
    }
}

/// True once it read `want`.
fn acquired(c: &AtomicOrdinal<Flag>, want: Flag, to: Flag, how: In) -> bool {
    match how {
        In::Load(o) => c.load(o) == want,
        In::Cas(s, f) => c.compare_exchange(want, to, s, f) == Ok(want),
        In::Fail(s, f) => match c.compare_exchange(Never, Never, s, f) {
            Ok(v) => violate(format!("exchanged {v:?}, which was never stored")),
            Err(v) => v == want,
        },
    }
}

fn wait() {
    if cfg!(miri) {
        std::thread::yield_now();
    } else {
        std::hint::spin_loop();
    }
}

fn spin(until: impl Fn() -> bool) {
    let mut n = 0u64;
    while !until() {
        n += 1;
        if n % 200 == 0 {
            std::thread::yield_now();
        } else {
            wait();
        }
    }
}

fn join<T>(h: std::thread::ScopedJoinHandle<'_, T>) -> T {
    h.join().unwrap_or_else(|p| std::panic::resume_unwind(p))
}

fn stagger(rng: &mut Rng) -> u64 {
    rng.u64() % 60
}

fn delay(n: u64) {
    for _ in 0..n {
        if cfg!(miri) {
            if n > 50 {
                std::thread::yield_now();
            }
        } else {
            std::hint::spin_loop();
        }
    }
}

/// Message passing: data, then flag; flag, then data.
fn message(rng: &mut Rng, case: &mut Case, out: Out, inn: In, rounds: usize) {
    let flags: Vec<AtomicOrdinal<Flag>> = (0..rounds).map(|_| AtomicOrdinal::new(Idle)).collect();
    let data: Vec<Plain> = (0..rounds).map(|_| Plain::new()).collect();
    let (d1, d2) = (stagger(rng), stagger(rng));
    op!("{out:?} -> {inn:?}");
    std::thread::scope(|s| {
        let w = s.spawn(|| {
            for i in 0..rounds {
                delay(d1);
                data[i].set(0, i as u64 + 1);
                data[i].set(1, i as u64 ^ 0x55);
                release(&flags[i], Idle, Ready, out);
            }
        });
        let r = s.spawn(|| {
            for i in 0..rounds {
                delay(d2);
                spin(|| acquired(&flags[i], Ready, Taken, inn));
                let (a, b) = (data[i].get(0), data[i].get(1));
                if (a, b) != (i as u64 + 1, i as u64 ^ 0x55) {
                    violate(format!("{out:?} then {inn:?}: read stale data {a}, {b} in round {i}"));
                }
            }
        });
        join(w);
        join(r);
    });
    case.obs_str(&format!("{out:?}{inn:?}"));
    case.obs(d1 << 8 | d2);
    case.mark();
    case.add("messages passed", rounds as u64);
}

/// Three threads: the middle one only relays with a relaxed exchange (release sequence)
/// or with an acquiring and releasing one (transitivity).
fn relay(rng: &mut Rng, case: &mut Case, out: Out, mid: (Ordering, Ordering), inn: In, rounds: usize) {
    let flags: Vec<AtomicOrdinal<Flag>> = (0..rounds).map(|_| AtomicOrdinal::new(Idle)).collect();
    let data: Vec<Plain> = (0..rounds).map(|_| Plain::new()).collect();
    let transitive = matches!(mid.0, AcqRel | SeqCst);
    let (d1, d2) = (stagger(rng), stagger(rng));
    op!("{out:?} -> {mid:?} -> {inn:?}");
    std::thread::scope(|s| {
        let a = s.spawn(|| {
            for i in 0..rounds {
                delay(d1);
                data[i].set(0, 7);
                release(&flags[i], Idle, Ready, out);
            }
        });
        let b = s.spawn(|| {
            for i in 0..rounds {
                if transitive {
                    data[i].set(1, 9);
                }
                spin(|| flags[i].compare_exchange(Ready, Taken, mid.0, mid.1) == Ok(Ready));
                if transitive && data[i].get(0) != 7 {
                    violate(format!("exchange with {mid:?} after {out:?} read stale data"));
                }
            }
        });
        let c = s.spawn(|| {
            for i in 0..rounds {
                delay(d2);
                spin(|| acquired(&flags[i], Taken, Never, inn));
                if data[i].get(0) != 7 || transitive && data[i].get(1) != 9 {
                    violate(format!("{out:?}, {mid:?}, {inn:?}: read stale data in round {i}"));
                }
            }
        });
        join(a);
        join(b);
        join(c);
    });
    case.obs_str(&format!("{out:?}{mid:?}{inn:?}"));
    case.obs(d1 << 8 | d2);
    case.mark();
    case.add("messages relayed", rounds as u64);
}

/// A lock made of one cell protects plain memory.
fn lock(rng: &mut Rng, case: &mut Case, rounds: usize) {
    let cell = AtomicOrdinal::new(false);
    let data = Plain::new();
    let threads = rng.range(2, if cfg!(miri) { 3 } else { 4 });
    let take = *rng.pick(&[Acquire, AcqRel, SeqCst]);
    let fail = *rng.pick(&READ);
    let give = *rng.pick(&[Release, SeqCst]);
    let by_cas = rng.chance(1, 2);
    op!("{threads} threads, lock {take:?}/{fail:?}, unlock {give:?} by exchange: {by_cas}");
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                s.spawn(|| {
                    for _ in 0..rounds {
                        spin(|| cell.compare_exchange(false, true, take, fail).is_ok());
                        data.set(0, data.get(0) + 1);
                        if by_cas {
                            if cell.compare_exchange(true, false, give, fail) != Ok(true) {
                                violate("the lock was not held by its holder".into());
                            }
                        } else {
                            cell.store(false, give);
                        }
                    }
                })
            })
            .collect();
        hs.into_iter().for_each(join);
        spin(|| !cell.load(Acquire));
        if data.get(0) != (threads * rounds) as u64 {
            violate(format!("{} increments under the lock, {} counted", threads * rounds, data.get(0)));
        }
    });
    case.obs_str(&format!("{threads}{take:?}{fail:?}{give:?}{by_cas}"));
    case.mark();
    case.add("critical sections", (threads * rounds) as u64);
}

/// All threads start together.
struct Gate(AtomicUsize);

impl Gate {
    fn pass(&self, n: usize) {
        self.0.fetch_add(1, SeqCst);
        let mut i = 0u64;
        while self.0.load(SeqCst) < n {
            i += 1;
            if cfg!(miri) || i % 1000 == 0 {
                std::thread::yield_now();
            }
        }
    }
}

/// Store buffering: with sequentially consistent operations at least one thread sees
/// the other's store.
fn buffering(rng: &mut Rng, case: &mut Case, kind: usize, rounds: usize) {
    let x: Vec<AtomicOrdinal<Flag>> = (0..rounds).map(|_| AtomicOrdinal::new(Idle)).collect();
    let y: Vec<AtomicOrdinal<Flag>> = (0..rounds).map(|_| AtomicOrdinal::new(Idle)).collect();
    let gates: Vec<Gate> = (0..rounds).map(|_| Gate(AtomicUsize::new(0))).collect();
    let write = |c: &AtomicOrdinal<Flag>| match kind {
        0 | 1 => c.store(Ready, SeqCst),
        _ => {
            let _ = c.compare_exchange(Idle, Ready, SeqCst, SeqCst);
        }
    };
    let read = |c: &AtomicOrdinal<Flag>| match kind {
        0 | 2 => c.load(SeqCst),
        _ => match c.compare_exchange(Never, Never, SeqCst, SeqCst) {
            Ok(v) | Err(v) => v,
        },
    };
    let skew = rng.u64() % 8;
        let run = |mine: &[AtomicOrdinal<Flag>], theirs: &[AtomicOrdinal<Flag>], skew: u64| {
            let mut seen = Vec::with_capacity(rounds);
            for i in 0..rounds {
                gates[i].pass(2);
                delay(skew);
                write(&mine[i]);
                seen.push(read(&theirs[i]));
            }
            seen
        };
    let (a, b) = std::thread::scope(|s| {
        let a = s.spawn(|| run(&x, &y, skew));
        let b = s.spawn(|| run(&y, &x, 0));
        (join(a), join(b))
    });
    for i in 0..rounds {
        match (a[i], b[i]) {
            (Idle, Idle) => violate(format!(
                "store buffering with SeqCst operations (kind {kind}): in round {i} neither thread saw the other's store"
            )),
            (Idle, _) => case.count("first thread first"),
            (_, Idle) => case.count("second thread first"),
            _ => case.count("both saw both"),
        }
        case.obs(a[i].ordinal() as u64 * 4 + b[i].ordinal() as u64);
    }
    case.mark();
}

/// Independent reads of independent writes: two observers agree on the order of two
/// sequentially consistent stores.
fn iriw(rng: &mut Rng, case: &mut Case, rounds: usize) {
    let x: Vec<AtomicOrdinal<Flag>> = (0..rounds).map(|_| AtomicOrdinal::new(Idle)).collect();
    let y: Vec<AtomicOrdinal<Flag>> = (0..rounds).map(|_| AtomicOrdinal::new(Idle)).collect();
    let gates: Vec<Gate> = (0..rounds).map(|_| Gate(AtomicUsize::new(0))).collect();
    let by_cas = rng.chance(1, 2);
        let write = |c: &[AtomicOrdinal<Flag>]| {
            for i in 0..rounds {
                gates[i].pass(4);
                if by_cas {
                    let _ = c[i].compare_exchange(Idle, Ready, SeqCst, SeqCst);
                } else {
                    c[i].store(Ready, SeqCst);
                }
            }
        };
        let read = |c: &[AtomicOrdinal<Flag>], d: &[AtomicOrdinal<Flag>]| {
            let mut seen = Vec::new();
            for i in 0..rounds {
                gates[i].pass(4);
                let a = c[i].load(SeqCst);
                let b = d[i].load(SeqCst);
                seen.push((a, b));
            }
            seen
        };
    let (p, q) = std::thread::scope(|s| {
        let w = s.spawn(|| write(&x));
        let v = s.spawn(|| write(&y));
        let p = s.spawn(|| read(&x, &y));
        let q = s.spawn(|| read(&y, &x));
        join(w);
        join(v);
        (join(p), join(q))
    });
    for i in 0..rounds {
        if p[i] == (Ready, Idle) && q[i] == (Ready, Idle) {
            violate(format!("round {i}: two threads saw two SeqCst stores in opposite orders"));
        }
        if p[i] == (Ready, Idle) || q[i] == (Ready, Idle) {
            case.count("orders observed");
        }
        case.obs(p[i].0.ordinal() as u64 * 64 + p[i].1.ordinal() as u64 * 16 + q[i].0.ordinal() as u64 * 4 + q[i].1.ordinal() as u64);
    }
    case.mark();
}

/// Writing the value that is already there is a write all the same: whoever exchanges
/// it afterwards reads from that write. Which came first shows in the final value
/// (store) or in the result (exchange).
fn same_value(rng: &mut Rng, case: &mut Case, out: Out, take: (Ordering, Ordering), rounds: usize) {
    let cells: Vec<AtomicOrdinal<Flag>> = (0..rounds).map(|_| AtomicOrdinal::new(Ready)).collect();
    let data: Vec<AtomicU64> = (0..rounds).map(|_| AtomicU64::new(0)).collect();
    let (d1, d2) = (stagger(rng), stagger(rng));
    op!("{out:?} of the same value, then exchange {take:?}");
    let (wrote, read) = std::thread::scope(|s| {
        let a = s.spawn(|| {
            let mut wrote = Vec::new();
            for i in 0..rounds {
                delay(d1);
                data[i].store(1, Relaxed);
                wrote.push(match out {
                    Out::Store(o) => {
                        cells[i].store(Ready, o);
                        Ok(Ready)
                    }
                    Out::Cas(s, f) => cells[i].compare_exchange(Ready, Ready, s, f),
                });
            }
            wrote
        });
        let b = s.spawn(|| {
            let mut read = Vec::new();
            for i in 0..rounds {
                delay(d2);
                let r = cells[i].compare_exchange(Ready, Taken, take.0, take.1);
                let d = data[i].load(Relaxed);
                read.push((r, d));
            }
            read
        });
        (join(a), join(b))
    });
    for i in 0..rounds {
        let (r, d) = read[i];
        if r != Ok(Ready) {
            violate(format!("exchange of the only value ever there: {r:?}"));
        }
        let first = match out {
            Out::Store(_) => cells[i].load(SeqCst) == Taken,
            Out::Cas(..) => wrote[i] == Ok(Ready),
        };
        if first {
            case.count("same values exchanged");
            if d != 1 {
                violate(format!(
                    "{out:?} of the value already there came before the exchange with {take:?}, which read stale data"
                ));
            }
        }
        case.obs(first as u64);
    }
    case.obs(d1 << 8 | d2);
    case.mark();
}

/// Every legal pair of orderings is accepted, whatever the outcome.
fn legal(case: &mut Case) {
    for s in ANY {
        for f in READ {
            let c = AtomicOrdinal::new(Idle);
            let r = c.compare_exchange(Idle, Ready, s, f);
            if r != Ok(Idle) {
                violate(format!("exchange with {s:?}, {f:?}: {r:?}"));
            }
            let r = c.compare_exchange(Idle, Taken, s, f);
            if r != Err(Ready) {
                violate(format!("failing exchange with {s:?}, {f:?}: {r:?}"));
            }
            case.count("ordering pairs");
            case.obs(1);
        }
    }
    for o in READ {
        let c = AtomicOrdinal::new(Taken);
        if c.load(o) != Taken {
            violate(format!("load with {o:?}"));
        }
    }
    for o in [Relaxed, Release, SeqCst] {
        let c = AtomicOrdinal::new(Taken);
        c.store(Ready, o);
        if c.load(Relaxed) != Ready {
            violate(format!("store with {o:?}"));
        }
    }
    case.mark();
}

fn main() {
    let mut ctx = Ctx::from_args();
    // Each case has several threads of its own.
    if !cfg!(miri) {
        ctx.threads = 2;
    }
    let args: Vec<String> = std::env::args().collect();
    let salt = args
        .iter()
        .position(|a| a == "--salt")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    // Under ThreadSanitizer: fewer rounds, the detector needs one.
    let tsan = args.iter().any(|a| a == "--short");
    let name = |s: &str| format!("{s}{salt}");
    ctx.cases(&name("legal orderings"), 1, |_, c| legal(c));
    let (outs, ins) = (outs(), ins());
    let pairs: Vec<(Out, In)> = outs.iter().flat_map(|o| ins.iter().map(|i| (*o, *i))).collect();
    let rounds = if cfg!(miri) { 2 } else if tsan { 40 } else { ctx.n(1500, 20_000) };
    // Which schedule runs hardly matters to a race detector here, unlike below.
    if salt.is_empty() {
        ctx.cases(&name("message passing"), pairs.len(), |r, c| {
            let (o, i) = pairs[c.index];
            message(r, c, o, i, rounds)
        });
    }
    let mut chains = Vec::new();
    for o in [Out::Store(Release), Out::Store(SeqCst), Out::Cas(Release, Relaxed), Out::Cas(AcqRel, Acquire)] {
        for m in ANY.iter().flat_map(|s| READ.map(|f| (*s, f))) {
            for i in [In::Load(Acquire), In::Fail(Relaxed, Acquire), In::Cas(Acquire, Relaxed)] {
                chains.push((o, m, i));
            }
        }
    }
    let n = if cfg!(miri) { ctx.n(2400, 18_000) * 6 } else { chains.len() };
    ctx.cases(&name("relay"), n, |r, c| {
        let (o, m, i) = if cfg!(miri) { *r.pick(&chains) } else { chains[c.index] };
        relay(r, c, o, m, i, rounds)
    });
    let outs = &outs;
    let takes = [Acquire, AcqRel, SeqCst];
    let n = if cfg!(miri) { ctx.n(600, 4000) * 8 } else { outs.len() * 3 };
    ctx.cases(&name("same value"), n, |r, c| {
        let o = if cfg!(miri) { *r.pick(outs) } else { outs[c.index / 3] };
        let how = (takes[c.index % 3], *r.pick(&READ));
        same_value(r, c, o, how, if cfg!(miri) { 4 } else { rounds })
    });
    let n = if cfg!(miri) { ctx.n(600, 4000) } else { ctx.n(300, 3000) };
    ctx.cases(&name("lock"), n, |r, c| lock(r, c, if cfg!(miri) { 3 } else if tsan { 100 } else { 2000 }));
    let rounds = if cfg!(miri) { 6 } else if tsan { 100 } else { 20_000 };
    let n = if cfg!(miri) { ctx.n(800, 2000) * 10 } else if tsan { 4 } else { ctx.n(300, 3000) };
    ctx.cases(&name("store buffering"), n, |r, c| buffering(r, c, c.index % 4, rounds));
    let n = if cfg!(miri) { ctx.n(600, 1500) * 6 } else if tsan { 2 } else { ctx.n(150, 1500) };
    let rounds = if cfg!(miri) { 4 } else if tsan { 50 } else { 2000 };
    ctx.cases(&name("independent reads"), n, |r, c| iriw(r, c, rounds));
    ctx.finish();
}
