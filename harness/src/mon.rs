//! Monitor runtime: cases, traces, verdicts and the evidence a run leaves.
//!
//! A *case* is one deterministic execution derived from a seed. Oracles raise a
//! violation through `check!`/`violate`; a panic that no oracle expected also counts
//! as one. The failing case is executed again with its trace on, and the process
//! ends with status 42.

use std::cell::Cell;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::collections::HashSet;
use std::panic::AssertUnwindSafe;
use std::sync::atomic::AtomicBool;
use std::sync::atomic::AtomicUsize;
use std::sync::atomic::Ordering;
use std::sync::Mutex;

use crate::rng::hash_str;
use crate::rng::mix;
use crate::rng::Rng;

pub struct Violation(pub String);

/// Panic payload of an injected fault.
pub struct Injected(pub &'static str);

thread_local! {
    static VERBOSE: Cell<bool> = const { Cell::new(false) };
    static TRACE: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static PENDING: RefCell<Option<String>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
}

#[cold]
pub fn violate(msg: String) -> ! {
    std::panic::panic_any(Violation(msg))
}

/// A violation seen where panicking is not an option (in a destructor).
#[cold]
pub fn pend(msg: String) {
    PENDING.with(|p| {
        let mut p = p.borrow_mut();
        if p.is_none() {
            *p = Some(msg);
        }
    });
}

pub fn check_pending() {
    let m = PENDING.with(|p| p.borrow_mut().take());
    if let Some(m) = m {
        violate(m);
    }
}

pub fn verbose() -> bool {
    VERBOSE.with(|v| v.get())
}

pub fn trace(s: String) {
    TRACE.with(|t| {
        let mut t = t.borrow_mut();
        if t.len() < 20_000 {
            t.push(s);
        }
    });
}

#[macro_export]
macro_rules! op {
    ($($a:tt)*) => {
        if $crate::mon::verbose() {
            $crate::alloc::unseen(|| $crate::mon::trace(format!($($a)*)))
        }
    };
}

#[macro_export]
macro_rules! check {
    ($c:expr, $($a:tt)*) => { if !$c { $crate::mon::violate(format!($($a)*)) } };
}

#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $($f:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            $crate::mon::violate(format!("{}: got {:?}, expected {:?}", format!($($f)*), a, b));
        }
    }};
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        let msg = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else if let Some(v) = p.downcast_ref::<Violation>() {
            format!("violation: {}", v.0)
        } else if let Some(v) = p.downcast_ref::<Injected>() {
            format!("injected: {}", v.0)
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        // Not in a case: nothing else reports it.
        if !IN_CASE.try_with(|c| c.get()).unwrap_or(true) && std::thread::current().name() == Some("main") {
            eprintln!("panicked outside of a case: {msg} at {loc}");
        }
        // Destructors may run while thread locals are going away.
        let _ = LAST_PANIC.try_with(|l| {
            if let Ok(mut l) = l.try_borrow_mut() {
                *l = format!("{msg} at {loc}");
            }
        });
    }));
}

/// Outcome of running code that may panic.
pub enum Caught<R> {
    Ok(R),
    Injected,
    Panic(String),
}

/// Run `f`; violations pass through, other panics are returned.
pub fn catch<R>(f: impl FnOnce() -> R) -> Caught<R> {
    match std::panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Caught::Ok(r),
        Err(p) => {
            if p.is::<Violation>() {
                std::panic::resume_unwind(p)
            } else if p.is::<Injected>() {
                Caught::Injected
            } else {
                Caught::Panic(last_panic())
            }
        }
    }
}

/// What one case observed.
pub struct Case {
    /// Hash over everything observed; identifies distinct executions.
    pub hash: u64,
    pub events: u64,
    pub nontrivial: bool,
    pub counters: BTreeMap<&'static str, u64>,
    pub thorough: bool,
    /// Number of the case within its group.
    pub index: usize,
}

impl Case {
    fn new(thorough: bool, index: usize) -> Case {
        Case {
            index,
            hash: 0,
            events: 0,
            nontrivial: false,
            counters: BTreeMap::new(),
            thorough,
        }
    }

    #[inline]
    pub fn obs(&mut self, x: u64) {
        self.hash = (self.hash.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
        self.events += 1;
    }

    pub fn obs_str(&mut self, s: &str) {
        self.obs(hash_str(s));
    }

    pub fn count(&mut self, what: &'static str) {
        *self.counters.entry(what).or_insert(0) += 1;
    }

    pub fn add(&mut self, what: &'static str, n: u64) {
        *self.counters.entry(what).or_insert(0) += n;
    }

    pub fn mark(&mut self) {
        self.nontrivial = true;
    }
}

#[derive(Default)]
struct Totals {
    evals: u64,
    events: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    digests: BTreeMap<String, u64>,
    case_groups: BTreeMap<String, u64>,
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    scale: usize,
    pub only: Option<String>,
    /// Record a digest per case group (C21).
    pub digests: bool,
    /// Run only every n-th case group: (index, n).
    shard: (usize, usize),
    groups: AtomicUsize,
    totals: Mutex<Totals>,
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn json_list(xs: &[String]) -> String {
    let v: Vec<String> = xs.iter().map(|s| json_str(s)).collect();
    format!("[{}]", v.join(","))
}

static REPORTING: Mutex<()> = Mutex::new(());

/// Print the violation and end the process.
pub fn report(case: &str, msg: &str, trace: &[String]) -> ! {
    let _g = REPORTING.lock();
    let tail: Vec<String> = if trace.len() > 400 {
        let mut t: Vec<String> = trace[..100].to_vec();
        t.push(format!("... {} steps ...", trace.len() - 400));
        t.extend(trace[trace.len() - 300..].iter().cloned());
        t
    } else {
        trace.to_vec()
    };
    println!(
        "VIOLATION-DETAIL {{\"case\":{},\"message\":{},\"trace\":{}}}",
        json_str(case),
        json_str(msg),
        json_list(&tail)
    );
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(42)
}

static SMALL: AtomicBool = AtomicBool::new(false);

/// True in interpreters, and in runs to be compared with those.
pub fn small() -> bool {
    cfg!(miri) || SMALL.load(Ordering::Relaxed)
}

fn env_u64(name: &str, default: u64) -> u64 {
    std::env::var(name)
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(default)
}

impl Ctx {
    /// Reads `--seed N --tier T --only NAME#I --threads N --digests --small --scale PERCENT`.
    pub fn from_args() -> Ctx {
        install_hook();
        let args: Vec<String> = std::env::args().collect();
        let get = |n: &str| {
            args.iter()
                .position(|a| a == n)
                .and_then(|i| args.get(i + 1).cloned())
        };
        let seed = get("--seed")
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| env_u64("VERIF_SEED", 1));
        SMALL.store(args.iter().any(|a| a == "--small"), Ordering::Relaxed);
        let tier = get("--tier")
            .or_else(|| std::env::var("VERIF_TIER").ok())
            .unwrap_or_else(|| "quick".into());
        let threads = get("--threads")
            .and_then(|s| s.parse().ok())
            .unwrap_or(if cfg!(miri) { 1 } else { 8 });
        Ctx {
            seed,
            thorough: tier == "thorough",
            threads,
            scale: get("--scale").and_then(|s| s.parse().ok()).unwrap_or(100),
            only: get("--only"),
            digests: args.iter().any(|a| a == "--digests"),
            shard: get("--shard")
                .and_then(|s| {
                    let (i, n) = s.split_once('/')?;
                    Some((i.parse().ok()?, n.parse().ok()?))
                })
                .unwrap_or((0, 1)),
            groups: AtomicUsize::new(0),
            totals: Mutex::default(),
        }
    }

    /// `q` in the quick tier, `t` in the thorough one, scaled down in interpreters.
    pub fn n(&self, q: usize, t: usize) -> usize {
        if small() {
            if self.thorough {
                (t / 100).clamp(1, 40)
            } else {
                (q / 200).clamp(1, 3)
            }
        } else {
            let n = if self.thorough { t } else { q };
            (n * self.scale / 100).max(1)
        }
    }

    fn run_once(
        &self,
        name: &str,
        i: usize,
        f: &(dyn Fn(&mut Rng, &mut Case) + Sync),
    ) -> Result<Case, String> {
        let mut rng = Rng::new(mix(self.seed ^ mix(i as u64)) ^ hash_str(name));
        let mut case = Case::new(self.thorough, i);
        crate::keys::reset_budget();
        crate::tracked::reset();
        crate::fault::disarm();
        PENDING.with(|p| *p.borrow_mut() = None);
        let outer = IN_CASE.replace(true);
        let r = std::panic::catch_unwind(AssertUnwindSafe(|| {
            f(&mut rng, &mut case);
            check_pending();
        }));
        IN_CASE.set(outer);
        match r {
            Ok(()) => Ok(case),
            Err(p) => {
                if let Some(v) = p.downcast_ref::<Violation>() {
                    Err(v.0.clone())
                } else {
                    let pend = PENDING
                        .with(|p| p.borrow_mut().take())
                        .map(|m| format!(" (also: {m})"))
                        .unwrap_or_default();
                    Err(format!("unexpected panic: {}{}", last_panic(), pend))
                }
            }
        }
    }

    fn run_case(
        &self,
        name: &str,
        i: usize,
        sample: bool,
        f: &(dyn Fn(&mut Rng, &mut Case) + Sync),
    ) -> Case {
        if sample {
            VERBOSE.with(|v| v.set(true));
            TRACE.with(|t| t.borrow_mut().clear());
        }
        let r = self.run_once(name, i, f);
        if sample {
            VERBOSE.with(|v| v.set(false));
        }
        match r {
            Ok(case) => {
                if sample {
                    let tr = TRACE.with(|t| std::mem::take(&mut *t.borrow_mut()));
                    let head: Vec<String> = tr.iter().take(12).cloned().collect();
                    let mut tot = self.totals.lock().unwrap();
                    if tot.samples.len() < 8 {
                        let s = format!("{name}#{i}: {} [{} steps]", head.join("; "), tr.len());
                        let s: String = s.chars().take(700).collect();
                        tot.samples.push(s);
                    }
                }
                case
            }
            Err(msg) => {
                VERBOSE.with(|v| v.set(true));
                TRACE.with(|t| t.borrow_mut().clear());
                let again = self.run_once(name, i, f);
                VERBOSE.with(|v| v.set(false));
                let tr = TRACE.with(|t| std::mem::take(&mut *t.borrow_mut()));
                let msg = match again {
                    Err(m) if m == msg => msg,
                    Err(m) => format!("{msg}; on replay: {m}"),
                    Ok(_) => format!("{msg}; not repeated on replay"),
                };
                report(&format!("{name}#{i}"), &msg, &tr)
            }
        }
    }

    fn account(&self, name: &str, i: usize, case: Case) {
        let mut t = self.totals.lock().unwrap();
        t.evals += 1;
        t.events += case.events;
        if case.nontrivial {
            let h = mix(case.hash ^ hash_str(name));
            t.distinct.insert(h);
        }
        for (k, v) in case.counters {
            *t.counters.entry(k).or_insert(0) += v;
        }
        *t.case_groups.entry(name.to_string()).or_insert(0) += 1;
        if self.digests {
            let e = t.digests.entry(name.to_string()).or_insert(0);
            // Order independent.
            *e = e.wrapping_add(mix(case.hash ^ mix(i as u64)));
        }
    }

    /// Run `n` cases of `f`, spread over the worker threads.
    pub fn cases(&self, name: &str, n: usize, f: impl Fn(&mut Rng, &mut Case) + Sync) {
        if let Some(only) = &self.only {
            let (oname, idx) = only.rsplit_once('#').unwrap_or((only, "0"));
            if oname == name {
                let i: usize = idx.parse().unwrap_or(0);
                let case = self.run_case(name, i, true, &f);
                self.account(name, i, case);
            }
            return;
        }
        if self.groups.fetch_add(1, Ordering::Relaxed) % self.shard.1 != self.shard.0 {
            return;
        }
        let threads = self.threads.min(n).max(1);
        let start = std::time::Instant::now();
        let times = || {
            if std::env::var_os("HARNESS_TIMES").is_some() {
                eprintln!("{:8.3} s  {name}", start.elapsed().as_secs_f64());
            }
        };
        if threads == 1 {
            for i in 0..n {
                let case = self.run_case(name, i, i == 0 && !cfg!(miri), &f);
                self.account(name, i, case);
            }
            times();
            return;
        }
        let next = AtomicUsize::new(0);
        let work = || loop {
            let i = next.fetch_add(1, Ordering::Relaxed);
            if i >= n {
                break;
            }
            let case = self.run_case(name, i, i == 0, &f);
            self.account(name, i, case);
        };
        // Unoptimised code moves large arrays through the stack.
        let stack = if cfg!(target_pointer_width = "64") { 256 << 20 } else { 48 << 20 };
        std::thread::scope(|s| {
            for _ in 0..threads {
                // Stacks of threads just ended may still be mapped: room for a stack can be short
                // for a moment.
                for attempt in 0..200 {
                    match std::thread::Builder::new().stack_size(stack).spawn_scoped(s, work) {
                        Ok(_) => break,
                        Err(e) if attempt == 199 => panic!("no thread: {e}"),
                        Err(_) => std::thread::sleep(std::time::Duration::from_millis(20)),
                    }
                }
            }
        });
        times();
    }

    pub fn sample(&self, s: String) {
        let mut t = self.totals.lock().unwrap();
        if t.samples.len() < 12 {
            t.samples.push(s.chars().take(700).collect());
        }
    }

    /// Account work done outside `cases` (bulk sweeps).
    pub fn bulk(&self, what: &'static str, evals: u64, distinct: u64) {
        let mut t = self.totals.lock().unwrap();
        *t.counters.entry(what).or_insert(0) += evals;
        *t.counters.entry("bulk_evaluations").or_insert(0) += evals;
        *t.counters.entry("bulk_distinct").or_insert(0) += distinct;
    }

    pub fn finish(self) {
        let t = self.totals.into_inner().unwrap();
        let c: Vec<String> = t
            .counters
            .iter()
            .map(|(k, v)| format!("{}:{}", json_str(k), v))
            .collect();
        let d: Vec<String> = t
            .digests
            .iter()
            .map(|(k, v)| format!("{}:\"{:016x}\"", json_str(k), v))
            .collect();
        println!(
            "EVIDENCE {{\"evaluations\":{},\"events\":{},\"distinct\":{},\"groups\":{},\"counters\":{{{}}},\"samples\":{},\"digests\":{{{}}}}}",
            t.evals,
            t.events,
            t.distinct.len(),
            t.case_groups.len(),
            c.join(","),
            json_list(&t.samples),
            d.join(",")
        );
    }
}

/// Integers found in the sources under test (`--dict 1,2,3`), like a fuzzer's dictionary.
pub fn dict() -> Vec<u128> {
    let args: Vec<String> = std::env::args().collect();
    let Some(i) = args.iter().position(|a| a == "--dict") else {
        return Vec::new();
    };
    args.get(i + 1)
        .map(|s| s.split(',').filter_map(|x| x.parse().ok()).collect())
        .unwrap_or_default()
}
