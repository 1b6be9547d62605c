//! Ledger of owned objects: every creation and drop is an event; dropping twice,
//! using after drop and leaking are violations.

use std::cell::RefCell;
use std::fmt;

use crate::fault;
use crate::mon;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Alive,
    Dropped,
}

thread_local! {
    static LEDGER: RefCell<Vec<St>> = const { RefCell::new(Vec::new()) };
    static LIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}

pub fn reset() {
    LEDGER.with(|l| l.borrow_mut().clear());
    LIVE.with(|l| l.set(0));
}

pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

pub fn created() -> usize {
    LEDGER.with(|l| l.borrow().len())
}

fn birth() -> u64 {
    LIVE.with(|l| l.set(l.get() + 1));
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        l.push(St::Alive);
        l.len() as u64 - 1
    })
}

fn death(what: &str, id: u64) {
    LIVE.with(|l| l.set(l.get() - 1));
    let prev = LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        l.get_mut(id as usize)
            .map(|s| std::mem::replace(s, St::Dropped))
    });
    if prev != Some(St::Alive) {
        mon::pend(format!("{what} {id} dropped while {prev:?}"));
    }
}

pub fn is_alive(id: u64) -> bool {
    LEDGER.with(|l| l.borrow().get(id as usize) == Some(&St::Alive))
}

const MAGIC: u64 = 0xfeed_0bee_f00d_5eed;

/// An owned value. `val` is what the model knows about it.
pub struct Tracked {
    id: u64,
    magic: u64,
    val: u64,
    /// Heap block, so that sanitizers see misuse as well.
    heap: Box<u64>,
}

impl Tracked {
    pub fn new(val: u64) -> Tracked {
        let id = birth();
        Tracked {
            id,
            magic: MAGIC ^ id,
            val,
            heap: Box::new(val),
        }
    }

    pub fn get(&self) -> u64 {
        if self.magic != MAGIC ^ self.id || !is_alive(self.id) {
            mon::violate(format!("value {} used while not alive", self.id));
        }
        if *self.heap != self.val {
            mon::violate(format!("value {} is corrupt", self.id));
        }
        self.val
    }

    pub fn set(&mut self, val: u64) {
        self.get();
        self.val = val;
        *self.heap = val;
    }

    pub fn id(&self) -> u64 {
        self.id
    }
}

impl Drop for Tracked {
    fn drop(&mut self) {
        if self.magic != MAGIC ^ self.id {
            mon::pend("dropped a value that was never created".into());
            std::process::abort();
        }
        if !is_alive(self.id) {
            mon::pend(format!("value {} dropped twice", self.id));
            // Its heap block is gone: do not free it again.
            println!("VIOLATION-DETAIL {{\"case\":\"ledger\",\"message\":\"value {} dropped twice\",\"trace\":[]}}", self.id);
            std::process::exit(42);
        }
        death("value", self.id);
        fault::point(fault::DROP, "value drop");
    }
}

impl Clone for Tracked {
    fn clone(&self) -> Tracked {
        fault::point(fault::CLONE, "value clone");
        Tracked::new(self.get())
    }
}

impl Default for Tracked {
    fn default() -> Tracked {
        fault::point(fault::DEFAULT, "value default");
        Tracked::new(0)
    }
}

impl fmt::Debug for Tracked {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fault::point(fault::DEBUG, "value debug");
        write!(f, "T{}", self.get())
    }
}

/// Ledger entry without data (for owned keys).
pub struct Token {
    id: u64,
}

impl Token {
    pub fn new() -> Token {
        Token { id: birth() }
    }

    pub fn assert_alive(&self) {
        if !is_alive(self.id) {
            mon::violate(format!("key {} used while not alive", self.id));
        }
    }
}

impl Default for Token {
    fn default() -> Self {
        Token::new()
    }
}

impl Drop for Token {
    fn drop(&mut self) {
        death("key", self.id);
        fault::point(fault::DROP, "key drop");
    }
}
