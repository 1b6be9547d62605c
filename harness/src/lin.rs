//! Linearizability of histories of one cell: search for a legal sequential order that
//! respects real time (Wing and Gong, with Lowe's memoisation).
use std::collections::HashSet;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Call {
    /// Value seen.
    Load(u128),
    /// Value written.
    Store(u128),
    /// Expected, new, result.
    Cas(u128, u128, Result<u128, u128>),
}

#[derive(Clone, Copy, Debug)]
pub struct Event {
    pub thread: usize,
    pub call: Call,
    /// Ticks of a global clock taken before the call and after its return.
    pub start: u64,
    pub end: u64,
}

fn step(state: u128, c: Call) -> Option<u128> {
    match c {
        Call::Load(v) => (v == state).then_some(state),
        Call::Store(v) => Some(v),
        Call::Cas(old, new, r) => {
            if state == old {
                (r == Ok(old)).then_some(new)
            } else {
                (r == Err(state)).then_some(state)
            }
        }
    }
}

/// An order in which the calls could have taken effect; at most 64 events.
pub fn linearize(init: u128, events: &[Event]) -> Option<Vec<usize>> {
    assert!(events.len() <= 64);
    let all = if events.len() == 64 { u64::MAX } else { (1 << events.len()) - 1 };
    let mut seen: HashSet<(u64, u128)> = HashSet::new();
    let mut path = Vec::new();
    fn go(
        events: &[Event],
        done: u64,
        all: u64,
        state: u128,
        seen: &mut HashSet<(u64, u128)>,
        path: &mut Vec<usize>,
    ) -> bool {
        if done == all {
            return true;
        }
        if !seen.insert((done, state)) {
            return false;
        }
        // A call may come next if no other pending call ended before it started.
        let first_end = events
            .iter()
            .enumerate()
            .filter(|(i, _)| done & (1 << i) == 0)
            .map(|(_, e)| e.end)
            .min()
            .unwrap();
        for (i, e) in events.iter().enumerate() {
            if done & (1 << i) != 0 || e.start > first_end {
                continue;
            }
            if let Some(next) = step(state, e.call) {
                path.push(i);
                if go(events, done | (1 << i), all, next, seen, path) {
                    return true;
                }
                path.pop();
            }
        }
        false
    }
    go(events, 0, all, init, &mut seen, &mut path).then_some(path)
}

/// Pairs of calls of different threads that overlapped in time.
pub fn overlaps(events: &[Event]) -> u64 {
    let mut n = 0;
    for (i, a) in events.iter().enumerate() {
        for b in &events[..i] {
            if a.thread != b.thread && a.start < b.end && b.start < a.end {
                n += 1;
            }
        }
    }
    n
}
