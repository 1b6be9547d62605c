//! Instrumented key types implementing `Ordinal` by hand.

use std::cell::Cell;
use std::fmt;

use ordinal_map::Ordinal;

use crate::fault;
use crate::mon;
use crate::tracked::Token;

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}

/// More conversions than any correct case performs: the operation does not end.
const CASE_LIMIT: u64 = 300_000_000;

pub fn reset_budget() {
    CALLS.with(|c| c.set(0));
    LIMIT.with(|l| l.set(CASE_LIMIT));
}

pub fn calls() -> u64 {
    CALLS.with(|c| c.get())
}

#[inline]
fn tick() {
    CALLS.with(|c| {
        let n = c.get() + 1;
        c.set(n);
        if n > LIMIT.with(|l| l.get()) {
            LIMIT.with(|l| l.set(u64::MAX));
            mon::violate(format!("no end after {n} key conversions"));
        }
    });
}

/// What the generic workloads need from a key.
pub trait TestKey: Ordinal + fmt::Debug {
    const N: usize = Self::ORDINAL_SIZE;
    fn at(i: usize) -> Self;
    fn idx(&self) -> usize;
    /// Debug text of the key with index `i`.
    fn dbg(i: usize) -> String;
}

/// User-defined key with `N` values; its stored code runs against the ordinal, so
/// nothing but the mapping itself gives the order.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Key<const N: usize>(usize);

impl<const N: usize> Ordinal for Key<N> {
    const ORDINAL_SIZE: usize = N;

    fn ordinal(&self) -> usize {
        tick();
        fault::point(fault::KEY, "key ordinal");
        !self.0
    }

    fn from_ordinal(ordinal: usize) -> Option<Self> {
        tick();
        fault::point(fault::KEY, "key from_ordinal");
        if ordinal < N {
            Some(Key(!ordinal))
        } else {
            None
        }
    }
}

impl<const N: usize> fmt::Debug for Key<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fault::point(fault::DEBUG, "key debug");
        write!(f, "K{}", !self.0)
    }
}

impl<const N: usize> TestKey for Key<N> {
    fn at(i: usize) -> Self {
        assert!(i < N);
        Key(!i)
    }
    fn idx(&self) -> usize {
        !self.0
    }
    fn dbg(i: usize) -> String {
        format!("K{i}")
    }
}

/// Key that owns something: every instance is in the ledger.
pub struct OKey<const N: usize> {
    i: usize,
    token: Token,
    heap: Box<usize>,
}

impl<const N: usize> OKey<N> {
    fn mk(i: usize) -> Self {
        OKey {
            i,
            token: Token::new(),
            heap: Box::new(i),
        }
    }
}

impl<const N: usize> Ordinal for OKey<N> {
    const ORDINAL_SIZE: usize = N;

    fn ordinal(&self) -> usize {
        tick();
        fault::point(fault::KEY, "key ordinal");
        self.token.assert_alive();
        *self.heap
    }

    fn from_ordinal(ordinal: usize) -> Option<Self> {
        tick();
        fault::point(fault::KEY, "key from_ordinal");
        if ordinal < N {
            Some(OKey::mk(ordinal))
        } else {
            None
        }
    }
}

impl<const N: usize> fmt::Debug for OKey<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fault::point(fault::DEBUG, "key debug");
        self.token.assert_alive();
        write!(f, "O{}", self.i)
    }
}

impl<const N: usize> Clone for OKey<N> {
    fn clone(&self) -> Self {
        fault::point(fault::CLONE, "key clone");
        self.token.assert_alive();
        OKey::mk(self.i)
    }
}

impl<const N: usize> PartialEq for OKey<N> {
    fn eq(&self, o: &Self) -> bool {
        self.i == o.i
    }
}

impl<const N: usize> Eq for OKey<N> {}

impl<const N: usize> TestKey for OKey<N> {
    fn at(i: usize) -> Self {
        assert!(i < N);
        OKey::mk(i)
    }
    fn idx(&self) -> usize {
        self.token.assert_alive();
        self.i
    }
    fn dbg(i: usize) -> String {
        format!("O{i}")
    }
}

// Provided and derived key types. `at`/`idx` do not use the mapping under test.

impl TestKey for bool {
    fn at(i: usize) -> Self {
        i == 1
    }
    fn idx(&self) -> usize {
        if *self {
            1
        } else {
            0
        }
    }
    fn dbg(i: usize) -> String {
        ["false", "true"][i].into()
    }
}

impl TestKey for u8 {
    fn at(i: usize) -> Self {
        i as u8
    }
    fn idx(&self) -> usize {
        *self as usize
    }
    fn dbg(i: usize) -> String {
        i.to_string()
    }
}

impl TestKey for i8 {
    fn at(i: usize) -> Self {
        (i as i32 - 128) as i8
    }
    fn idx(&self) -> usize {
        (*self as i32 + 128) as usize
    }
    fn dbg(i: usize) -> String {
        (i as i32 - 128).to_string()
    }
}

impl TestKey for u16 {
    fn at(i: usize) -> Self {
        i as u16
    }
    fn idx(&self) -> usize {
        *self as usize
    }
    fn dbg(i: usize) -> String {
        i.to_string()
    }
}

impl TestKey for char {
    fn at(i: usize) -> Self {
        char::from_u32((if i < 0xd800 { i } else { i + 0x800 }) as u32).unwrap()
    }
    fn idx(&self) -> usize {
        let c = *self as usize;
        if c < 0xd800 {
            c
        } else {
            c - 0x800
        }
    }
    fn dbg(i: usize) -> String {
        format!("{:?}", char::at(i))
    }
}

impl TestKey for (u8, u16) {
    fn at(i: usize) -> Self {
        ((i >> 16) as u8, i as u16)
    }
    fn idx(&self) -> usize {
        (self.0 as usize) << 16 | self.1 as usize
    }
    fn dbg(i: usize) -> String {
        format!("({}, {})", i >> 16, i & 0xffff)
    }
}

#[cfg(target_pointer_width = "64")]
impl TestKey for u32 {
    fn at(i: usize) -> Self {
        i as u32
    }
    fn idx(&self) -> usize {
        *self as usize
    }
    fn dbg(i: usize) -> String {
        i.to_string()
    }
}

impl TestKey for () {
    fn at(_: usize) -> Self {}
    fn idx(&self) -> usize {
        0
    }
    fn dbg(_: usize) -> String {
        "()".into()
    }
}

impl TestKey for Option<bool> {
    fn at(i: usize) -> Self {
        [None, Some(false), Some(true)][i]
    }
    fn idx(&self) -> usize {
        match self {
            None => 0,
            Some(false) => 1,
            Some(true) => 2,
        }
    }
    fn dbg(i: usize) -> String {
        ["None", "Some(false)", "Some(true)"][i].into()
    }
}

impl TestKey for (bool, Option<bool>) {
    fn at(i: usize) -> Self {
        (i >= 3, TestKey::at(i % 3))
    }
    fn idx(&self) -> usize {
        (self.0 as usize) * 3 + self.1.idx()
    }
    fn dbg(i: usize) -> String {
        format!("({}, {})", bool::dbg(i / 3), Option::<bool>::dbg(i % 3))
    }
}

impl TestKey for std::cmp::Ordering {
    fn at(i: usize) -> Self {
        use std::cmp::Ordering::*;
        [Less, Equal, Greater][i]
    }
    fn idx(&self) -> usize {
        (*self as i8 + 1) as usize
    }
    fn dbg(i: usize) -> String {
        ["Less", "Equal", "Greater"][i].into()
    }
}

impl TestKey for Box<u8> {
    fn at(i: usize) -> Self {
        Box::new(i as u8)
    }
    fn idx(&self) -> usize {
        **self as usize
    }
    fn dbg(i: usize) -> String {
        i.to_string()
    }
}

impl TestKey for std::convert::Infallible {
    fn at(_: usize) -> Self {
        unreachable!("no values")
    }
    fn idx(&self) -> usize {
        match *self {}
    }
    fn dbg(_: usize) -> String {
        unreachable!("no values")
    }
}

impl TestKey for std::num::NonZeroI8 {
    fn at(i: usize) -> Self {
        let v = i as i32 - 128;
        std::num::NonZeroI8::new(if v >= 0 { v + 1 } else { v } as i8).unwrap()
    }
    fn idx(&self) -> usize {
        let v = self.get() as i32;
        (if v > 0 { v + 127 } else { v + 128 }) as usize
    }
    fn dbg(i: usize) -> String {
        Self::at(i).to_string()
    }
}

#[derive(Ordinal, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Color {
    Red,
    Green,
    Blue,
    Alpha,
}

impl TestKey for Color {
    fn at(i: usize) -> Self {
        [Color::Red, Color::Green, Color::Blue, Color::Alpha][i]
    }
    fn idx(&self) -> usize {
        *self as usize
    }
    fn dbg(i: usize) -> String {
        ["Red", "Green", "Blue", "Alpha"][i].into()
    }
}

#[derive(Ordinal, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mixed {
    Unit,
    Tuple(bool, Color),
    Rec { a: Option<bool>, b: bool },
    Last(Color),
}

impl TestKey for Mixed {
    fn at(i: usize) -> Self {
        match i {
            0 => Mixed::Unit,
            1..=8 => Mixed::Tuple(i - 1 >= 4, Color::at((i - 1) % 4)),
            9..=14 => Mixed::Rec {
                a: TestKey::at((i - 9) / 2),
                b: (i - 9) % 2 == 1,
            },
            _ => Mixed::Last(Color::at(i - 15)),
        }
    }
    fn idx(&self) -> usize {
        match self {
            Mixed::Unit => 0,
            Mixed::Tuple(a, b) => 1 + a.idx() * 4 + b.idx(),
            Mixed::Rec { a, b } => 9 + a.idx() * 2 + b.idx(),
            Mixed::Last(c) => 15 + c.idx(),
        }
    }
    fn dbg(i: usize) -> String {
        format!("{:?}", Self::at(i))
    }
}
