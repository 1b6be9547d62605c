//! Value types for the maps, seen by the model as numbers.

use std::fmt::Debug;

use crate::tracked::Tracked;

pub trait TestVal: Clone + Debug {
    const NAME: &'static str;
    fn mk(x: u64) -> Self;
    fn rd(&self) -> u64;
    fn wr(&mut self, x: u64) {
        *self = Self::mk(x);
    }
    /// What `mk(x)` keeps of `x`.
    fn norm(x: u64) -> u64 {
        x
    }
    /// Debug text of `mk(x)`.
    fn dbg(x: u64) -> String {
        format!("{:?}", Self::mk(x))
    }
}

impl TestVal for u64 {
    const NAME: &'static str = "u64";
    fn mk(x: u64) -> Self {
        x
    }
    fn rd(&self) -> u64 {
        *self
    }
}

impl TestVal for () {
    const NAME: &'static str = "()";
    fn mk(_: u64) -> Self {}
    fn rd(&self) -> u64 {
        0
    }
    fn norm(_: u64) -> u64 {
        0
    }
}

impl TestVal for bool {
    const NAME: &'static str = "bool";
    fn mk(x: u64) -> Self {
        x & 1 == 1
    }
    fn rd(&self) -> u64 {
        *self as u64
    }
    fn norm(x: u64) -> u64 {
        x & 1
    }
}

impl TestVal for Option<u8> {
    const NAME: &'static str = "Option<u8>";
    fn mk(x: u64) -> Self {
        if x % 3 == 0 {
            None
        } else {
            Some(x as u8)
        }
    }
    fn rd(&self) -> u64 {
        match self {
            None => 256,
            Some(x) => *x as u64,
        }
    }
    fn norm(x: u64) -> u64 {
        Self::mk(x).rd()
    }
    fn dbg(x: u64) -> String {
        // `x` may already be normalised.
        if x == 256 {
            "None".into()
        } else {
            format!("Some({})", x as u8)
        }
    }
}

impl TestVal for String {
    const NAME: &'static str = "String";
    fn mk(x: u64) -> Self {
        format!("{x}")
    }
    fn rd(&self) -> u64 {
        self.parse().unwrap()
    }
}

impl TestVal for Box<u64> {
    const NAME: &'static str = "Box<u64>";
    fn mk(x: u64) -> Self {
        Box::new(x)
    }
    fn rd(&self) -> u64 {
        **self
    }
}

impl TestVal for Tracked {
    const NAME: &'static str = "Tracked";
    fn mk(x: u64) -> Self {
        Tracked::new(x)
    }
    fn rd(&self) -> u64 {
        self.get()
    }
    fn wr(&mut self, x: u64) {
        self.set(x)
    }
    fn dbg(x: u64) -> String {
        format!("T{x}")
    }
}

/// Over-aligned value with padding.
#[derive(Clone, Default)]
#[repr(align(64))]
pub struct Wide(pub u8, pub u64);

impl Debug for Wide {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "W{}", self.1)
    }
}

impl TestVal for Wide {
    const NAME: &'static str = "Wide";
    fn mk(x: u64) -> Self {
        Wide(x as u8, x)
    }
    fn rd(&self) -> u64 {
        assert_eq!(self.0, self.1 as u8, "torn value");
        assert_eq!(self as *const _ as usize % 64, 0, "misaligned value");
        self.1
    }
}
