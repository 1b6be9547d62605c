//! Reference enumeration of the built-in leaf types, independent of the library:
//! `nth(i)` is the i-th value by the language's own encoding of the type.

use std::cmp::Ordering;
use std::convert::Infallible;
use std::num::*;

use ordinal_map::Ordinal;

pub trait Leaf: Ordinal + Copy + PartialEq + std::fmt::Debug + 'static {
    const NAME: &'static str;
    /// Number of values.
    const COUNT: u128;
    /// The `i`-th value in the order of `Ord`, `i < COUNT`.
    fn nth(i: u128) -> Self;
    /// Inverse of `nth`.
    fn rank(&self) -> u128;
}

macro_rules! unsigned {
    ($($t:ident $nz:ident,)*) => {$(
        impl Leaf for $t {
            const NAME: &'static str = stringify!($t);
            const COUNT: u128 = 1 << $t::BITS;
            fn nth(i: u128) -> Self {
                i as $t
            }
            fn rank(&self) -> u128 {
                *self as u128
            }
        }
    )*};
}
macro_rules! signed {
    ($($t:ident,)*) => {$(
        impl Leaf for $t {
            const NAME: &'static str = stringify!($t);
            const COUNT: u128 = 1 << $t::BITS;
            fn nth(i: u128) -> Self {
                ($t::MIN as i128 + i as i128) as $t
            }
            fn rank(&self) -> u128 {
                (*self as i128 - $t::MIN as i128) as u128
            }
        }
    )*};
}
macro_rules! nz_unsigned {
    ($($t:ident $p:ident,)*) => {$(
        impl Leaf for $t {
            const NAME: &'static str = stringify!($t);
            const COUNT: u128 = (1 << $p::BITS) - 1;
            fn nth(i: u128) -> Self {
                $t::new((i + 1) as $p).unwrap()
            }
            fn rank(&self) -> u128 {
                self.get() as u128 - 1
            }
        }
    )*};
}
macro_rules! nz_signed {
    ($($t:ident $p:ident,)*) => {$(
        impl Leaf for $t {
            const NAME: &'static str = stringify!($t);
            const COUNT: u128 = (1 << $p::BITS) - 1;
            fn nth(i: u128) -> Self {
                let v = $p::MIN as i128 + i as i128;
                $t::new(if v >= 0 { v + 1 } else { v } as $p).unwrap()
            }
            fn rank(&self) -> u128 {
                let v = self.get() as i128;
                (v - $p::MIN as i128 - (v > 0) as i128) as u128
            }
        }
    )*};
}

unsigned! { u8 NonZeroU8, u16 NonZeroU16, }
signed! { i8, i16, }
nz_unsigned! { NonZeroU8 u8, NonZeroU16 u16, NonZeroU32 u32, NonZeroUsize usize, }
nz_signed! { NonZeroI8 i8, NonZeroI16 i16, NonZeroI32 i32, NonZeroIsize isize, }

#[cfg(target_pointer_width = "64")]
mod wide {
    use super::*;
    unsigned! { u32 NonZeroU32, }
    signed! { i32, }
    nz_unsigned! { NonZeroU64 u64, }
    nz_signed! { NonZeroI64 i64, }
}

impl Leaf for bool {
    const NAME: &'static str = "bool";
    const COUNT: u128 = 2;
    fn nth(i: u128) -> Self {
        i != 0
    }
    fn rank(&self) -> u128 {
        if *self {
            1
        } else {
            0
        }
    }
}

impl Leaf for () {
    const NAME: &'static str = "()";
    const COUNT: u128 = 1;
    fn nth(_: u128) -> Self {}
    fn rank(&self) -> u128 {
        0
    }
}

impl Leaf for Ordering {
    const NAME: &'static str = "Ordering";
    const COUNT: u128 = 3;
    fn nth(i: u128) -> Self {
        [Ordering::Less, Ordering::Equal, Ordering::Greater][i as usize]
    }
    fn rank(&self) -> u128 {
        (*self as i8 + 1) as u128
    }
}

impl Leaf for Infallible {
    const NAME: &'static str = "Infallible";
    const COUNT: u128 = 0;
    fn nth(_: u128) -> Self {
        unreachable!()
    }
    fn rank(&self) -> u128 {
        match *self {}
    }
}

impl Leaf for char {
    const NAME: &'static str = "char";
    const COUNT: u128 = 0x110000 - 0x800;
    fn nth(i: u128) -> Self {
        let c = i as u32;
        char::from_u32(if c < 0xd800 { c } else { c + 0x800 }).unwrap()
    }
    fn rank(&self) -> u128 {
        let c = *self as u128;
        if c < 0xd800 {
            c
        } else {
            c - 0x800
        }
    }
}

/// Interesting numbers: near every power of two, near multiples of the widths
/// narrowing casts work with, and near the integers that occur in the sources.
pub fn interesting(dict: &[u128], count: u128) -> Vec<u128> {
    let mut v = Vec::new();
    let mut near = |x: u128, w: u128| {
        for d in 0..=w {
            v.push(x.wrapping_add(d));
            v.push(x.wrapping_sub(d));
        }
    };
    for b in 0..=64 {
        near(1 << b, 3);
        near(count.wrapping_add(1 << b), 3);
        near(count.wrapping_sub(1 << b), 3);
        near((1 << b) * 3, 2);
        if b < 40 {
            near((1u128 << b) * 0x1_0000_0001, 2);
        }
    }
    near(count, 20);
    near(count / 2, 20);
    near(0, 20);
    near(0xd800, 3);
    near(0xe000, 3);
    near(0x10ffff, 3);
    for d in dict {
        near(*d, 2);
        near(count.wrapping_sub(*d), 2);
        near((count / 2).wrapping_add(*d), 2);
        near((count / 2).wrapping_sub(*d), 2);
    }
    v
}
