//! Sparse map types the workloads run on.

use ordinal_map::map::OrdinalArrayMap;
use ordinal_map::map::OrdinalMap;

use crate::dynmap::H;
use crate::keys::*;
use crate::maps::size;
use crate::tracked::Tracked;
use crate::vals::Wide;
use crate::w_map::Proto;

macro_rules! heap {
    ($k:ty, $v:ty) => {
        Proto {
            label: concat!("OrdinalMap<", stringify!($k), ", ", stringify!($v), ">"),
            make: || Box::new(H(OrdinalMap::<$k, $v>::new())),
        }
    };
}

macro_rules! array {
    ($k:ty, $v:ty) => {
        Proto {
            label: concat!("OrdinalArrayMap<", stringify!($k), ", ", stringify!($v), ">"),
            make: || Box::new(H(OrdinalArrayMap::<$k, $v, { size::<$k>() }>::new())),
        }
    };
}

macro_rules! both {
    ($($k:ty, $v:ty;)*) => {
        vec![$(heap!($k, $v), array!($k, $v)),*]
    };
}

/// Key sizes around every boundary the storage could have.
pub fn sizes() -> Vec<Proto> {
    both! {
        Key<0>, u64;
        Key<1>, u64;
        Key<2>, u64;
        Key<3>, u64;
        Key<8>, u64;
        Key<63>, u64;
        Key<64>, u64;
        Key<65>, u64;
        Key<128>, u64;
        Key<256>, u64;
        Key<257>, u64;
        Key<1000>, u64;
    }
}

pub fn values() -> Vec<Proto> {
    both! {
        Key<9>, ();
        Key<9>, bool;
        Key<9>, Option<u8>;
        Key<9>, String;
        Key<9>, Box<u64>;
        Key<5>, Tracked;
        OKey<6>, Tracked;
        Key<5>, Wide;
    }
}

pub fn keys() -> Vec<Proto> {
    both! {
        bool, u64;
        u8, u64;
        i8, u64;
        (), u64;
        Option<bool>, u64;
        (bool, Option<bool>), u64;
        std::cmp::Ordering, u64;
        Box<u8>, u64;
        std::convert::Infallible, u64;
        std::num::NonZeroI8, u64;
        Color, u64;
        Mixed, u64;
    }
}

pub fn big() -> Vec<Proto> {
    vec![heap!(u16, u64), heap!(Key<4097>, u64), array!(Key<4097>, u64)]
}

/// A handful for slow interpreters.
pub fn small() -> Vec<Proto> {
    both! {
        Key<0>, u64;
        Key<3>, String;
        Color, Tracked;
        OKey<4>, Tracked;
        Key<5>, ();
        Key<4>, Wide;
        Box<u8>, u64;
        Key<70>, bool;
    }
}
