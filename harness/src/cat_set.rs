//! Set types the workloads run on.

use ordinal_map::set::ordinal_array_set_s;
use ordinal_map::set::OrdinalArraySet;
use ordinal_map::set::OrdinalSet;
use ordinal_map::set::OrdinalSet64;

use crate::keys::*;
use crate::w_set::Proto;

macro_rules! heap {
    ($k:ty) => {
        Proto {
            label: concat!("OrdinalSet<", stringify!($k), ">"),
            make: || Box::new(OrdinalSet::<$k>::new()),
        }
    };
}

macro_rules! array {
    ($k:ty) => {
        Proto {
            label: concat!("OrdinalArraySet<", stringify!($k), ">"),
            make: || Box::new(OrdinalArraySet::<$k, { ordinal_array_set_s::<$k>() }>::new()),
        }
    };
}

macro_rules! word {
    ($k:ty) => {
        Proto {
            label: concat!("OrdinalSet64<", stringify!($k), ">"),
            make: || Box::new(OrdinalSet64::<$k>::new()),
        }
    };
}

macro_rules! three {
    ($($k:ty,)*) => { vec![$(heap!($k), array!($k), word!($k)),*] };
}

macro_rules! two {
    ($($k:ty,)*) => { vec![$(heap!($k), array!($k)),*] };
}

/// Up to 64 elements: all three set types.
pub fn up_to_64() -> Vec<Proto> {
    three! {
        Key<0>,
        Key<1>,
        Key<2>,
        Key<7>,
        Key<8>,
        Key<31>,
        Key<32>,
        Key<33>,
        Key<62>,
        Key<63>,
        Key<64>,
        bool,
        (),
        Option<bool>,
        std::cmp::Ordering,
        std::convert::Infallible,
        Color,
        Mixed,
        OKey<6>,
    }
}

pub fn over_64() -> Vec<Proto> {
    two! {
        Key<65>,
        Key<66>,
        Key<127>,
        Key<128>,
        Key<129>,
        Key<191>,
        Key<192>,
        Key<193>,
        Key<256>,
        Key<257>,
        Key<1000>,
        OKey<70>,
        u8,
        i8,
        Box<u8>,
        std::num::NonZeroI8,
    }
}

pub fn big() -> Vec<Proto> {
    two! {
        Key<4096>,
        Key<4097>,
        u16,
    }
}

pub fn small() -> Vec<Proto> {
    let mut v = three! {
        Key<0>,
        Key<3>,
        Key<64>,
        Color,
        OKey<4>,
    };
    v.extend(two! {
        Key<65>,
        OKey<70>,
        Key<128>,
    });
    v
}
