//! Total map types the workloads run on.

use ordinal_map::map::total::OrdinalTotalArrayMap;
use ordinal_map::map::total::OrdinalTotalMap;

use crate::dynmap::H;
use crate::keys::*;
use crate::maps::size;
use crate::maps::Total;
use crate::tracked::Tracked;
use crate::vals::TestVal;
use crate::vals::Wide;
use crate::w_total::array_case;
use crate::w_total::Map;
use crate::w_total::Proto;

fn make<M: Total + 'static>(f: &mut dyn FnMut(usize) -> u64) -> Map
where
    M::V: TestVal + 'static,
    M::K: 'static,
{
    Box::new(H(M::make(|k| M::V::mk(f(k.idx())))))
}

fn try_make<M: Total + 'static>(
    f: &mut dyn FnMut(usize) -> Result<u64, String>,
) -> Result<Map, String>
where
    M::V: TestVal + 'static,
    M::K: 'static,
{
    let m = M::try_make(|k| f(k.idx()).map(M::V::mk))?;
    Ok(Box::new(H(m)))
}

macro_rules! heap {
    ($k:ty, $v:ty) => {
        Proto {
            label: concat!("OrdinalTotalMap<", stringify!($k), ", ", stringify!($v), ">"),
            make: make::<OrdinalTotalMap<$k, $v>>,
            try_make: try_make::<OrdinalTotalMap<$k, $v>>,
            n: <$k as TestKey>::N,
            array: None,
        }
    };
}

macro_rules! array {
    ($k:ty, $v:ty) => {
        Proto {
            label: concat!("OrdinalTotalArrayMap<", stringify!($k), ", ", stringify!($v), ">"),
            make: make::<OrdinalTotalArrayMap<$k, $v, { size::<$k>() }>>,
            try_make: try_make::<OrdinalTotalArrayMap<$k, $v, { size::<$k>() }>>,
            n: <$k as TestKey>::N,
            array: Some(array_case::<$k, $v, { size::<$k>() }>),
        }
    };
}

macro_rules! both {
    ($($k:ty, $v:ty;)*) => {
        vec![$(heap!($k, $v), array!($k, $v)),*]
    };
}

pub fn sizes() -> Vec<Proto> {
    both! {
        Key<0>, u64;
        Key<1>, u64;
        Key<2>, u64;
        Key<3>, u64;
        Key<8>, u64;
        Key<64>, u64;
        Key<65>, u64;
        Key<257>, u64;
        Key<1000>, u64;
    }
}

pub fn values() -> Vec<Proto> {
    both! {
        Key<9>, ();
        Key<9>, bool;
        Key<9>, String;
        Key<5>, Tracked;
        OKey<6>, Tracked;
        Key<5>, Wide;
    }
}

pub fn keys() -> Vec<Proto> {
    both! {
        bool, u64;
        u8, u64;
        (), u64;
        (bool, Option<bool>), u64;
        Box<u8>, u64;
        std::convert::Infallible, u64;
        Mixed, u64;
    }
}

pub fn big() -> Vec<Proto> {
    vec![heap!(u16, u64), array!(Key<4097>, u64)]
}

pub fn small() -> Vec<Proto> {
    both! {
        Key<0>, u64;
        Key<3>, String;
        Color, Tracked;
        OKey<4>, Tracked;
        Key<5>, ();
        Key<4>, Wide;
    }
}
