//! C03 and the derived part of C04: generated type definitions against their models.
#![allow(warnings)]

use std::convert::Infallible as Never;
use std::cmp::Ordering as Ord3;
use std::num::*;

use either::Either;
#[cfg(not(feature = "twin"))]
use harness::model::{self, Model};
#[cfg(not(feature = "twin"))]
use harness::mon::Ctx;
#[cfg(not(feature = "twin"))]
use harness::order;

/// A mapping by hand with any number of values.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Val<const N: usize>(usize);

impl<const N: usize> ::ordinal_map::Ordinal for Val<N> {
    const ORDINAL_SIZE: usize = N;
    fn ordinal(&self) -> usize {
        self.0
    }
    fn from_ordinal(o: usize) -> Option<Self> {
        if o < N { Some(Val(o)) } else { None }
    }
}

#[cfg(not(feature = "twin"))]
impl<const N: usize> Model for Val<N> {
    fn size() -> u128 {
        N as u128
    }
    fn make(r: u128) -> Self {
        Val(r as usize)
    }
    fn rank(&self) -> u128 {
        self.0 as u128
    }
    fn show(&self) -> String {
        format!("{self:?}")
    }
}

include!(concat!(env!("DERIVED_DIR"), "/types.rs"));

#[cfg(not(feature = "twin"))]
fn main() {
    let ctx = Ctx::from_args();
    if std::env::args().any(|a| a == "--order") {
        let mut v: Vec<order::Ops> = Vec::new();
        orders(&mut v);
        order::agree(&ctx, &v);
    } else {
        let mut v: Vec<model::Ops> = Vec::new();
        mappings(&mut v);
        model::round_trips(&ctx, &v);
    }
    ctx.finish();
}

#[cfg(feature = "twin")]
fn main() {}
