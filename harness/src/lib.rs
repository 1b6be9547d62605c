//! Monitors and workloads for the ordinal-map crate; one binary per property.
#![allow(clippy::new_without_default)]

pub mod alloc;
#[cfg(feature = "cat")]
pub mod cat_set;
#[cfg(feature = "cat")]
pub mod cat_sparse;
#[cfg(feature = "cat")]
pub mod cat_total;
pub mod dynmap;
pub mod fault;
pub mod forks;
pub mod heap;
pub mod huge;
pub mod iterdrive;
pub mod keys;
pub mod leaf;
pub mod lin;
pub mod maps;
pub mod model;
pub mod mon;
pub mod order;
pub mod ordm;
pub mod own;
pub mod rng;
#[cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
pub mod step;
pub mod tracked;
pub mod vals;
pub mod w_map;
pub mod w_set;
pub mod w_total;
