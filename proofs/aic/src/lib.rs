#![allow(unexpected_cfgs, dead_code, static_mut_refs)]
//! Arrays are filled exactly once, in order.
#[cfg(all(kani, feature = "c12"))]
mod c12;
