#![allow(unexpected_cfgs, dead_code, static_mut_refs)]
#[cfg(kani)]
mod probe;
#[cfg(all(kani, feature = "window"))]
mod window;
#[cfg(all(kani, feature = "states"))]
mod states;
#[cfg(kani)]
mod spec;
#[cfg(all(kani, feature = "gen"))]
#[allow(warnings)]
mod gen;
#[cfg(all(kani, feature = "c13"))]
mod c13;
#[cfg(all(kani, feature = "c14"))]
mod c14;
#[cfg(all(kani, feature = "c01"))]
mod c01;
#[cfg(all(kani, feature = "c02"))]
mod c02;
#[cfg(all(kani, any(feature = "c03", feature = "c04")))]
mod vecs;
#[cfg(all(kani, feature = "c03"))]
mod c03;
#[cfg(all(kani, feature = "c04"))]
mod c04;
#[cfg(all(kani, feature = "c05"))]
mod c05;
#[cfg(all(kani, feature = "c06"))]
mod c06;
#[cfg(all(kani, feature = "c07"))]
mod c07;
#[cfg(all(kani, feature = "c08"))]
mod c08;
#[cfg(all(kani, feature = "c11"))]
mod c11;
