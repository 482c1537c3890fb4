#![allow(clippy::type_complexity)]
extern crate self as mcd;
pub mod rt;
pub mod drive;
pub mod grid;
#[cfg(feature = "fixed")]
pub mod progs;
#[cfg(feature = "fixed")]
pub mod checks;
#[cfg(feature = "fixed")]
pub mod env;
#[cfg(feature = "fixed")]
pub mod both;
