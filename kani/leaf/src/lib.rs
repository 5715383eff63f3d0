//! Contracts of the leaf decoders, discharged on the real `libmbus` crate.
#![allow(clippy::all)]
#[path = "../../common/support.rs"]
pub mod support;
#[path = "../../common/spec_bcd.rs"]
pub mod spec_bcd;
pub mod numbers;
pub mod manufacturers;
pub mod strings;
pub mod utf8;
pub mod vibs;
pub mod dates;
pub mod dibs;
#[cfg(kani)]
pub mod takes;
