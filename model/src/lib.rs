//! Clients of the public API which make every sequence of calls the property speaks about. The
//! functions `r_*` are the entry points of the analysis. This crate is compiled, never run.
#![allow(dead_code, unused_must_use, clippy::all)]
pub mod abs;
pub mod env;
#[cfg(feature = "c08")]
mod wrap;
#[cfg(feature = "c09")]
mod jwrap;
#[cfg(any(feature = "c10", feature = "c11", feature = "c14", feature = "c18", feature = "c21"))]
mod mirror;
#[cfg(any(feature = "c11", feature = "c14", feature = "c18", feature = "c21"))]
mod derived;
#[cfg(feature = "c18")]
mod tags;
#[cfg(feature = "stdj")]
mod stdj;
#[cfg(feature = "utf8")]
mod utf8;
#[cfg(feature = "names")]
mod names;
#[cfg(feature = "ser")]
mod ser;
#[cfg(feature = "text")]
mod text;
#[cfg(feature = "entry")]
mod entry;
