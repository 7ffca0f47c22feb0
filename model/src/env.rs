//! Calls into the environment of the code under analysis. None of these bodies ever runs and none
//! is analysed: the analyzer gives each call its meaning (an unknown result, or a step of the
//! property's automaton).
#![allow(unused_variables)]

/// The error of an abstract serializer, deserializer or sink. Errors differ only by identity.
pub struct E(pub u64);

/// A call on an abstract source, which succeeds or fails.
pub fn op<T>(name: &'static str, arg: T) -> Result<(), E> { unimplemented!() }
/// A call on an abstract source which gives a value when it succeeds.
pub fn get<T, A>(name: &'static str, arg: A) -> Result<T, E> { unimplemented!() }
/// A call on an abstract source which cannot fail.
pub fn ask<T, A>(name: &'static str, arg: A) -> T { unimplemented!() }
/// An arbitrary value.
pub fn any<T>() -> T { unimplemented!() }
/// An arbitrary string (of unknown length and content).
pub fn any_str() -> &'static str { unimplemented!() }
/// An arbitrary string of `n` characters.
pub fn any_text(n: u32) -> &'static str { unimplemented!() }
/// An arbitrary choice of a number below `n`.
pub fn choose(n: u32) -> u32 { unimplemented!() }
/// Announces the call on the wrapper under analysis which comes next.
pub fn will<T>(name: &'static str, arg: T) { unimplemented!() }
/// Gives the outcome of the announced call.
pub fn did<T>(out: T) { unimplemented!() }
/// Tells the automaton something.
pub fn note<T>(name: &'static str, arg: T) { unimplemented!() }
/// Ends the current path.
pub fn stop() -> ! { unimplemented!() }

impl std::fmt::Debug for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}
impl std::error::Error for E {}
