//! C13, C14: the standard implementations of `serdere::Deserializer` and `serdere_json` on top of the required
//! methods of a deserializer. Each call starts from every kind of stack.
use crate::abs::DefD;
use crate::env::{self, E};
use serdere::*;
use serdere_json::*;
use serdere_json::deserialize as std_impl;

fn done<T>(r: Result<T, E>) {
    match r {
        Ok(v) => env::note("ok", v),
        Err(e) => env::note("failed", e),
    }
}
fn name() -> &'static str { env::ask("arg", ()) }
fn r_j_skip_value() { done(DefD.skip_value()) }
fn r_j_skip_object() { done(DefD.skip_object()) }
fn r_j_skip_str() { done(DefD.skip_str()) }
fn r_j_flush_str() { done(DefD.flush_str()) }
fn r_j_read_str() { done(DefD.read_str()) }
fn r_j_open_struct() { done(std_impl::open_struct(&mut DefD, Some("T"))) }
fn r_j_push_field() { done(std_impl::push_field(&mut DefD, name())) }
fn r_j_close_struct() { done(std_impl::close_struct(&mut DefD)) }
fn r_j_push_item() { done(std_impl::push_item(&mut DefD)) }
fn r_j_close_list() { done(std_impl::close_list(&mut DefD)) }
