//! C01, C02, C14, C20: the JSON text serializer is driven through every sequence of calls that follows the
//! documented stack protocol, while everything it hands to the text writer is observed.
use crate::env::{self, E};
use serdere::*;
use serdere_json::*;

pub struct W;
impl TextWriter for W {
    type Error = E;
    fn write_char(&mut self, c: char) -> Result<(), E> { env::op("write_char", c) }
    fn write_str(&mut self, s: &str) -> Result<(), E> { env::op("write_str", s) }
}
/// A writer which keeps the provided `write_str`.
pub struct W1;
impl TextWriter for W1 {
    type Error = E;
    fn write_char(&mut self, c: char) -> Result<(), E> { env::op("write_char", c) }
}

fn done(r: Result<(), E>) { env::note("done", r) }
fn arg<T>() -> T { env::ask("arg", ()) }
fn name() -> Option<&'static str> { if env::choose(2) == 0 { None } else { Some("T") } }

fn drive<X: TextWriter<Error = E>>(w: X) {
    let indent = if env::choose(2) == 0 { None } else { Some(" \t") };
    let mut s = TextSerializer::new(TextSerializerConfig { indent }, w);
    env::note("null", s.supports_null());
    loop {
        match env::ask::<u32, _>("call", ()) {
            0 => done(s.put_bool(arg())),
            1 => done(s.put_i8(arg())),
            2 => done(s.put_i16(arg())),
            3 => done(s.put_i32(arg())),
            4 => done(s.put_i64(arg())),
            5 => done(s.put_u8(arg())),
            6 => done(s.put_u16(arg())),
            7 => done(s.put_u32(arg())),
            8 => done(s.put_u64(arg())),
            9 => done(s.put_f32(arg())),
            10 => done(s.put_f64(arg())),
            11 => done(s.put_char(arg())),
            12 => done(s.pop_null()),
            13 => done(s.put_str(arg())),
            14 => done(s.open_str()),
            15 => done(s.append_char(arg())),
            16 => done(s.append_str(arg())),
            17 => done(s.close_str()),
            18 => done(s.put_tag(arg(), arg(), None)),
            19 => done(s.put_tag(arg(), arg(), Some(arg()))),
            20 => done(s.open_struct(name())),
            21 => done(s.push_field(arg())),
            22 => done(s.close_struct()),
            23 => done(s.open_tuple(name())),
            24 => done(s.push_element()),
            25 => done(s.close_tuple()),
            26 => done(s.open_list_sized(arg())),
            27 => done(s.open_list_streaming()),
            28 => done(s.push_item()),
            29 => done(s.close_list()),
            30 => done(s.open_object()),
            31 => done(s.push_entry(arg())),
            32 => done(s.add_entry()),
            33 => done(s.close_object()),
            _ => {
                s.close();
                env::note("closed", ());
                return;
            }
        }
    }
}
/// Nesting, with few kinds of scalar.
fn r_s_struct() { drive(W) }
/// Every kind of scalar, at little depth.
fn r_s_scalar() { drive(W) }
/// Strings and keys.
fn r_s_string() { drive(W) }
/// Strings and keys, to a writer which takes single characters.
fn r_s_chars() { drive(W1) }
/// Through a reference to the writer.
fn r_s_mut() { drive(&mut W) }
