//! C15: the functions which read or write one whole document, with a type which does as the analyzer pleases.
use crate::env::{self, E};
use crate::ser::W;
use crate::text::{fail, P, R};
use serdere::*;
use serdere_json::*;

/// The context handed to the type.
pub struct C(pub u64);
/// A type which reads and writes any value there is.
pub struct Any(u64);

/// Reads a value, gives up, or breaks the rules and says that it is done.
fn read(value: Value<TextDeserializer<R>>) -> Result<Any, DeserializeError<P>> {
    let (d, done) = value.into_raw();
    env::note("ok", ());
    loop {
        match env::ask::<u32, _>("call", ()) {
            0 => env::note("ok", d.get_bool()?),
            1 => env::note("ok", d.pop_null()?),
            2 => env::note("ok", d.check_null()?),
            3 => env::note("ok", d.peek_value_type()),
            4 => env::note("ok", d.open_str()?),
            5 => env::note("ok", d.open_object()?),
            6 => env::note("ok", d.open_list()?),
            7 => env::note("ok", d.skip_value()?),
            9 => env::note("ok", d.next_char()?),
            10 => env::note("ok", d.close_str()?),
            12 => env::note("ok", d.skip_str()?),
            14 => env::note("ok", d.next_entry()?),
            17 => env::note("ok", d.close_object()?),
            18 => env::note("ok", d.skip_object()?),
            25 => env::note("ok", d.next_item()?),
            26 => env::note("ok", d.push_item()?),
            27 => env::note("ok", d.close_list()?),
            42 => env::note("ok", d.get_i32()?),
            60 => {
                *done = true;
                return Ok(Any(env::ask("result", ())));
            }
            61 => return Ok(Any(0)),
            62 => return Err(d.error(Box::new(E(0)))),
            _ => env::stop(),
        }
    }
}
impl Deserialize<TextDeserializer<R>> for Any {
    const NULLABLE: bool = true;
    fn deserialize(value: Value<TextDeserializer<R>>, _: &mut ()) -> Result<Any, DeserializeError<P>> { read(value) }
}
impl Deserialize<TextDeserializer<R>, C> for Any {
    const NULLABLE: bool = true;
    fn deserialize(value: Value<TextDeserializer<R>>, c: &mut C) -> Result<Any, DeserializeError<P>> {
        env::note("context", c.0);
        read(value)
    }
}
fn whole(r: Result<Any, DeserializeError<P>>) {
    match r {
        Ok(v) => env::note("whole", v.0),
        Err(e) => fail(e),
    }
}
/// From a reader.
fn r_e_read() { whole(from_reader(R)) }
/// From a reader, with a context.
fn r_e_read_using() {
    let mut c = C(env::ask("context", ()));
    whole(from_reader_using(R, &mut c))
}

/// A type which is content with anything.
pub struct Thing;
fn pass<'s>(value: Value<TextDeserializer<&'s str>>) -> Result<Thing, DeserializeError<StrPosition<'s>>> {
    let (d, done) = value.into_raw();
    d.skip_value()?;
    *done = true;
    Ok(Thing)
}
impl<'s> Deserialize<TextDeserializer<&'s str>> for Thing {
    const NULLABLE: bool = true;
    fn deserialize(value: Value<TextDeserializer<&'s str>>, _: &mut ()) -> Result<Thing, DeserializeError<StrPosition<'s>>> {
        pass(value)
    }
}
impl<'s> Deserialize<TextDeserializer<&'s str>, C> for Thing {
    const NULLABLE: bool = true;
    fn deserialize(value: Value<TextDeserializer<&'s str>>, c: &mut C) -> Result<Thing, DeserializeError<StrPosition<'s>>> {
        env::note("context", c.0);
        pass(value)
    }
}
fn string(r: Result<Thing, DeserializeError<StrPosition<'static>>>) { env::note("string", r.is_ok()) }
/// From a string.
fn r_e_str() { string(from_str(env::ask::<&'static str, _>("text", ()))) }
/// From a string, with a context.
fn r_e_str_using() {
    let mut c = C(env::ask("context", ()));
    string(from_str_using(env::ask::<&'static str, _>("text", ()), &mut c))
}

fn told<X>(r: Result<(), X>) -> Result<(), X> {
    env::note("done", r.is_ok());
    r
}
fn arg<T>() -> T { env::ask("arg", ()) }
/// Writes a value, gives up, or breaks the rules and says that it is done.
fn write<X: TextWriter>(value: Value<TextSerializer<X>>) -> Result<(), X::Error> {
    let (s, done) = value.into_raw();
    loop {
        match env::ask::<u32, _>("call", ()) {
            0 => told(s.put_bool(arg()))?,
            5 => told(s.put_u8(arg()))?,
            12 => told(s.pop_null())?,
            13 => told(s.put_str(arg()))?,
            20 => told(s.open_struct(None))?,
            21 => told(s.push_field(arg()))?,
            22 => told(s.close_struct())?,
            23 => told(s.open_tuple(None))?,
            24 => told(s.push_element())?,
            25 => told(s.close_tuple())?,
            27 => told(s.open_list_streaming())?,
            28 => told(s.push_item())?,
            29 => told(s.close_list())?,
            30 => told(s.open_object())?,
            31 => told(s.push_entry(arg()))?,
            33 => told(s.close_object())?,
            99 => {
                *done = true;
                return Ok(());
            }
            98 => return Ok(()),
            _ => env::stop(),
        }
    }
}
impl<X: TextWriter> Serialize<TextSerializer<X>> for Any {
    const NULLABLE: bool = true;
    fn serialize(&self, value: Value<TextSerializer<X>>, _: &mut ()) -> Result<(), X::Error> {
        env::note("value", self.0);
        write(value)
    }
}
impl<X: TextWriter> Serialize<TextSerializer<X>, C> for Any {
    const NULLABLE: bool = true;
    fn serialize(&self, value: Value<TextSerializer<X>>, c: &mut C) -> Result<(), X::Error> {
        env::note("value", self.0);
        env::note("context", c.0);
        write(value)
    }
}
/// To a writer.
fn r_e_write() { env::note("written", to_writer(W, &Any(env::ask("value", ())))) }
/// To a writer, with a context.
fn r_e_write_using() {
    let mut c = C(env::ask("context", ()));
    env::note("written", to_writer_using(W, &Any(env::ask("value", ())), &mut c))
}
/// To a string.
fn r_e_to_str() { env::note("text", to_str(&Any(env::ask("value", ()))).as_str()) }
/// To a string, with a context.
fn r_e_to_str_using() {
    let mut c = C(env::ask("context", ()));
    env::note("text", to_str_using(&Any(env::ask("value", ())), &mut c).as_str())
}
