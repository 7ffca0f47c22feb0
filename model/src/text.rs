//! Reading JSON text: the deserializer is driven through every legal sequence of calls (chosen by the analyzer)
//! while it reads unknown characters.
use crate::env;
use serdere::*;
use serdere_json::*;

/// A reader of unknown characters.
pub struct R;
/// A position in the unknown text.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct P(pub u64);
impl std::fmt::Display for P {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}
impl TextReader for R {
    fn next(&mut self) -> Option<char> { env::ask("next", ()) }
    fn peek(&self) -> Option<char> { env::ask("peek", ()) }
    type Position = P;
    fn position(&self) -> P { P(env::ask("position", ())) }
}

type Res<T> = Result<T, DeserializeError<P>>;

pub fn fail(e: DeserializeError<P>) -> ! {
    let p = e.position().0;
    match e.message() {
        DeserializeErrorMessage::Custom(_) => env::note("failed", ("Custom", p, ())),
        DeserializeErrorMessage::UnexpectedEof => env::note("failed", ("UnexpectedEof", p, ())),
        DeserializeErrorMessage::UnexpectedChar => env::note("failed", ("UnexpectedChar", p, ())),
        DeserializeErrorMessage::InvalidLiteral => env::note("failed", ("InvalidLiteral", p, ())),
        DeserializeErrorMessage::Expected(t) => env::note("failed", ("Expected", p, *t)),
        DeserializeErrorMessage::NumberOverflow => env::note("failed", ("NumberOverflow", p, ())),
        DeserializeErrorMessage::UnrecognizedEscape => env::note("failed", ("UnrecognizedEscape", p, ())),
        DeserializeErrorMessage::MissingKey(k) => env::note("failed", ("MissingKey", p, k.as_str())),
        DeserializeErrorMessage::ExtraKey(k) => env::note("failed", ("ExtraKey", p, k.as_str())),
        DeserializeErrorMessage::KeyTooLong => env::note("failed", ("KeyTooLong", p, ())),
        DeserializeErrorMessage::MissingItems => env::note("failed", ("MissingItems", p, ())),
        DeserializeErrorMessage::ExcessItems => env::note("failed", ("ExcessItems", p, ())),
    }
    env::stop()
}
fn done<T>(r: Res<T>) {
    match r {
        Ok(v) => env::note("ok", v),
        Err(e) => fail(e),
    }
}
pub fn start() -> TextDeserializer<R> {
    match TextDeserializer::new(TextDeserializerConfig { allow_comments: env::ask("comments", ()) }, R) {
        Ok(d) => {
            env::note("ok", ());
            d
        }
        Err(e) => fail(e),
    }
}
fn walk(d: TextDeserializer<R>) {
    let mut d = d;
    loop {
        match env::ask::<u32, _>("call", ()) {
            0 => done(d.get_bool()),
            1 => done(d.pop_null()),
            2 => done(d.check_null()),
            3 => env::note("ok", d.peek_value_type()),
            4 => done(d.open_str()),
            5 => done(d.open_object()),
            6 => done(d.open_list()),
            7 => done(d.skip_value()),
            8 => done(d.get_char()),
            9 => done(d.next_char()),
            10 => done(d.close_str()),
            11 => done(d.flush_str()),
            12 => done(d.skip_str()),
            13 => done(d.read_str()),
            14 => done(d.next_entry()),
            15 => done(d.try_push_entry(env::ask::<&str, _>("key", ()))),
            16 => done(d.push_entry(env::ask::<&str, _>("key", ()))),
            17 => done(d.close_object()),
            18 => done(d.skip_object()),
            19 => done(d.open_struct(None)),
            20 => done(d.push_field(env::ask::<&'static str, _>("key", ()))),
            21 => done(d.close_struct()),
            22 => done(d.open_tuple(None)),
            23 => done(d.push_element()),
            24 => done(d.close_tuple()),
            25 => done(d.next_item()),
            26 => done(d.push_item()),
            27 => done(d.close_list()),
            28 => env::note("ok", d.peek_collection_type()),
            29 => {
                let e = d.error(Box::new(env::E(0)));
                env::note("ok", e.position().0)
            }
            30 => {
                let e = d.error_expected_type(&[]);
                env::note("ok", e.position().0)
            }
            31 => env::note("ok", d.supports_null()),
            40 => done(d.get_i8()),
            41 => done(d.get_i16()),
            42 => done(d.get_i32()),
            43 => done(d.get_i64()),
            44 => done(d.get_u8()),
            45 => done(d.get_u16()),
            46 => done(d.get_u32()),
            47 => done(d.get_u64()),
            48 => done(d.get_f32()),
            49 => done(d.get_f64()),
            50 => done(d.read_number::<i128>()),
            51 => done(d.read_number::<u128>()),
            60 => {
                done(d.close());
                return;
            }
            _ => env::stop(),
        }
    }
}
/// Everything is read in document order.
fn r_w_walk() { walk(start()) }
/// Numbers.
fn r_w_number() { walk(start()) }
/// Entries are asked for by key.
fn r_w_look() { walk(start()) }
