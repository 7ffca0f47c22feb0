//! Abstract serializer and deserializer: every trait method is one call into the environment.
use crate::env::{self, E};
use serdere::*;
use serdere_json::*;
use std::borrow::Cow;

pub struct AbsS;
pub struct AbsD;
/// Formats which keep the provided implementation of every method that has one.
pub struct DefS;
pub struct DefD;

macro_rules! outliner {
    ($t:ty) => {
        impl Outliner for $t {
            type Error = E;
            fn supports_null(&self) -> bool { env::ask("supports_null", ()) }
            fn pop_null(&mut self) -> Result<(), E> { env::op("pop_null", ()) }
            fn open_str(&mut self) -> Result<(), E> { env::op("open_str", ()) }
            fn close_str(&mut self) -> Result<(), E> { env::op("close_str", ()) }
            fn open_struct(&mut self, n: Option<&'static str>) -> Result<(), E> { env::op("open_struct", n) }
            fn push_field(&mut self, n: &'static str) -> Result<(), E> { env::op("push_field", n) }
            fn close_struct(&mut self) -> Result<(), E> { env::op("close_struct", ()) }
            fn open_tuple(&mut self, n: Option<&'static str>) -> Result<(), E> { env::op("open_tuple", n) }
            fn push_element(&mut self) -> Result<(), E> { env::op("push_element", ()) }
            fn close_tuple(&mut self) -> Result<(), E> { env::op("close_tuple", ()) }
            fn push_item(&mut self) -> Result<(), E> { env::op("push_item", ()) }
            fn close_list(&mut self) -> Result<(), E> { env::op("close_list", ()) }
        }
        impl JsonOutliner for $t {
            fn open_object(&mut self) -> Result<(), E> { env::op("open_object", ()) }
            fn push_entry(&mut self, k: &str) -> Result<(), E> { env::op("push_entry", k) }
            fn close_object(&mut self) -> Result<(), E> { env::op("close_object", ()) }
        }
    };
}
outliner!(AbsS);
outliner!(AbsD);
outliner!(DefS);
outliner!(DefD);

macro_rules! puts {
    ($($n:ident: $t:ty),*) => { $( fn $n(&mut self, v: $t) -> Result<(), E> { env::op(stringify!($n), v) } )* };
}
macro_rules! gets {
    ($($n:ident: $t:ty),*) => { $( fn $n(&mut self) -> Result<$t, E> { env::get(stringify!($n), ()) } )* };
}

impl Serializer for AbsS {
    puts!(put_bool: bool, put_i8: i8, put_i16: i16, put_i32: i32, put_i64: i64, put_u8: u8, put_u16: u16,
        put_u32: u32, put_u64: u64, put_f32: f32, put_f64: f64, put_char: char, append_char: char,
        append_str: &str, put_str: &str);
    fn put_tag(&mut self, m: usize, i: usize, n: Option<&'static str>) -> Result<(), E> { env::op("put_tag", (m, i, n)) }
    fn open_list_sized(&mut self, n: usize) -> Result<(), E> { env::op("open_list_sized", n) }
}

impl JsonSerializer for AbsS {
    fn open_list_streaming(&mut self) -> Result<(), E> { env::op("open_list_streaming", ()) }
    fn add_entry(&mut self) -> Result<(), E> { env::op("add_entry", ()) }
}

impl Deserializer for AbsD {
    gets!(get_bool: bool, get_i8: i8, get_i16: i16, get_i32: i32, get_i64: i64, get_u8: u8, get_u16: u16,
        get_u32: u32, get_u64: u64, get_f32: f32, get_f64: f64, get_char: char, next_char: Option<char>,
        flush_str: Cow<str>, read_str: Cow<str>, check_null: bool, open_list: Option<usize>, next_item: bool);
    fn skip_str(&mut self) -> Result<(), E> { env::op("skip_str", ()) }
    fn flush_name(&mut self, n: &'static NameMap<usize>) -> Result<usize, E> { env::get("flush_name", n) }
    fn get_name(&mut self, n: &'static NameMap<usize>) -> Result<usize, E> { env::get("get_name", n) }
    fn get_tag(&mut self, m: usize, n: &'static NameMap<usize>) -> Result<usize, E> { env::get("get_tag", (m, n)) }
    fn error(&self, s: Box<dyn std::error::Error + Send + Sync>) -> E { env::ask("error", s) }
    fn error_invalid_name(&self, n: &'static NameMap<usize>) -> E { env::ask("error_invalid_name", n) }
    fn error_invalid_index(&self, i: usize) -> E { env::ask("error_invalid_index", i) }
    fn error_missing_item(&self) -> E { env::ask("error_missing_item", ()) }
    fn error_extra_item(&self) -> E { env::ask("error_extra_item", ()) }
}

impl JsonDeserializer for AbsD {
    fn peek_value_type(&self) -> ValueType { env::ask("peek_value_type", ()) }
    fn peek_collection_type(&self) -> CollectionType { env::ask("peek_collection_type", ()) }
    fn skip_value(&mut self) -> Result<(), E> { env::op("skip_value", ()) }
    fn push_null(&mut self, k: Option<&'static str>) { env::ask("push_null", k) }
    fn try_push_entry(&mut self, k: &str) -> Result<bool, E> { env::get("try_push_entry", k) }
    fn next_entry(&mut self) -> Result<bool, E> { env::get("next_entry", ()) }
    fn skip_object(&mut self) -> Result<(), E> { env::op("skip_object", ()) }
    fn error_expected_type(&self, t: &'static [ValueType]) -> E { env::ask("error_expected_type", t) }
    fn error_missing_entry(&self, k: String) -> E { env::ask("error_missing_entry", k) }
    fn error_extra_entry(&self, k: String) -> E { env::ask("error_extra_entry", k) }
}

impl Serializer for DefS {
    puts!(put_bool: bool, put_i8: i8, put_i16: i16, put_i32: i32, put_i64: i64, put_u8: u8, put_u16: u16,
        put_u32: u32, put_u64: u64, put_f32: f32, put_f64: f64, put_char: char, append_char: char);
    fn put_tag(&mut self, m: usize, i: usize, n: Option<&'static str>) -> Result<(), E> {
        serdere_json::serialize::put_tag(self, m, i, n)
    }
    fn open_list_sized(&mut self, n: usize) -> Result<(), E> { env::op("open_list_sized", n) }
}

impl JsonSerializer for DefS {
    fn open_list_streaming(&mut self) -> Result<(), E> { env::op("open_list_streaming", ()) }
    fn add_entry(&mut self) -> Result<(), E> { env::op("add_entry", ()) }
}

impl Deserializer for DefD {
    gets!(get_bool: bool, get_i8: i8, get_i16: i16, get_i32: i32, get_i64: i64, get_u8: u8, get_u16: u16,
        get_u32: u32, get_u64: u64, get_f32: f32, get_f64: f64, get_char: char, next_char: Option<char>,
        check_null: bool, open_list: Option<usize>, next_item: bool);
    fn get_tag(&mut self, m: usize, n: &'static NameMap<usize>) -> Result<usize, E> {
        serdere_json::deserialize::get_tag(self, m, n)
    }
    fn error(&self, s: Box<dyn std::error::Error + Send + Sync>) -> E { env::ask("error", s) }
    fn error_invalid_name(&self, n: &'static NameMap<usize>) -> E { env::ask("error_invalid_name", n) }
    fn error_invalid_index(&self, i: usize) -> E { env::ask("error_invalid_index", i) }
    fn error_missing_item(&self) -> E { env::ask("error_missing_item", ()) }
    fn error_extra_item(&self) -> E { env::ask("error_extra_item", ()) }
}

impl JsonDeserializer for DefD {
    fn peek_value_type(&self) -> ValueType { env::ask("peek_value_type", ()) }
    fn peek_collection_type(&self) -> CollectionType { env::ask("peek_collection_type", ()) }
    fn push_null(&mut self, k: Option<&'static str>) { env::ask("push_null", k) }
    fn try_push_entry(&mut self, k: &str) -> Result<bool, E> { env::get("try_push_entry", k) }
    fn next_entry(&mut self) -> Result<bool, E> { env::get("next_entry", ()) }
    fn error_expected_type(&self, t: &'static [ValueType]) -> E { env::ask("error_expected_type", t) }
    fn error_missing_entry(&self, k: String) -> E { env::ask("error_missing_entry", k) }
    fn error_extra_entry(&self, k: String) -> E { env::ask("error_extra_entry", k) }
}
