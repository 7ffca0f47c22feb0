//! C10, C11, C14, C18, C21: writes a value, then reads the same type from what was written.
use crate::abs::{AbsD, AbsS};
use crate::env::{self, E};
use serdere::*;

/// A value of an unknown type, which may or may not be representable as null. What it writes starts
/// with any operation other than null if it isn't nullable.
pub struct Opq<const NULL: bool>(pub u64);
impl<const NULL: bool> Serialize<AbsS> for Opq<NULL> {
    const NULLABLE: bool = NULL;
    fn serialize(&self, value: Value<AbsS>, _: &mut ()) -> Result<(), E> {
        let (s, done) = value.into_raw();
        let _ = s;
        env::op(if NULL { "put_nullable" } else { "put_opaque" }, self.0)?;
        *done = true;
        Ok(())
    }
}
impl<const NULL: bool> Deserialize<AbsD> for Opq<NULL> {
    const NULLABLE: bool = NULL;
    fn deserialize(value: Value<AbsD>, _: &mut ()) -> Result<Self, E> {
        let (d, done) = value.into_raw();
        let _ = d;
        let x = env::get(if NULL { "get_nullable" } else { "get_opaque" }, ())?;
        *done = true;
        Ok(Opq(x))
    }
}
impl<const NULL: bool> Default for Opq<NULL> {
    fn default() -> Self { Opq(env::ask("default", ())) }
}
pub type O = Opq<false>;
pub type N = Opq<true>;

pub fn any_o() -> O { Opq(env::any()) }
pub fn any_n() -> N { Opq(env::any()) }

pub fn write<T: Serialize<AbsS> + ?Sized>(v: &T) {
    env::note("write", <T as Serialize<AbsS>>::NULLABLE);
    let r = Value::with(&mut AbsS, |t| v.serialize(t, &mut ()));
    env::note("written", r);
}

pub fn read<T: Deserialize<AbsD>>() -> T {
    env::note("read", <T as Deserialize<AbsD>>::NULLABLE);
    let r = Value::with(&mut AbsD, |t| T::deserialize(t, &mut ()));
    match r {
        Ok(v) => v,
        Err(e) => {
            env::note("failed", e);
            env::stop()
        }
    }
}

pub fn mirror<T: Serialize<AbsS> + Deserialize<AbsD>>(v: T) {
    write(&v);
    let r = read::<T>();
    env::note("same", (v, r));
}

macro_rules! prims { ($($r:ident: $t:ty),*) => { $( fn $r() { mirror::<$t>(env::any()) } )* } }
macro_rules! nonzero {
    ($($r:ident $q:ident: $t:ident, $p:ty);*) => { $(
        fn $r() {
            let x: $p = env::any();
            if x == 0 { return; }
            let v = match std::num::$t::new(x) { Some(v) => v, None => env::stop() };
            write(&v);
            let r = read::<std::num::$t>();
            env::note("same", (x, r.get()));
        }
        fn $q() {
            env::note("any", ());
            let r = Value::with(&mut AbsD, |t| <std::num::$t as Deserialize<AbsD>>::deserialize(t, &mut ()));
            match r {
                Ok(v) => env::note("valid", v.get()),
                Err(e) => env::note("invalid", e),
            }
        }
    )* };
}

#[cfg(any(feature = "c10", feature = "c14"))]
mod builtin {
    use super::*;
    prims!(r_b_bool: bool, r_b_i8: i8, r_b_i16: i16, r_b_i32: i32, r_b_i64: i64, r_b_u8: u8, r_b_u16: u16,
        r_b_u32: u32, r_b_u64: u64, r_b_f32: f32, r_b_f64: f64, r_b_char: char);
    nonzero!(r_b_nz_i8 r_v_i8: NonZeroI8, i8; r_b_nz_i16 r_v_i16: NonZeroI16, i16; r_b_nz_i32 r_v_i32: NonZeroI32, i32;
        r_b_nz_i64 r_v_i64: NonZeroI64, i64; r_b_nz_u8 r_v_u8: NonZeroU8, u8; r_b_nz_u16 r_v_u16: NonZeroU16, u16;
        r_b_nz_u32 r_v_u32: NonZeroU32, u32; r_b_nz_u64 r_v_u64: NonZeroU64, u64);
    fn r_b_string() { mirror::<String>(env::any()) }
    fn r_b_str() {
        let s = env::any_str();
        write::<str>(s);
        let r = read::<String>();
        env::note("same", (s, &*r));
    }
    fn r_b_unit() { mirror(()) }
    fn r_b_pair() { mirror((any_o(), any_n())) }
    fn r_b_triple() { mirror((any_o(), any_n(), any_o())) }
    fn r_b_arr0() { mirror::<[O; 0]>([]) }
    fn r_b_arr1() { mirror([any_o()]) }
    fn r_b_arr2() { mirror([any_o(), any_o()]) }
    fn r_b_arr3() { mirror([any_n(), any_n(), any_n()]) }
    fn r_b_vec() {
        let mut v = Vec::new();
        let n = env::choose(4);
        if n >= 1 { v.push(any_o()) }
        if n >= 2 { v.push(any_o()) }
        if n >= 3 { v.push(any_o()) }
        mirror(v)
    }
    fn r_b_some() { mirror(Some(any_o())) }
    fn r_b_none() { mirror(None::<O>) }
    fn r_b_some_n() { mirror(Some(any_n())) }
    fn r_b_none_n() { mirror(None::<N>) }
    fn r_b_nested() {
        mirror((vec2((any_o(), Some(any_o()))), [None, Some(any_n())]))
    }
    fn vec2<T>(x: T) -> Vec<T> {
        let mut v = Vec::new();
        v.push(x);
        v
    }
}

#[cfg(feature = "c21")]
mod null {
    use super::*;
    use crate::derived as d;

    /// An optional value whose content may itself be written as null if `can`.
    fn opt<T: Serialize<AbsS> + Deserialize<AbsD>>(v: Option<T>, can: bool) {
        env::note("option", (v.is_some(), can));
        mirror(v);
    }
    fn r_n_some() { opt(Some(any_o()), false) }
    fn r_n_none() { opt(None::<O>, false) }
    fn r_n_some_n() { opt(Some(any_n()), true) }
    fn r_n_none_n() { opt(None::<N>, true) }
    fn r_n_some_some() { opt(Some(Some(any_o())), true) }
    fn r_n_some_none() { opt(Some(None::<O>), true) }
    fn r_n_none_none() { opt(None::<Option<O>>, true) }
    fn r_n_3() { opt(Some(Some(Some(any_o()))), true) }
    fn r_n_3n() { opt(Some(Some(None::<O>)), true) }
    fn r_n_some_tuple() { opt(Some((any_n(), any_n())), false) }
    fn r_n_some_tuple3() { opt(Some((any_n(), any_n(), any_n())), false) }
    fn r_n_some_array() { opt(Some([any_n()]), false) }
    fn r_n_some_empty() { opt(Some::<[N; 0]>([]), false) }
    fn r_n_some_vec() {
        let mut v = Vec::new();
        if env::choose(2) == 1 { v.push(any_n()) }
        opt(Some(v), false)
    }
    fn r_n_some_unit() { opt(Some(()), false) }
    fn r_n_some_string() { opt(Some(env::any::<String>()), false) }
    fn r_n_none_tuple() { opt(None::<(N, N)>, false) }
    fn r_n_none_tuple3() { opt(None::<(N, N, N)>, false) }
    fn r_n_none_array() { opt(None::<[N; 1]>, false) }
    fn r_n_none_vec() { opt(None::<Vec<N>>, false) }
    fn r_n_none_unit() { opt(None::<()>, false) }
    fn r_n_none_string() { opt(None::<String>, false) }
    macro_rules! opts { ($($r:ident $q:ident: $t:ty),*) => { $(
        fn $r() { opt::<$t>(Some(env::any()), false) }
        fn $q() { opt::<$t>(None, false) }
    )* } }
    opts!(r_n_bool r_n_none_bool: bool, r_n_i8 r_n_none_i8: i8, r_n_i16 r_n_none_i16: i16, r_n_i32 r_n_none_i32: i32,
        r_n_i64 r_n_none_i64: i64, r_n_u8 r_n_none_u8: u8, r_n_u16 r_n_none_u16: u16, r_n_u32 r_n_none_u32: u32,
        r_n_u64 r_n_none_u64: u64, r_n_f32 r_n_none_f32: f32, r_n_f64 r_n_none_f64: f64, r_n_char r_n_none_char: char);
    macro_rules! onz { ($($r:ident $q:ident: $t:ident),*) => { $(
        fn $q() { opt(None::<std::num::$t>, false) }
        fn $r() {
            match std::num::$t::new(env::any()) {
                Some(v) => {
                    env::note("option", (true, false));
                    write(&Some(v));
                    match read::<Option<std::num::$t>>() {
                        Some(w) => env::note("same", (v.get(), w.get())),
                        None => env::note("same", (0, 1)),
                    }
                }
                None => {}
            }
        }
    )* } }
    onz!(r_n_nz_i8 r_n_none_nz_i8: NonZeroI8, r_n_nz_i16 r_n_none_nz_i16: NonZeroI16,
        r_n_nz_i32 r_n_none_nz_i32: NonZeroI32, r_n_nz_i64 r_n_none_nz_i64: NonZeroI64,
        r_n_nz_u8 r_n_none_nz_u8: NonZeroU8, r_n_nz_u16 r_n_none_nz_u16: NonZeroU16,
        r_n_nz_u32 r_n_none_nz_u32: NonZeroU32, r_n_nz_u64 r_n_none_nz_u64: NonZeroU64);
    fn r_n_struct() { opt(Some(d::plain()), false) }
    fn r_n_none_struct() { opt(None::<d::Plain>, false) }
    fn r_n_unit_struct() { opt(Some(d::Unit), false) }
    fn r_n_none_unit_struct() { opt(None::<d::Unit>, false) }
    fn r_n_tag() { opt(Some(d::Tag::B), false) }
    fn r_n_none_tag() { opt(None::<d::Tag>, false) }
    fn r_n_enum() { opt(Some(d::Sum::B { x: any_n(), y: any_o() }), false) }
    fn r_n_none_enum() { opt(None::<d::Sum>, false) }
    fn r_n_inl() { opt(Some(d::Inlined::A(d::plain())), false) }
    fn r_n_generic() { opt(Some(d::Generic { x: any_n(), y: Some(any_n()) }), false) }
    fn r_n_none_generic() { opt(None::<d::Generic<N, N>>, false) }
    fn r_n_field() { mirror(d::Generic { x: Some(any_o()), y: Some(any_n()) }) }
    fn r_n_vec_of() {
        let mut v = Vec::new();
        v.push(Some(any_o()));
        v.push(None);
        mirror(v)
    }
}
