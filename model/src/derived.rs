//! C11: types whose implementations are generated by the derive macros.
use crate::env;
use crate::mirror::{any_n, any_o, mirror, N, O};
use serdere::{Deserialize, Serialize};

#[derive(Serialize, Deserialize)]
pub struct Unit;

#[derive(Serialize, Deserialize)]
pub struct Plain { pub a: O, pub b: N, pub c: O }

#[derive(Serialize, Deserialize)]
pub struct Renamed {
    #[serde(rename = "z")] pub a: O,
    pub b: O,
    #[serde(rename = "a")] pub c: O,
}

#[derive(Serialize, Deserialize)]
pub struct Flat {
    pub p: O,
    #[serde(flatten)] pub inner: Plain,
    pub q: O,
    #[serde(flatten)] pub other: Renamed,
}

#[derive(Serialize, Deserialize)]
pub struct Defaulted {
    pub a: O,
    #[serde(default)] pub b: O,
    #[serde(default)] pub c: Option<O>,
    #[serde(rename = "dd", default)] pub d: O,
}

#[derive(Serialize, Deserialize)]
pub struct Generic<T, U: Sized> where T: Sized { pub x: T, pub y: Option<U> }

#[derive(Serialize, Deserialize)]
pub struct Arrayed<const K: usize> { pub x: [O; K] }

#[derive(Serialize, Deserialize)]
pub enum Tag { A, B, C }

#[derive(Serialize, Deserialize)]
pub enum Numbered { A = 5, B, #[serde(rename = "see")] C = 2, D }

#[derive(Serialize, Deserialize)]
pub enum Reindexed { #[serde(reindex = 7)] A, B = 4, #[serde(reindex = 1)] C = 9, #[serde(reindex = 3, rename = "A2")] D, E }

#[derive(Serialize, Deserialize)]
pub enum Sum { A, B { x: N, y: O }, #[serde(rename = "sea")] C { #[serde(rename = "w")] x: O } }

#[derive(Serialize, Deserialize)]
#[serde(tag = "kind")]
pub enum Tagged { A, #[serde(reindex = 6)] B, C { a: O } }

#[derive(Serialize, Deserialize)]
#[serde(tag = "t", rename = "Other")]
pub enum Inlined {
    #[serde(transparent)] A(Plain),
    B { #[serde(flatten)] p: Renamed, q: O },
    #[serde(transparent)] C { inner: Renamed },
    #[serde(transparent)] D(Sum),
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "only")]
pub enum OnlyTags { A, B }

#[derive(Serialize, Deserialize)]
pub enum GenericSum<T> { L { v: T }, R { v: T, w: O } }

#[derive(Serialize, Deserialize)]
pub struct Nested { pub a: Tag, pub b: Sum, pub c: Vec<Plain>, pub d: (Tag, O) }

/// Sources which hold what the type of the same name outside may have written.
pub mod src {
    use crate::abs::AbsS;
    use crate::env::{self, E};
    use crate::mirror::O;
    use serdere::*;
    pub struct Null;
    impl Serialize<AbsS> for Null {
        const NULLABLE: bool = true;
        fn serialize(&self, value: Value<AbsS>, _: &mut ()) -> Result<(), E> {
            let (s, done) = value.into_raw();
            if !s.supports_null() {
                return env::stop();
            }
            s.pop_null()?;
            *done = true;
            Ok(())
        }
    }
    #[derive(Serialize)]
    pub struct Defaulted { pub a: O, pub b: Null, pub c: Null, pub dd: Null }
    #[derive(Serialize)]
    pub struct Proxied { pub x: O, pub y: O, pub a: O, pub b: O, pub z: Null }
    #[derive(Serialize)]
    pub struct Pair { pub a: O, pub b: O }
}

pub struct Wrapped(pub O);
impl From<O> for Wrapped {
    fn from(x: O) -> Self { Wrapped(x) }
}
impl From<src2::Pair> for Wrapped {
    fn from(x: src2::Pair) -> Self { Wrapped(x.b) }
}
impl Default for Wrapped {
    fn default() -> Self { Wrapped(crate::mirror::Opq(9)) }
}
pub mod src2 {
    use crate::mirror::O;
    #[derive(serdere::Deserialize)]
    pub struct Pair { pub a: O, pub b: O }
}

#[derive(Deserialize)]
pub struct Proxied {
    #[serde(proxy = O)] pub x: Wrapped,
    pub y: O,
    #[serde(flatten, proxy = src2::Pair)] pub p: Wrapped,
    #[serde(default, proxy = O)] pub z: Wrapped,
}

#[derive(Serialize, Deserialize)]
pub enum Mixed { #[serde(rename = "0")] A = 0, #[serde(rename = "A")] B, C = 40, D, #[serde(reindex = 1000)] E }

#[derive(Serialize, Deserialize)]
pub enum Deep {
    A { #[serde(flatten)] x: Sum },
    #[serde(rename = "A B", transparent)] B { x: Flat },
    C { #[serde(rename = "A")] x: Option<O>, #[serde(default)] y: Option<O> },
}

pub fn plain() -> Plain { Plain { a: any_o(), b: any_n(), c: any_o() } }
pub fn renamed() -> Renamed { Renamed { a: any_o(), b: any_o(), c: any_o() } }

#[cfg(any(feature = "c11", feature = "c14"))]
mod roots {
    use super::*;
    fn r_d_unit() { mirror(Unit) }
    fn r_d_plain() { mirror(plain()) }
    fn r_d_renamed() { mirror(renamed()) }
    fn r_d_flat() { mirror(Flat { p: any_o(), inner: plain(), q: any_o(), other: renamed() }) }
    fn r_d_defaulted() { mirror(Defaulted { a: any_o(), b: any_o(), c: Some(any_o()), d: any_o() }) }
    fn r_d_defaulted2() { mirror(Defaulted { a: any_o(), b: any_o(), c: None, d: any_o() }) }
    fn r_d_nulls() {
        crate::mirror::write(&src::Defaulted { a: any_o(), b: src::Null, c: src::Null, dd: src::Null });
        let r = crate::mirror::read::<Defaulted>();
        env::note("default", (r.b.0, r.d.0));
        env::note("same", (0, match r.c { Some(_) => 1, None => 0 }));
    }
    fn r_d_proxied() {
        let (x, y, b) = (env::any::<u64>(), env::any::<u64>(), env::any::<u64>());
        use crate::mirror::Opq;
        crate::mirror::write(&src::Proxied { x: Opq(x), y: Opq(y), a: any_o(), b: Opq(b), z: src::Null });
        let r = crate::mirror::read::<Proxied>();
        env::note("same", ((x, y, b, 9), (r.x.0 .0, r.y.0, r.p.0 .0, r.z.0 .0)));
    }
    fn r_d_mixed_a() { mirror(Mixed::A) }
    fn r_d_mixed_b() { mirror(Mixed::B) }
    fn r_d_mixed_c() { mirror(Mixed::C) }
    fn r_d_mixed_d() { mirror(Mixed::D) }
    fn r_d_mixed_e() { mirror(Mixed::E) }
    fn r_d_deep_a() { mirror(Deep::A { x: Sum::C { x: any_o() } }) }
    fn r_d_deep_b() { mirror(Deep::B { x: Flat { p: any_o(), inner: plain(), q: any_o(), other: renamed() } }) }
    fn r_d_deep_c() { mirror(Deep::C { x: Some(any_o()), y: None }) }
    fn r_d_generic() { mirror(Generic { x: any_n(), y: Some(any_o()) }) }
    fn r_d_arrayed() { mirror(Arrayed::<2> { x: [any_o(), any_o()] }) }
    fn r_d_tag_a() { mirror(Tag::A) }
    fn r_d_tag_b() { mirror(Tag::B) }
    fn r_d_tag_c() { mirror(Tag::C) }
    fn r_d_num_a() { mirror(Numbered::A) }
    fn r_d_num_b() { mirror(Numbered::B) }
    fn r_d_num_c() { mirror(Numbered::C) }
    fn r_d_num_d() { mirror(Numbered::D) }
    fn r_d_re_a() { mirror(Reindexed::A) }
    fn r_d_re_b() { mirror(Reindexed::B) }
    fn r_d_re_c() { mirror(Reindexed::C) }
    fn r_d_re_d() { mirror(Reindexed::D) }
    fn r_d_re_e() { mirror(Reindexed::E) }
    fn r_d_sum_a() { mirror(Sum::A) }
    fn r_d_sum_b() { mirror(Sum::B { x: any_n(), y: any_o() }) }
    fn r_d_sum_c() { mirror(Sum::C { x: any_o() }) }
    fn r_d_tagged_a() { mirror(Tagged::A) }
    fn r_d_tagged_b() { mirror(Tagged::B) }
    fn r_d_tagged_c() { mirror(Tagged::C { a: any_o() }) }
    fn r_d_inl_a() { mirror(Inlined::A(plain())) }
    fn r_d_inl_b() { mirror(Inlined::B { p: renamed(), q: any_o() }) }
    fn r_d_inl_c() { mirror(Inlined::C { inner: renamed() }) }
    fn r_d_inl_d() { mirror(Inlined::D(Sum::B { x: any_n(), y: any_o() })) }
    fn r_d_only_a() { mirror(OnlyTags::A) }
    fn r_d_only_b() { mirror(OnlyTags::B) }
    fn r_d_gen_l() { mirror(GenericSum::L { v: any_n() }) }
    fn r_d_gen_r() { mirror(GenericSum::R { v: any_n(), w: any_o() }) }
    fn r_d_nested() {
        let mut v = Vec::new();
        v.push(plain());
        mirror(Nested { a: Tag::B, b: Sum::C { x: any_o() }, c: v, d: (Tag::C, any_o()) })
    }
}
