//! C18: reading and writing tags.
use crate::abs::{AbsD, DefD, DefS};
use crate::derived::*;
use crate::env::{self, E};
use serdere::*;

/// Reads an enum whose variants have the declared indices, in order. `which` gives the position of a variant.
fn decode<T: Deserialize<AbsD>>(declared: &'static [usize], which: impl Fn(&T) -> usize) {
    env::note("declared", declared);
    match Value::with(&mut AbsD, |v| T::deserialize(v, &mut ())) {
        Ok(v) => {
            let i = which(&v);
            env::note("decoded", i)
        }
        Err(e) => env::note("refused", e),
    }
}
fn r_e_tag() {
    decode::<Tag>(&[0, 1, 2], |v| match v { Tag::A => 0, Tag::B => 1, Tag::C => 2 })
}
fn r_e_numbered() {
    decode::<Numbered>(&[5, 6, 2, 3], |v| match v {
        Numbered::A => 0, Numbered::B => 1, Numbered::C => 2, Numbered::D => 3,
    })
}
fn r_e_reindexed() {
    decode::<Reindexed>(&[7, 4, 1, 3, 11], |v| match v {
        Reindexed::A => 0, Reindexed::B => 1, Reindexed::C => 2, Reindexed::D => 3, Reindexed::E => 4,
    })
}
fn r_e_mixed() {
    decode::<Mixed>(&[0, 1, 40, 41, 1000], |v| match v {
        Mixed::A => 0, Mixed::B => 1, Mixed::C => 2, Mixed::D => 3, Mixed::E => 4,
    })
}
fn r_e_sum() {
    decode::<Sum>(&[0, 1, 2], |v| match v { Sum::A => 0, Sum::B { .. } => 1, Sum::C { .. } => 2 })
}
fn r_e_tagged() {
    decode::<Tagged>(&[0, 6, 2], |v| match v { Tagged::A => 0, Tagged::B => 1, Tagged::C { .. } => 2 })
}
fn r_e_only() {
    decode::<OnlyTags>(&[0, 1], |v| match v { OnlyTags::A => 0, OnlyTags::B => 1 })
}
fn r_e_inlined() {
    decode::<Inlined>(&[0, 1, 2, 3], |v| match v {
        Inlined::A(_) => 0, Inlined::B { .. } => 1, Inlined::C { .. } => 2, Inlined::D(_) => 3,
    })
}

fn done(r: Result<usize, E>) {
    match r {
        Ok(i) => env::note("tag", i),
        Err(e) => env::note("no tag", e),
    }
}
const NAMES: &NameMap<usize> = FixedNameMap::new([("b", 3), ("", 9), ("ab", 0), ("\u{e9}", 4), ("a", 7)]).unfix();
const ONE: &NameMap<usize> = FixedNameMap::new([("x", 1)]).unfix();
const EMPTY: &NameMap<usize> = FixedNameMap::new([]).unfix();

/// The standard implementation of `get_tag`, for any limit.
fn r_g_tag() {
    let max = env::any();
    env::note("max", max);
    let d: &mut DefD = &mut DefD;
    done(d.get_tag(max, NAMES))
}
fn r_g_one() {
    env::note("max", 1usize);
    done(DefD.get_tag(1, ONE))
}
fn r_g_empty() {
    env::note("max", 5usize);
    done(DefD.get_tag(5, EMPTY))
}
/// The same through the wrapper.
fn r_g_value() {
    let max = env::any();
    env::note("max", max);
    done(Value::with(&mut DefD, |v| v.get_tag(max, NAMES)))
}
fn r_g_name() {
    env::note("name", ());
    done(DefD.get_name(NAMES))
}

fn r_p_name() {
    let name = env::any_text(env::choose(3));
    env::note("put name", name);
    let r = DefS.put_tag(env::any(), env::any(), Some(name));
    env::note("put", r)
}
fn r_p_index() {
    let i: usize = env::any();
    env::note("put index", i);
    let r = DefS.put_tag(env::any(), i, None);
    env::note("put", r)
}
fn r_p_value_name() {
    let name = env::any_text(env::choose(3));
    env::note("put name", name);
    let r = Value::with(&mut DefS, |v| v.put_tag(env::any(), env::any(), Some(name)));
    env::note("put", r)
}
fn r_p_value_index() {
    let i: usize = env::any();
    env::note("put index", i);
    let r = Value::with(&mut DefS, |v| v.put_tag(env::any(), i, None));
    env::note("put", r)
}
