//! C22: name tables with unknown names, queried by unknown strings.
use crate::env;
use serdere::*;

fn name(i: usize) -> (&'static str, usize) {
    (env::ask("name", i), i)
}
/// What is done with a table: a lookup in one or two pieces, or by characters; or going over its entries.
fn get(map: &NameMap<usize>) {
    env::note("size", map.size());
    env::note("result", map.get(env::ask("query", ())).copied())
}
fn parts(map: &NameMap<usize>) {
    let mut l = map.lookup();
    l.write_str(env::ask("query", ()));
    l.write_str(env::ask("query", ()));
    env::note("result", l.result().copied());
}
fn chars(map: &NameMap<usize>) {
    let mut l = map.lookup();
    l.write_char(env::ask("char", ()));
    if env::choose(2) == 0 {
        l.write_char(env::ask("char", ()));
    }
    env::note("result", l.result().copied());
}
fn entries(map: &NameMap<usize>) {
    for (n, v) in map.entries() {
        env::note("entry", (n, *v));
    }
    env::note("entries", ());
}
fn r_n_get_0() {
    get(FixedNameMap::new([]).unfix())
}
fn r_n_parts_0() {
    parts(FixedNameMap::new([]).unfix())
}
fn r_n_chars_0() {
    chars(FixedNameMap::new([]).unfix())
}
fn r_n_entries_0() {
    entries(FixedNameMap::new([]).unfix())
}
fn r_n_get_1() {
    get(FixedNameMap::new([name(0)]).unfix())
}
fn r_n_parts_1() {
    parts(FixedNameMap::new([name(0)]).unfix())
}
fn r_n_chars_1() {
    chars(FixedNameMap::new([name(0)]).unfix())
}
fn r_n_entries_1() {
    entries(FixedNameMap::new([name(0)]).unfix())
}
fn r_n_get_2() {
    get(FixedNameMap::new([name(0), name(1)]).unfix())
}
fn r_n_parts_2() {
    parts(FixedNameMap::new([name(0), name(1)]).unfix())
}
fn r_n_chars_2() {
    chars(FixedNameMap::new([name(0), name(1)]).unfix())
}
fn r_n_entries_2() {
    entries(FixedNameMap::new([name(0), name(1)]).unfix())
}
fn r_n_get_3() {
    get(FixedNameMap::new([name(0), name(1), name(2)]).unfix())
}
fn r_n_parts_3() {
    parts(FixedNameMap::new([name(0), name(1), name(2)]).unfix())
}
fn r_n_chars_3() {
    chars(FixedNameMap::new([name(0), name(1), name(2)]).unfix())
}
fn r_n_entries_3() {
    entries(FixedNameMap::new([name(0), name(1), name(2)]).unfix())
}
fn r_n_get_4() {
    get(FixedNameMap::new([name(0), name(1), name(2), name(3)]).unfix())
}
fn r_n_parts_4() {
    parts(FixedNameMap::new([name(0), name(1), name(2), name(3)]).unfix())
}
fn r_n_chars_4() {
    chars(FixedNameMap::new([name(0), name(1), name(2), name(3)]).unfix())
}
fn r_n_entries_4() {
    entries(FixedNameMap::new([name(0), name(1), name(2), name(3)]).unfix())
}
fn r_n_get_5() {
    get(FixedNameMap::new([name(0), name(1), name(2), name(3), name(4)]).unfix())
}
fn r_n_parts_5() {
    parts(FixedNameMap::new([name(0), name(1), name(2), name(3), name(4)]).unfix())
}
fn r_n_chars_5() {
    chars(FixedNameMap::new([name(0), name(1), name(2), name(3), name(4)]).unfix())
}
fn r_n_entries_5() {
    entries(FixedNameMap::new([name(0), name(1), name(2), name(3), name(4)]).unfix())
}
fn r_n_get_6() {
    get(FixedNameMap::new([name(0), name(1), name(2), name(3), name(4), name(5)]).unfix())
}
fn r_n_parts_6() {
    parts(FixedNameMap::new([name(0), name(1), name(2), name(3), name(4), name(5)]).unfix())
}
fn r_n_chars_6() {
    chars(FixedNameMap::new([name(0), name(1), name(2), name(3), name(4), name(5)]).unfix())
}
fn r_n_entries_6() {
    entries(FixedNameMap::new([name(0), name(1), name(2), name(3), name(4), name(5)]).unfix())
}
/// Larger tables whose names are given in increasing order.
fn r_n_sget_4() {
    get(FixedNameMap::new([name(0), name(1), name(2), name(3)]).unfix())
}
fn r_n_sparts_4() {
    parts(FixedNameMap::new([name(0), name(1), name(2), name(3)]).unfix())
}
fn r_n_schars_4() {
    chars(FixedNameMap::new([name(0), name(1), name(2), name(3)]).unfix())
}
fn r_n_sget_5() {
    get(FixedNameMap::new([name(0), name(1), name(2), name(3), name(4)]).unfix())
}
fn r_n_sparts_5() {
    parts(FixedNameMap::new([name(0), name(1), name(2), name(3), name(4)]).unfix())
}
fn r_n_schars_5() {
    chars(FixedNameMap::new([name(0), name(1), name(2), name(3), name(4)]).unfix())
}
fn r_n_sget_6() {
    get(FixedNameMap::new([name(0), name(1), name(2), name(3), name(4), name(5)]).unfix())
}
fn r_n_sparts_6() {
    parts(FixedNameMap::new([name(0), name(1), name(2), name(3), name(4), name(5)]).unfix())
}
fn r_n_schars_6() {
    chars(FixedNameMap::new([name(0), name(1), name(2), name(3), name(4), name(5)]).unfix())
}
fn r_n_sget_7() {
    get(FixedNameMap::new([name(0), name(1), name(2), name(3), name(4), name(5), name(6)]).unfix())
}
fn r_n_sparts_7() {
    parts(FixedNameMap::new([name(0), name(1), name(2), name(3), name(4), name(5), name(6)]).unfix())
}
fn r_n_schars_7() {
    chars(FixedNameMap::new([name(0), name(1), name(2), name(3), name(4), name(5), name(6)]).unfix())
}
fn r_n_sget_8() {
    get(FixedNameMap::new([name(0), name(1), name(2), name(3), name(4), name(5), name(6), name(7)]).unfix())
}
fn r_n_sparts_8() {
    parts(FixedNameMap::new([name(0), name(1), name(2), name(3), name(4), name(5), name(6), name(7)]).unfix())
}
fn r_n_schars_8() {
    chars(FixedNameMap::new([name(0), name(1), name(2), name(3), name(4), name(5), name(6), name(7)]).unfix())
}
/// Names with characters of more than one byte, queried by any character.
fn utf8() -> FixedNameMap<usize, 7> {
    FixedNameMap::new([("\u{e9}", 0), ("z", 1), ("", 2), ("\u{e8}", 3), ("\u{20ac}", 4), ("\u{1f600}", 5), ("\u{e9}z", 6)])
}
fn r_n_get_utf8() {
    get(utf8().unfix())
}
fn r_n_parts_utf8() {
    parts(utf8().unfix())
}
fn r_n_chars_utf8() {
    chars(utf8().unfix())
}
fn r_n_entries_utf8() {
    entries(utf8().unfix())
}
