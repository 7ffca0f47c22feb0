//! C08: clients of `Value`, `Struct`, `Tuple` and `List`.
use crate::abs::{AbsD, AbsS};
use crate::env::{self, E};
use serdere::*;

/// A child value handed out by a wrapper: abandoned, or consumed.
fn child<O: Outliner<Error = E>>(v: Value<'_, O>) {
    if env::choose(2) == 0 {
        env::note("child_dropped", ());
        return;
    }
    let (_, done) = v.into_raw();
    env::note("child_done", ());
    *done = true;
}

fn child_result<O: Outliner<Error = E>>(r: Result<Value<'_, O>, E>) {
    match r {
        Ok(v) => {
            env::did(Ok::<bool, E>(true));
            child(v)
        }
        Err(e) => env::did(Err::<bool, E>(e)),
    }
}

fn child_opt<O: Outliner<Error = E>>(r: Result<Option<Value<'_, O>>, E>) -> bool {
    match r {
        Ok(Some(v)) => {
            env::did(Ok::<bool, E>(true));
            child(v);
            true
        }
        Ok(None) => {
            env::did(Ok::<bool, E>(false));
            true
        }
        Err(e) => {
            env::did(Err::<bool, E>(e));
            true
        }
    }
}

fn use_struct<O: Outliner<Error = E>>(mut w: Struct<'_, O>) {
    loop {
        match env::choose(3) {
            0 => {
                let name = env::any_str();
                env::will("Struct::field", name);
                child_result(w.field(name));
            }
            1 => {
                env::will("Struct::close", ());
                env::did(w.close());
                return;
            }
            _ => return,
        }
    }
}

fn use_tuple<O: Outliner<Error = E>>(mut w: Tuple<'_, O>) {
    loop {
        match env::choose(3) {
            0 => {
                env::will("Tuple::element", ());
                child_result(w.element());
            }
            1 => {
                env::will("Tuple::close", ());
                env::did(w.close());
                return;
            }
            _ => return,
        }
    }
}

fn use_list<O: Outliner<Error = E>>(mut w: List<'_, O>) {
    loop {
        match env::choose(4) {
            0 => {
                env::will("List::push", ());
                child_result(w.push());
            }
            1 => {
                env::will("List::close", ());
                env::did(w.close());
                return;
            }
            2 => {
                env::will("List::rem_len", ());
                env::did(w.rem_len());
            }
            _ => return,
        }
    }
}

fn use_list_de(mut w: List<'_, AbsD>) {
    loop {
        match env::choose(5) {
            0 => {
                env::will("List::push", ());
                child_result(w.push());
            }
            1 => {
                env::will("List::close", ());
                env::did(w.close());
                return;
            }
            2 => {
                env::will("List::rem_len", ());
                env::did(w.rem_len());
            }
            3 => {
                env::will("List::next", ());
                child_opt(w.next());
            }
            _ => return,
        }
    }
}


fn r_c08_struct() {
    let (mut src, mut done) = (AbsS, env::any::<bool>());
    env::note("struct", done);
    use_struct(Struct::new(&mut src, &mut done));
    env::note("end", done);
}

fn r_c08_tuple() {
    let (mut src, mut done) = (AbsS, env::any::<bool>());
    env::note("tuple", done);
    use_tuple(Tuple::new(&mut src, &mut done));
    env::note("end", done);
}

fn r_c08_list() {
    let (mut src, mut done) = (AbsS, env::any::<bool>());
    let len = env::any::<Option<usize>>();
    env::note("list", (done, len));
    use_list(List::new(&mut src, &mut done, len));
    env::note("end", done);
}

fn r_c08_list_de() {
    let (mut src, mut done) = (AbsD, env::any::<bool>());
    let len = env::any::<Option<usize>>();
    env::note("list", (done, len));
    use_list_de(List::new(&mut src, &mut done, len));
    env::note("end", done);
}

macro_rules! simple {
    ($v:ident, $m:ident) => {{
        env::will(concat!("Value::", stringify!($m)), ());
        env::did($v.$m());
    }};
    ($v:ident, $m:ident, $t:ty) => {{
        let a = env::any::<$t>();
        env::will(concat!("Value::", stringify!($m)), a);
        env::did($v.$m(a));
    }};
}

fn r_c08_value() {
    let (mut src, mut done) = (AbsS, env::any::<bool>());
    env::note("value", done);
    let v = Value::new(&mut src, &mut done);
    if env::choose(2) == 0 {
        env::will("Value::as_raw", ());
        v.as_raw();
        env::did(());
    }
    match env::choose(19) {
        0 => simple!(v, put_bool, bool),
        1 => simple!(v, put_i8, i8),
        2 => simple!(v, put_i16, i16),
        3 => simple!(v, put_i32, i32),
        4 => simple!(v, put_i64, i64),
        5 => simple!(v, put_u8, u8),
        6 => simple!(v, put_u16, u16),
        7 => simple!(v, put_u32, u32),
        8 => simple!(v, put_u64, u64),
        9 => simple!(v, put_f32, f32),
        10 => simple!(v, put_f64, f64),
        11 => simple!(v, put_char, char),
        12 => {
            let s = env::any_str();
            env::will("Value::put_str", s);
            env::did(v.put_str(s));
        }
        13 => {
            let (m, i, s) = (env::any::<usize>(), env::any::<usize>(), env::any_str());
            let n = if env::choose(2) == 0 { Some(s) } else { None };
            env::will("Value::put_tag", (m, i, n));
            env::did(v.put_tag(m, i, n));
        }
        14 => {
            let n = env::any::<usize>();
            env::will("Value::into_list_sized", n);
            match v.into_list_sized(n) {
                Ok(w) => {
                    env::did(Ok::<(), E>(()));
                    use_list(w)
                }
                Err(e) => env::did(Err::<(), E>(e)),
            }
        }
        15 => {
            let n = if env::choose(2) == 0 { Some(env::any_str()) } else { None };
            env::will("Value::into_struct", n);
            match v.into_struct(n) {
                Ok(w) => {
                    env::did(Ok::<(), E>(()));
                    use_struct(w)
                }
                Err(e) => env::did(Err::<(), E>(e)),
            }
        }
        16 => {
            let n = if env::choose(2) == 0 { Some(env::any_str()) } else { None };
            env::will("Value::into_tuple", n);
            match v.into_tuple(n) {
                Ok(w) => {
                    env::did(Ok::<(), E>(()));
                    use_tuple(w)
                }
                Err(e) => env::did(Err::<(), E>(e)),
            }
        }
        17 => {
            env::will("Value::into_raw", ());
            let (_, d) = v.into_raw();
            env::did(*d);
        }
        _ => {}
    }
    env::note("end", done);
}

fn r_c08_value_de() {
    let (mut src, mut done) = (AbsD, env::any::<bool>());
    env::note("value", done);
    let mut v = Value::new(&mut src, &mut done);
    loop {
        match env::choose(3) {
            0 => {
                env::will("Value::as_raw", ());
                v.as_raw();
                env::did(());
            }
            1 => {
                env::will("Value::check_null", ());
                env::did(v.check_null());
            }
            _ => break,
        }
    }
    match env::choose(17) {
        0 => simple!(v, get_bool),
        1 => simple!(v, get_i8),
        2 => simple!(v, get_i16),
        3 => simple!(v, get_i32),
        4 => simple!(v, get_i64),
        5 => simple!(v, get_u8),
        6 => simple!(v, get_u16),
        7 => simple!(v, get_u32),
        8 => simple!(v, get_u64),
        9 => simple!(v, get_f32),
        10 => simple!(v, get_f64),
        11 => simple!(v, get_char),
        12 => simple!(v, get_str),
        13 => {
            let m = env::any::<usize>();
            let n = env::any::<&'static NameMap<usize>>();
            env::will("Value::get_tag", (m, n));
            env::did(v.get_tag(m, n));
        }
        14 => {
            env::will("Value::into_list", ());
            match v.into_list() {
                Ok(w) => {
                    env::did(Ok::<(), E>(()));
                    use_list_de(w)
                }
                Err(e) => env::did(Err::<(), E>(e)),
            }
        }
        15 => {
            env::will("Value::validate_with", ());
            let r = v.validate_with(|v| {
                env::note("enter", ());
                match env::choose(3) {
                    0 => child(v),
                    1 => {
                        // Passes the value on to a wrapper, which consumes it or fails.
                        env::note("nested", ());
                        simple!(v, get_bool)
                    }
                    _ => {}
                }
                let res = env::any::<Result<Result<u64, E>, E>>();
                let copy = match &res {
                    Ok(Ok(x)) => Ok(Ok(*x)),
                    Ok(Err(E(x))) => Ok(Err(E(*x))),
                    Err(E(x)) => Err(E(*x)),
                };
                env::note("leave", copy);
                res
            });
            env::did(r);
        }
        _ => {}
    }
    env::note("end", done);
}

macro_rules! with {
    ($root:ident, $w:ident, $name:expr, $kind:expr, $use:expr) => {
        fn $root() {
            let mut src = AbsD;
            env::will(concat!($name, "::with"), ());
            let r = $w::with(&mut src, |w| {
                env::note("enter", $kind);
                $use(w);
                let res = env::any::<Result<u64, E>>();
                let copy = match &res {
                    Ok(x) => Ok(*x),
                    Err(E(x)) => Err(E(*x)),
                };
                env::note("leave", copy);
                res
            });
            env::did(r);
        }
    };
}
with!(r_c08_value_with, Value, "Value", "value", |v| child(v));
with!(r_c08_struct_with, Struct, "Struct", "struct", use_struct);
with!(r_c08_tuple_with, Tuple, "Tuple", "tuple", use_tuple);
