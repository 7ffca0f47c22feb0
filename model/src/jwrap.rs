//! C09: clients of `Object`, `Entry`, `Collection` and the extension methods of `Value`.
use crate::abs::{AbsD, AbsS};
use crate::env::{self, E};
use serdere::deserialize::DeserializeStruct;
use serdere::*;
use serdere_json::*;

fn child<O: Outliner<Error = E>>(v: Value<'_, O>) {
    if env::choose(2) == 0 {
        env::note("child_dropped", ());
        return;
    }
    let (_, done) = v.into_raw();
    env::note("child_done", ());
    *done = true;
}

fn child_result<O: Outliner<Error = E>>(r: Result<Value<'_, O>, E>) {
    match r {
        Ok(v) => {
            env::did(Ok::<bool, E>(true));
            child(v)
        }
        Err(e) => env::did(Err::<bool, E>(e)),
    }
}

fn child_opt<O: Outliner<Error = E>>(r: Result<Option<Value<'_, O>>, E>) {
    match r {
        Ok(Some(v)) => {
            env::did(Ok::<bool, E>(true));
            child(v);
        }
        Ok(None) => env::did(Ok::<bool, E>(false)),
        Err(e) => env::did(Err::<bool, E>(e)),
    }
}

fn use_object<O: JsonOutliner<Error = E>>(mut w: Object<'_, O>) {
    loop {
        match env::choose(3) {
            0 => {
                let key = env::any_str();
                env::will("Object::entry", key);
                child_result(w.entry(key));
            }
            1 => {
                env::will("Object::close", ());
                env::did(w.close());
                return;
            }
            _ => return,
        }
    }
}

/// A type read by `Object::inline`: reads any fields, or gives up half way.
struct Inl(u64);
impl DeserializeStruct<AbsD> for Inl {
    fn deserialize_content(st: &mut Struct<AbsD>, _: &mut ()) -> Result<Self, E> {
        env::note("enter", "struct");
        loop {
            match env::choose(2) {
                0 => {
                    let name = env::any_str();
                    env::will("Struct::field", name);
                    child_result(st.field(name));
                }
                _ => break,
            }
        }
        let res = env::any::<Result<u64, E>>();
        let copy = match &res {
            Ok(x) => Ok(*x),
            Err(E(x)) => Err(E(*x)),
        };
        env::note("leave", copy);
        res.map(Inl)
    }
}
impl Deserialize<AbsD> for Inl {
    const NULLABLE: bool = false;
    fn deserialize(_: Value<AbsD>, _: &mut ()) -> Result<Self, E> {
        env::stop()
    }
}

fn use_entry(mut e: Entry<'_, AbsD>) {
    env::note("entry", ());
    loop {
        match env::choose(3) {
            0 => {
                env::will("Entry::key", ());
                env::did(e.key());
            }
            1 => {
                env::will("Entry::value", ());
                match e.value() {
                    Ok(v) => {
                        env::did(Ok::<(), E>(()));
                        env::note("entry_end", ());
                        child(v);
                    }
                    Err(e) => {
                        env::did(Err::<(), E>(e));
                        env::note("entry_end", ());
                    }
                }
                return;
            }
            _ => {
                env::note("entry_end", ());
                return;
            }
        }
    }
}

fn use_object_de(mut w: Object<'_, AbsD>) {
    loop {
        match env::choose(6) {
            0 => {
                let key = env::any_str();
                env::will("Object::entry", key);
                child_result(w.entry(key));
            }
            1 => {
                env::will("Object::close", ());
                env::did(w.close());
                return;
            }
            2 => {
                let key = env::any_str();
                env::will("Object::try_entry", key);
                child_opt(w.try_entry(key));
            }
            3 => {
                env::will("Object::next_entry", ());
                match w.next_entry() {
                    Ok(Some(e)) => {
                        env::did(Ok::<bool, E>(true));
                        use_entry(e);
                    }
                    Ok(None) => env::did(Ok::<bool, E>(false)),
                    Err(e) => env::did(Err::<bool, E>(e)),
                }
            }
            4 => {
                env::will("Object::inline", ());
                env::did(w.inline::<Inl>().map(|x| x.0));
            }
            _ => return,
        }
    }
}

fn use_collection(mut w: Collection<'_, AbsD>) {
    loop {
        match env::choose(2) {
            0 => {
                env::will("Collection::next", ());
                child_opt(w.next());
            }
            _ => return,
        }
    }
}

fn r_c09_object() {
    let (mut src, mut done) = (AbsS, env::any::<bool>());
    env::note("object", done);
    use_object(Object::new(&mut src, &mut done));
    env::note("end", done);
}

fn r_c09_object_de() {
    let (mut src, mut done) = (AbsD, env::any::<bool>());
    env::note("object", done);
    use_object_de(Object::new(&mut src, &mut done));
    env::note("end", done);
}

fn r_c09_entry() {
    let (mut src, mut done) = (AbsD, false);
    env::note("value", done);
    use_entry(Entry::new(&mut src, &mut done));
    env::note("end", done);
}

fn r_c09_value() {
    let (mut src, mut done) = (AbsS, env::any::<bool>());
    env::note("value", done);
    let v = Value::new(&mut src, &mut done);
    match env::choose(3) {
        0 => {
            env::will("Value::into_null", ());
            env::did(v.into_null());
        }
        1 => {
            env::will("Value::into_object", ());
            match v.into_object() {
                Ok(w) => {
                    env::did(Ok::<(), E>(()));
                    use_object(w)
                }
                Err(e) => env::did(Err::<(), E>(e)),
            }
        }
        _ => {
            env::will("Value::into_list_streaming", ());
            match v.into_list_streaming() {
                Ok(mut w) => {
                    env::did(Ok::<(), E>(()));
                    // Two calls are enough to see that the list has no length, is ready, and has
                    // the right done flag: the rest of `List` is C08.
                    env::will("List::rem_len", ());
                    env::did(w.rem_len());
                    if env::choose(2) == 0 {
                        env::will("List::push", ());
                        child_result(w.push());
                    }
                    env::will("List::close", ());
                    env::did(w.close());
                }
                Err(e) => env::did(Err::<(), E>(e)),
            }
        }
    }
    env::note("end", done);
}

fn r_c09_value_de() {
    let (mut src, mut done) = (AbsD, env::any::<bool>());
    env::note("value", done);
    let v = Value::new(&mut src, &mut done);
    loop {
        match env::choose(2) {
            0 => {
                env::will("Value::ty", ());
                env::did(v.ty());
            }
            _ => break,
        }
    }
    match env::choose(5) {
        0 => {
            env::will("Value::into_null", ());
            env::did(v.into_null());
        }
        1 => {
            env::will("Value::into_object", ());
            match v.into_object() {
                Ok(w) => {
                    env::did(Ok::<(), E>(()));
                    use_object_de(w)
                }
                Err(e) => env::did(Err::<(), E>(e)),
            }
        }
        2 => {
            env::will("Value::skip", ());
            env::did(v.skip());
        }
        3 => {
            env::will("Value::into_collection", ());
            match v.into_collection() {
                Ok(w) => {
                    env::did(Ok::<bool, E>(matches!(w, Collection::Object(_))));
                    use_collection(w)
                }
                Err(e) => env::did(Err::<bool, E>(e)),
            }
        }
        _ => {}
    }
    env::note("end", done);
}
