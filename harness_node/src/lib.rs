//! JavaScript values, and scripts run against the module, for the harnesses.
use carmen_core::gridstore::*;
pub use harness::*;
use neon::{val, Kind, ModuleContext, V};

/// The module's exports.
pub fn module() -> Vec<(String, V)> {
    let mut m = ModuleContext::new();
    if node_carmen_core::neon_module(&mut m).is_err() {
        check(false, "the module loads");
    }
    m.exports
}

pub fn num(x: impl Into<f64>) -> V {
    val(Kind::Number(x.into()))
}
pub fn text(s: &str) -> V {
    val(Kind::Str(s.to_owned()))
}
pub fn boolean(b: bool) -> V {
    val(Kind::Boolean(b))
}
pub fn null() -> V {
    val(Kind::Null)
}
pub fn undefined() -> V {
    val(Kind::Undefined)
}
pub fn array(v: Vec<V>) -> V {
    val(Kind::Array(v))
}
pub fn object(f: &[(&str, V)]) -> V {
    val(Kind::Object(f.iter().map(|(n, v)| ((*n).to_owned(), *v)).collect()))
}
pub fn buffer(v: &[u32]) -> V {
    val(Kind::Buffer(v.to_vec(), v.len() * 4))
}
pub fn callback() -> V {
    val(Kind::Callback(Vec::new()))
}

pub fn is_undefined(v: V) -> bool {
    match &*v.kind.borrow() {
        Kind::Undefined => true,
        _ => false,
    }
}
pub fn is_null(v: V) -> bool {
    match &*v.kind.borrow() {
        Kind::Null => true,
        _ => false,
    }
}
pub fn as_num(v: V) -> f64 {
    match &*v.kind.borrow() {
        Kind::Number(x) => *x,
        _ => {
            check(false, "a number is expected");
            0.0
        }
    }
}
/// A whole number not below zero.
pub fn as_int(v: V) -> u64 {
    as_num(v) as u64
}
pub fn as_bool(v: V) -> bool {
    match &*v.kind.borrow() {
        Kind::Boolean(b) => *b,
        _ => {
            check(false, "a boolean is expected");
            false
        }
    }
}
pub fn as_text(v: V) -> String {
    match &*v.kind.borrow() {
        Kind::Str(s) => s.clone(),
        _ => {
            check(false, "a string is expected");
            String::new()
        }
    }
}
pub fn items(v: V) -> Vec<V> {
    match &*v.kind.borrow() {
        Kind::Array(a) => a.clone(),
        _ => {
            check(false, "an array is expected");
            Vec::new()
        }
    }
}
pub fn as_buffer(v: V) -> Vec<u32> {
    match &*v.kind.borrow() {
        Kind::Buffer(d, n) => {
            check(*n == d.len() * 4, "a buffer of whole numbers");
            d.clone()
        }
        _ => {
            check(false, "a buffer is expected");
            Vec::new()
        }
    }
}
pub fn field(v: V, name: &str) -> V {
    match &*v.kind.borrow() {
        Kind::Object(o) => {
            for (n, x) in o.iter() {
                if n == name {
                    return *x;
                }
            }
        }
        _ => check(false, "an object is expected"),
    }
    undefined()
}

/// `new m.name(...)` or `m.name(...)`; nothing when it throws.
pub fn call(m: &[(String, V)], name: &str, args: Vec<V>) -> Option<V> {
    neon::call(m, name, args).ok()
}
pub fn method(this: V, name: &str, args: Vec<V>) -> Option<V> {
    neon::method(this, name, args).ok()
}
/// The same, when it must not throw.
pub fn does(m: &[(String, V)], name: &str, args: Vec<V>) -> V {
    match call(m, name, args) {
        Some(v) => v,
        None => {
            check(false, "a call that must succeed throws");
            undefined()
        }
    }
}
pub fn run(this: V, name: &str, args: Vec<V>) -> V {
    match method(this, name, args) {
        Some(v) => v,
        None => {
            check(false, "a method that must succeed throws");
            undefined()
        }
    }
}

pub fn js_key(phrase_id: u32, langs: V) -> V {
    object(&[("phrase_id", num(phrase_id)), ("lang_set", langs)])
}
pub fn js_entry(e: &GridEntry) -> V {
    object(&[
        ("relev", num(e.relev)),
        ("score", num(e.score)),
        ("x", num(e.x)),
        ("y", num(e.y)),
        ("id", num(e.id)),
        ("source_phrase_hash", num(e.source_phrase_hash)),
    ])
}
pub fn js_entries(v: &[GridEntry]) -> V {
    array(v.iter().map(js_entry).collect())
}
/// What a script sees of an entry is the entry.
pub fn same_entry(v: V, e: &GridEntry) -> bool {
    (as_num(field(v, "relev")) == e.relev)
        & (as_int(field(v, "score")) == e.score as u64)
        & (as_int(field(v, "x")) == e.x as u64)
        & (as_int(field(v, "y")) == e.y as u64)
        & (as_int(field(v, "id")) == e.id as u64)
        & (as_int(field(v, "source_phrase_hash")) == e.source_phrase_hash as u64)
}
/// What a script sees of a list of entries is the list.
pub fn same_entries(v: V, want: &[GridEntry]) -> bool {
    let got = items(v);
    check(got.len() == want.len(), "a script sees as many entries as there are");
    let mut ok = true;
    for (a, b) in got.iter().zip(want.iter()) {
        ok &= same_entry(a, b);
    }
    ok
}
