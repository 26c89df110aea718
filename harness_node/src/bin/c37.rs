//! Calls the JavaScript interface cannot carry out throw, and change nothing.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness_node::*;
use neon::V;

const UNDEFINED: u32 = 0;
const NUMBER: u32 = 3;
const STRING: u32 = 4;
const ARRAY: u32 = 5;
const BUFFER: u32 = 7;
const FUNCTION: u32 = 8;
const KINDS: u32 = 9;
fn of_kind(k: u32) -> V {
    match k {
        UNDEFINED => undefined(),
        1 => null(),
        2 => boolean(fork(2) == 1),
        NUMBER => num(u32s()),
        STRING => text(["", "insert"][fork(2) as usize]),
        ARRAY => array(vec![text("x")]),
        6 => object(&[("x", num(1u8))]),
        BUFFER => buffer(&[1, 2]),
        _ => callback(),
    }
}
/// A value of any kind but one.
fn not(kind: u32) -> V {
    let k = fork(KINDS - 1);
    of_kind(k + (k >= kind) as u32)
}
/// The arguments with one of them spoilt: left out, with all after it, or of another kind.
fn spoil(mut args: Vec<V>, at: usize, kind: u32) -> Vec<V> {
    if fork(2) == 0 {
        args.truncate(at);
        cover("left out");
    } else {
        args[at] = not(kind);
        cover("another kind");
    }
    args
}

fn good_key(p: u32) -> V {
    js_key(p, null())
}
fn entry(id: u32) -> GridEntry {
    GridEntry { relev: 0.8, score: 3, x: 4, y: 5, id, source_phrase_hash: 6 }
}
fn good_coords() -> V {
    array(vec![array(vec![num(4u8), num(5u8)])])
}
fn compact(p: u32) -> Vec<V> {
    vec![good_key(p), num(0.8), num(3u8), num(8u8), num(6u8), good_coords()]
}

/// The builder still works and holds what it was given before and after, nothing else.
fn untouched(b: V, p: &str) {
    run(b, "insert", vec![good_key(2), js_entries(&[entry(9)])]);
    run(b, "finish", vec![]);
    let s = must(GridStore::new(p));
    let all: Vec<(GridKey, Vec<GridEntry>)> = s.iter().map(must).collect();
    check(all.len() == 2, "a call that throws writes nothing");
    for (i, (k, v)) in all.iter().enumerate() {
        check((k.phrase_id == i as u32 + 1) & (k.lang_set == u128::MAX), "a call that throws changes no key");
        check(v.len() == 1, "a call that throws changes no entries");
        check_eq(v[0].id as u64, [7, 9][i], "a call that throws changes no entry");
    }
}
fn begun(m: &[(String, V)]) -> (V, String) {
    let p = path();
    let b = does(m, "GridStoreBuilder", vec![text(&p)]);
    run(b, "insert", vec![good_key(1), js_entries(&[entry(7)])]);
    (b, p)
}

/// A wrong argument of any builder method.
fn arguments() {
    let m = module();
    let (b, p) = begun(&m);
    let write = ["insert", "append"][fork(2) as usize];
    let bad = match fork(6) {
        0 => method(b, write, spoil(vec![good_key(1), js_entries(&[entry(8)])], 0, 6)),
        1 => method(b, write, spoil(vec![good_key(1), js_entries(&[entry(8)])], 1, ARRAY)),
        2 => {
            let at = fork(6) as usize;
            method(b, "compactAppend", spoil(compact(1), at, [6, NUMBER, NUMBER, NUMBER, NUMBER, ARRAY][at]))
        }
        3 => method(b, "renumber", spoil(vec![buffer(&[0, 1, 2])], 0, BUFFER)),
        4 => method(b, "loadBinBoundaries", spoil(vec![buffer(&[0, 1, 2])], 0, BUFFER)),
        _ => method(b, write, vec![good_key(1), array(vec![js_entry(&entry(8)), of_kind([UNDEFINED, 1, 2, NUMBER, STRING, BUFFER][fork(6) as usize])])]),
    };
    check(bad.is_none(), "a call with a wrong argument throws");
    untouched(b, &p);
}

/// A wrong part of a key, of an entry or of a coordinate.
fn parts() {
    let m = module();
    let (b, p) = begun(&m);
    let write = ["insert", "append"][fork(2) as usize];
    let bad = match fork(4) {
        0 => {
            // a key without a phrase, or with languages that are no list of numbers
            let key = match fork(4) {
                0 => object(&[("lang_set", null())]),
                1 => object(&[("phrase_id", not(NUMBER)), ("lang_set", null())]),
                2 => js_key(1, of_kind([2, NUMBER, STRING, BUFFER, FUNCTION][fork(5) as usize])),
                _ => js_key(1, array(vec![num(1u8), not(NUMBER)])),
            };
            cover("key");
            if fork(2) == 0 {
                method(b, write, vec![key, js_entries(&[entry(8)])])
            } else {
                let mut a = compact(1);
                a[0] = key;
                method(b, "compactAppend", a)
            }
        }
        1 => {
            // a field of an entry missing or of another kind
            let names = ["relev", "score", "x", "y", "id", "source_phrase_hash"];
            let at = fork(6) as usize;
            let mut f: Vec<(&str, V)> = names.iter().map(|n| (*n, num(1u8))).collect();
            if fork(2) == 0 {
                f.remove(at);
            } else {
                f[at].1 = not(NUMBER);
            }
            cover("field");
            method(b, write, vec![good_key(1), array(vec![js_entry(&entry(8)), object(&f)])])
        }
        2 => {
            // a field of an entry past what it holds, below zero or not whole
            let names = ["score", "x", "y", "id", "source_phrase_hash"];
            let top = [255.0, 65535.0, 65535.0, 4294967295.0, 255.0];
            let at = fork(5) as usize;
            let x = match fork(4) {
                0 => num(top[at] + 1.0),
                1 => num(-1.0),
                2 => num(0.5),
                _ => {
                    let v = u32s();
                    assume((at != 3) & (v as f64 > top[at]));
                    num(v)
                }
            };
            let f: Vec<(&str, V)> = ["relev", "score", "x", "y", "id", "source_phrase_hash"]
                .iter()
                .map(|n| (*n, if *n == names[at] { x } else { num(1u8) }))
                .collect();
            cover("range");
            method(b, write, vec![good_key(1), array(vec![object(&f)])])
        }
        _ => {
            let x = match fork(4) {
                0 => not(ARRAY),
                1 => array(vec![num(1u8)]),
                2 => array(vec![num(1u8), not(NUMBER)]),
                _ => {
                    let v = u32s();
                    assume(v > 65535);
                    array(vec![num(v), num(1u8)])
                }
            };
            let mut a = compact(1);
            a[5] = array(vec![array(vec![num(1u8), num(2u8)]), x]);
            cover("coordinate");
            method(b, "compactAppend", a)
        }
    };
    check(bad.is_none(), "a call with a wrong part of an argument throws");
    untouched(b, &p);
}

/// A finished builder does nothing more.
fn finished() {
    let m = module();
    let (b, p) = begun(&m);
    run(b, "insert", vec![good_key(2), js_entries(&[entry(9)])]);
    run(b, "finish", vec![]);
    for _ in 0..2 {
        let r = match fork(6) {
            0 => method(b, "insert", vec![good_key(1), js_entries(&[entry(8)])]),
            1 => method(b, "append", vec![good_key(3), js_entries(&[entry(8)])]),
            2 => method(b, "compactAppend", compact(1)),
            3 => method(b, "renumber", vec![buffer(&[0, 2, 1])]),
            4 => method(b, "loadBinBoundaries", vec![buffer(&[0, 2, 3])]),
            _ => method(b, "finish", vec![]),
        };
        check(r.is_none(), "a finished builder throws");
    }
    let s = must(GridStore::new(&p));
    let ids: Vec<u32> = s.iter().map(|r| must(r).1[0].id).collect();
    check(ids == [7, 9], "a finished store stays as it is");
    cover("finished");
}

/// A store, its options and what is asked of it.
fn stores() {
    let m = module();
    let (b, p) = begun(&m);
    run(b, "finish", vec![]);
    let opts = || {
        vec![
            ("zoom", num(6u8)),
            ("type_id", num(1u8)),
            ("coalesce_radius", num(200.0)),
            ("bboxes", array(vec![array(vec![num(0u8), num(0u8), num(63u8), num(63u8)])])),
            ("max_score", num(10.0)),
        ]
    };
    let s = does(&m, "GridStore", vec![text(&p), object(&opts())]);
    let bad = match fork(7) {
        0 => call(&m, ["GridStore", "GridStoreBuilder", "GridStoreKeyIterator"][fork(3) as usize], if fork(2) == 0 { vec![] } else { vec![not(STRING)] }),
        1 => {
            let at = fork(5) as usize;
            let mut o = opts();
            if fork(2) == 0 {
                o.remove(at);
            } else {
                o[at].1 = not([NUMBER, NUMBER, NUMBER, ARRAY, NUMBER][at]);
            }
            cover("options");
            call(&m, "GridStore", vec![text(&p), object(&o)])
        }
        2 => {
            let mut o = opts();
            let v = u32s();
            assume(v > 65535);
            let at = [0, 1, 3][fork(3) as usize];
            o[at].1 = if at == 3 { array(vec![array(vec![num(0u8), num(v), num(1u8), num(1u8)])]) } else { num(v) };
            cover("options");
            call(&m, "GridStore", vec![text(&p), object(&o)])
        }
        3 => {
            let mut o = opts();
            o[3].1 = array(vec![array((0..[0, 3, 5][fork(3) as usize]).map(|x: u8| num(x)).collect())]);
            // a list longer than a box may be read as its first four
            let r = call(&m, "GridStore", vec![text(&p), object(&o)]);
            if items(field(object(&o), "bboxes")).iter().all(|b| items(b).len() > 4) {
                None
            } else {
                r
            }
        }
        4 => method(s, "get", spoil(vec![good_key(1)], 0, 6)),
        5 => method(s, "get", vec![object(&[("phrase_id", not(NUMBER)), ("lang_set", null())])]),
        _ => method(s, "get", vec![js_key(1, of_kind([2, NUMBER, STRING, BUFFER, FUNCTION][fork(5) as usize]))]),
    };
    check(bad.is_none(), "a store asked wrongly throws");
    let want = [entry(7)];
    check(same_entries(run(s, "get", vec![good_key(1)]), &want), "a store still answers");
    cover("stores");
}

/// A search described wrongly throws, and does not call back.
fn searches() {
    let m = module();
    let (b, p) = begun(&m);
    run(b, "finish", vec![]);
    let s = does(&m, "GridStore", vec![text(&p)]);
    let exact = || object(&[("Exact", num(1u8))]);
    let mut f = vec![
        ("store", s),
        ("weight", num(1.0)),
        ("match_key", object(&[("match_phrase", exact()), ("lang_set", null())])),
        ("idx", num(1u8)),
        ("non_overlapping_indexes", array(vec![num(2u8)])),
        ("mask", num(1u8)),
        ("id", num(5u8)),
        ("phrase", text("ab")),
        ("nearby_only", boolean(false)),
    ];
    let good = object(&f);
    let o = || object(&[("zoom", num(6u8))]);
    let name = ["coalesce", "stackAndCoalesce"][fork(2) as usize];
    let cb = callback();
    let called = |cb: V| match &*cb.kind.borrow() {
        neon::Kind::Callback(c) => c.len(),
        _ => 0,
    };
    let bad = match fork(6) {
        0 => {
            let at = fork(8) as usize;
            f.remove(at);
            cover("missing");
            call(&m, name, vec![array(vec![good, object(&f)]), o(), cb])
        }
        1 => {
            let at = fork(9) as usize;
            f[at].1 = match at {
                8 => of_kind([1, NUMBER, STRING, ARRAY, 6, BUFFER, FUNCTION][fork(7) as usize]),
                0 => [of_kind(fork(KINDS)), b][fork(2) as usize],
                1 | 3 | 5 | 6 => not(NUMBER),
                2 => not(6),
                4 => not(ARRAY),
                _ => not(STRING),
            };
            cover("kind");
            call(&m, name, vec![array(vec![object(&f)]), o(), cb])
        }
        2 => {
            let k = match fork(5) {
                0 => of_kind(fork(KINDS)),
                1 => object(&[("Exact", not(NUMBER))]),
                2 => object(&[("Range", object(&[("start", num(1u8))]))]),
                3 => object(&[("Some", num(1u8))]),
                _ => object(&[("Exact", num([-1.0, 0.5, 4294967296.0][fork(3) as usize]))]),
            };
            f[2].1 = object(&[("match_phrase", k), ("lang_set", null())]);
            cover("phrase");
            call(&m, name, vec![array(vec![object(&f)]), o(), cb])
        }
        3 => {
            let v = u32s();
            assume(v > 65535);
            f[3].1 = num(v);
            call(&m, name, vec![array(vec![object(&f)]), o(), cb])
        }
        4 => {
            let q = match fork(4) {
                0 => of_kind(fork(KINDS)),
                1 => object(&[("zoom", not(NUMBER))]),
                2 => object(&[("zoom", num(6u8)), ("bbox", array(vec![num(1u8)]))]),
                _ => object(&[("zoom", num(6u8)), ("proximity", of_kind([2, NUMBER, STRING, ARRAY, BUFFER][fork(5) as usize]))]),
            };
            cover("options");
            call(&m, name, vec![array(vec![good]), q, cb])
        }
        _ => {
            let at = fork(3) as usize;
            let a = spoil(vec![array(vec![good]), o(), cb], at, [ARRAY, 6, FUNCTION][at]);
            call(&m, name, a)
        }
    };
    check(bad.is_none(), "a search described wrongly throws");
    check(called(cb) == 0, "a search that throws does not call back");
    let cb = callback();
    does(&m, name, vec![array(vec![good]), o(), cb]);
    check(called(cb) == 1, "a search described rightly calls back");
}

fn run_case() {
    match case() {
        0 => arguments(),
        1 => parts(),
        2 => finished(),
        3 => stores(),
        4 => searches(),
        _ => {}
    }
}
harness::entry!(run_case);
