//! The JavaScript store interface writes and returns what the Rust one does.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness_node::*;
use neon::V;

fn any_entry() -> GridEntry {
    GridEntry { relev: relev(), score: below(4, 16) as u8, x: u16s(), y: u16s(), id: below(24, 1 << 24) as u32, source_phrase_hash: u8s() }
}
fn get(s: &GridStore, k: &GridKey) -> Option<Vec<GridEntry>> {
    must(s.get(k)).map(|i| i.collect())
}
fn new_builder(m: &[(String, V)]) -> (V, String) {
    let p = path();
    (does(m, "GridStoreBuilder", vec![text(&p)]), p)
}
fn open(m: &[(String, V)], p: &str) -> V {
    does(m, "GridStore", vec![text(p)])
}

/// How a script may name languages, and the set that stands for.
fn languages() -> (V, u128) {
    match fork(5) {
        0 => (null(), u128::MAX),
        1 => (undefined(), u128::MAX),
        2 => (array(vec![]), 0),
        3 => {
            let l = u8s();
            (array(vec![num(l)]), if l < 128 { 1u128 << l } else { 0 })
        }
        _ => {
            let l = [0u8, 5, 63, 64, 126, 127, 128, 200];
            let (a, b) = (l[fork(8) as usize], l[fork(8) as usize]);
            let bit = |l: u8| if l < 128 { 1u128 << l } else { 0 };
            (array(vec![num(a), num(b), num(5u8)]), bit(a) | bit(b) | bit(5))
        }
    }
}

/// An entry under any key.
fn one() {
    let m = module();
    let (b, p) = new_builder(&m);
    let phrase_id = u32s();
    let (langs, lang_set) = languages();
    let e = any_entry();
    let key = js_key(phrase_id, langs);
    let r = match fork(3) {
        2 => {
            let coords = array(vec![array(vec![num(e.x), num(e.y)])]);
            run(b, "compactAppend", vec![key, num(e.relev), num(e.score), num(e.id), num(e.source_phrase_hash), coords])
        }
        i => run(b, ["insert", "append"][i as usize], vec![key, js_entries(&[e.clone()])]),
    };
    check(is_undefined(r), "writing returns nothing");
    check(is_undefined(run(b, "finish", vec![])), "finishing returns nothing");
    // as the Rust interface sees it
    let s = must(GridStore::new(&p));
    let k = GridKey { phrase_id, lang_set };
    let stored = get(&s, &k);
    check(stored.is_some(), "the key written is the key described");
    let stored = stored.unwrap_or_default();
    check(stored.len() == 1, "one entry is stored");
    let g = &stored[0];
    check(
        (g.relev == e.relev) & (g.score == e.score) & (g.x == e.x) & (g.y == e.y) & (g.id == e.id) & (g.source_phrase_hash == e.source_phrase_hash),
        "the entry stored is the one given",
    );
    check(s.keys().count() == 1, "one key is stored");
    // and as a script does
    let j = open(&m, &p);
    check(same_entries(run(j, "get", vec![key]), &stored), "a script gets what is stored");
    let other = js_key(phrase_id ^ 1, langs);
    check(is_undefined(run(j, "get", vec![other])), "a key that is not there gives undefined");
    observe(g.id as u64);
    observe(lang_set as u64);
    cover("stored");
}

/// A history of writes is the same history of the Rust builder.
fn history() {
    let m = module();
    let (b, p) = new_builder(&m);
    let (mut w, q) = builder();
    let mut step = |key: &GridKey, how: u32, e: &GridEntry, f: &GridEntry| {
        let langs: Vec<V> = (0..128u8).filter(|l| key.lang_set >> l & 1 == 1).map(num).collect();
        let k = js_key(key.phrase_id, array(langs));
        match how {
            0 => {
                run(b, "insert", vec![k, js_entries(&[e.clone(), f.clone()])]);
                must(w.insert(key, vec![e.clone(), f.clone()]));
            }
            1 => {
                run(b, "append", vec![k, js_entries(&[e.clone(), f.clone()])]);
                must(w.append(key, vec![e.clone(), f.clone()]));
            }
            _ => {
                let coords = array(vec![array(vec![num(e.x), num(e.y)]), array(vec![num(f.x), num(f.y)])]);
                let a = vec![k, num(e.relev), num(e.score), num(e.id), num(e.source_phrase_hash), coords];
                run(b, "compactAppend", a);
                w.compact_append(key, e.relev, e.score, e.id, e.source_phrase_hash, &[(e.x, e.y), (f.x, f.y)]);
            }
        }
    };
    let k1 = GridKey { phrase_id: 3, lang_set: 1 << 100 | 1 };
    let k2 = GridKey { phrase_id: [3, 4][fork(2) as usize], lang_set: 6 };
    let e = GridEntry { relev: 0.8, score: 3, x: u16s(), y: 9, id: below(24, 1 << 24) as u32, source_phrase_hash: u8s() };
    let f = GridEntry { relev: 1.0, score: 2, x: 7, y: 9, id: 5, source_phrase_hash: 0 };
    step(&k1, fork(3), &e, &f);
    step([&k1, &k2][fork(2) as usize], 1 + fork(2), &f, &e);
    step(&k2, fork(3), &f, &f);
    if fork(2) == 1 {
        let ids: [u32; 5] = [0, 0, 0, 9, 8];
        run(b, "renumber", vec![buffer(&ids)]);
        must(w.renumber(&ids));
        cover("renumbered");
    }
    if fork(2) == 1 {
        let bins = [[0u32, 4, 10], [3, 5, 10]][fork(2) as usize];
        run(b, "loadBinBoundaries", vec![buffer(&bins)]);
        must(w.load_bin_boundaries(bins.to_vec()));
        cover("binned");
    }
    run(b, "finish", vec![]);
    must(w.finish());
    let (s, t) = (must(GridStore::new(&p)), must(GridStore::new(&q)));
    let a: Vec<(GridKey, Vec<GridEntry>)> = s.iter().map(must).collect();
    let c: Vec<(GridKey, Vec<GridEntry>)> = t.iter().map(must).collect();
    check(a.len() == c.len(), "the same keys are stored");
    let mut ok = true;
    for ((k, v), (l, w)) in a.iter().zip(c.iter()) {
        ok &= (k.phrase_id == l.phrase_id) & (k.lang_set == l.lang_set);
        check(v.len() == w.len(), "as many entries are stored");
        for (x, y) in v.iter().zip(w.iter()) {
            ok &= (x.relev == y.relev) & (x.score == y.score) & (x.x == y.x) & (x.y == y.y) & (x.id == y.id);
            ok &= x.source_phrase_hash == y.source_phrase_hash;
            observe(x.id as u64);
        }
    }
    check(ok, "the same entries are stored");
    for (lo, hi) in [(0, 4), (4, 10), (3, 5), (5, 10)] {
        let found = |s: &GridStore| must(s.streaming_get_matching(&range(lo, hi, u128::MAX), &MatchOpts::default(), 100)).count();
        check(found(&s) == found(&t), "ranges find the same");
    }
}

/// A longer history: many entries a write, tiles in common, renumbering and bins at the end.
fn longer() {
    let m = module();
    let (b, p) = new_builder(&m);
    let (mut w, q) = builder();
    let at = fork(6);
    let any = (u16s(), below(24, 1 << 24) as u32, below(4, 16) as u8);
    for step in 0..6u32 {
        let key = GridKey { phrase_id: [3, 4, 3, 0, 4, 3][step as usize], lang_set: [1 << 127, 6, 1 << 127, u128::MAX, 6, 1][step as usize] };
        let langs: Vec<V> = (0..128u8).filter(|l| key.lang_set >> l & 1 == 1).map(num).collect();
        let k = js_key(key.phrase_id, array(langs));
        let es: Vec<GridEntry> = (0..7u32)
            .map(|i| GridEntry {
                relev: [1.0, 0.8][(i + step) as usize % 2],
                score: if (step, i) == (at, 3) { any.2 } else { (i % 3) as u8 },
                x: if (step, i) == (at, 3) { any.0 } else { 5 + i as u16 / 2 },
                y: 9,
                id: if (step, i) == (at, 3) { any.1 } else { 10 + (i + step) % 4 },
                source_phrase_hash: (i % 2) as u8,
            })
            .collect();
        if step == 4 {
            let coords: Vec<V> = es.iter().map(|e| array(vec![num(e.x), num(e.y)])).collect();
            let e = &es[3];
            run(b, "compactAppend", vec![k, num(e.relev), num(e.score), num(e.id), num(e.source_phrase_hash), array(coords)]);
            let c: Vec<(u16, u16)> = es.iter().map(|e| (e.x, e.y)).collect();
            w.compact_append(&key, e.relev, e.score, e.id, e.source_phrase_hash, &c);
        } else if step % 2 == 0 {
            run(b, "append", vec![k, js_entries(&es)]);
            must(w.append(&key, es));
        } else {
            run(b, "insert", vec![k, js_entries(&es)]);
            must(w.insert(&key, es));
        }
    }
    let ids: [u32; 5] = [2, 9, 9, 70000, 8];
    run(b, "renumber", vec![buffer(&ids)]);
    must(w.renumber(&ids));
    run(b, "finish", vec![]);
    must(w.finish());
    let (s, t) = (must(GridStore::new(&p)), must(GridStore::new(&q)));
    let j = open(&m, &p);
    let mut n = 0;
    for (k, v) in t.iter().map(must) {
        let langs: Vec<V> = (0..128u8).filter(|l| k.lang_set >> l & 1 == 1).map(num).collect();
        check(same_entries(run(j, "get", vec![js_key(k.phrase_id, array(langs))]), &v), "a script gets what the Rust builder stores");
        n += 1;
        observe(v.len() as u64);
    }
    check(s.keys().count() == n, "the same keys are stored");
    cover("longer");
}

/// The key iterator lists the keys, each with its languages in order.
fn listing() {
    let m = module();
    let (mut w, p) = builder();
    let e = GridEntry { relev: 1.0, score: 1, x: 1, y: 2, id: 7, source_phrase_hash: 0 };
    let n = fork(3);
    let mut langs = 0u128;
    for b in [0, 1, 31, 63, 64, 127] {
        langs |= (fork(2) as u128) << b;
    }
    let any = u32s();
    let keys = [
        GridKey { phrase_id: any, lang_set: langs },
        GridKey { phrase_id: any, lang_set: [u128::MAX, 1 << 99][fork(2) as usize] },
    ];
    for k in &keys[..n as usize] {
        must(w.insert(k, vec![e.clone()]));
    }
    let s = finish(w, &p);
    let it = does(&m, "GridStoreKeyIterator", vec![open(&m, &p)]);
    for k in s.keys() {
        let k = must(k);
        let r = run(it, "next", vec![]);
        check(!as_bool(field(r, "done")), "the iterator goes on while there are keys");
        let v = field(r, "value");
        check_eq(as_int(field(v, "phrase_id")), k.phrase_id as u64, "the iterator gives each key's phrase");
        let mut l = 0u128;
        let mut last = -1.0;
        for x in items(field(v, "lang_set")) {
            let x = as_num(x);
            check((x > last) & (x < 128.0), "languages are listed in order, once each");
            last = x;
            l |= 1u128 << x as u32;
        }
        check(l == k.lang_set, "the iterator gives each key's languages");
        observe(l as u64);
    }
    for _ in 0..2 {
        let r = run(it, "next", vec![]);
        check(as_bool(field(r, "done")) & is_undefined(field(r, "value")), "the iterator ends after the last key");
    }
    cover(["none", "one", "two"][n as usize]);
}

/// A database that fails: the script is told.
fn failing() {
    let m = module();
    let (b, p) = new_builder(&m);
    let n = 1 + fork(2);
    for i in 0..n {
        run(b, "insert", vec![js_key(3 + i, null()), js_entries(&[any_entry()])]);
    }
    if fork(2) == 1 {
        run(b, "loadBinBoundaries", vec![buffer(&[0, 9])]);
    }
    [rocksdb::verif_fail_after, rocksdb::verif_fail_at][fork(2) as usize](fork(9) as usize);
    let built = method(b, "finish", vec![]);
    check(built.is_none() == (rocksdb::verif_failed() > 0), "finish throws exactly when the database fails");
    if built.is_none() {
        cover("not built");
        return;
    }
    rocksdb::verif_fail_after(fork(4) as usize);
    let s = call(&m, "GridStore", vec![text(&p)]);
    check(s.is_none() == (rocksdb::verif_failed() > 0), "opening throws exactly when the database fails");
    let s = match s {
        Some(s) => s,
        None => {
            cover("not opened");
            return;
        }
    };
    let g = method(s, "get", vec![js_key(3, null())]);
    check(g.is_none() == (rocksdb::verif_failed() > 0), "reading throws exactly when the database fails");
    match g {
        Some(g) => {
            check(items(g).len() == 1, "the entry is read");
            cover("read");
        }
        None => cover("not read"),
    }
}

fn run_case() {
    match case() {
        0 => one(),
        1 => history(),
        2 => listing(),
        3 => longer(),
        4 => failing(),
        _ => {}
    }
}
harness::entry!(run_case);
