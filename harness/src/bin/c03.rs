//! Keys: distinct keys stay distinct, order follows the phrase, and enumeration returns what was inserted.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::*;

fn enc(k: &GridKey, bin: bool) -> Vec<u8> {
    let mut v = Vec::new();
    must(k.write_to(if bin { TypeMarker::PrefixBin } else { TypeMarker::SinglePhrase }, &mut v));
    v
}
fn any_key() -> GridKey {
    GridKey { phrase_id: u32s(), lang_set: u128s() }
}
fn same(a: &GridKey, b: &GridKey) -> bool {
    (a.phrase_id == b.phrase_id) & (a.lang_set == b.lang_set)
}
fn entry(id: u32) -> Vec<GridEntry> {
    vec![GridEntry { relev: 1.0, score: 1, x: 1, y: 2, id, source_phrase_hash: 0 }]
}

/// Two arbitrary keys encode alike only if they are equal, and sort by kind, then phrase.
fn injective() {
    let (a, b) = (any_key(), any_key());
    let (ka, kb) = (fork(2) == 1, fork(2) == 1);
    let (ea, eb) = (enc(&a, ka), enc(&b, kb));
    check((ea.len() <= 21) & (eb.len() <= 21) & (ea.len() >= 5), "a key takes 5 to 21 bytes");
    let eq = ea == eb;
    check(!eq | (same(&a, &b) & (ka == kb)), "distinct keys have distinct encodings");
    if ka == kb {
        if a.phrase_id < b.phrase_id {
            check(ea < eb, "encodings order by phrase");
            cover("ordered");
        }
    } else {
        check((ea < eb) == !ka, "ordinary phrases sort before bins");
        cover("kinds");
    }
    observe(ea.len() as u64);
}

fn two_shapes() -> (GridKey, GridKey) {
    // language sets of every encoded length, and the two special ones
    let lang = |n: u32| -> u128 {
        match n {
            0 => 0,
            1 => u128::MAX,
            2 => below(8, 255) as u128 + 1,
            3 => sym(16) as u128,
            4 => (sym(64) as u128) << 64,
            _ => u128s(),
        }
    };
    let a = GridKey { phrase_id: u32s(), lang_set: lang(fork(6)) };
    let b = GridKey { phrase_id: u32s(), lang_set: lang(fork(6)) };
    (a, b)
}

/// Two keys written to a store are exactly the keys it lists, in phrase order.
fn listed() {
    let (a, b) = two_shapes();
    let (mut w, p) = builder();
    must(w.insert(&a, entry(7)));
    must(w.insert(&b, entry(9)));
    let s = finish(w, &p);
    let keys: Vec<GridKey> = s.keys().map(must).collect();
    if a == b {
        check(keys.len() == 1 && same(&keys[0], &a), "one key listed once");
        cover("one");
    } else {
        check(keys.len() == 2, "two distinct keys are both listed");
        let fwd = same(&keys[0], &a) & same(&keys[1], &b);
        let rev = same(&keys[0], &b) & same(&keys[1], &a);
        check(fwd | rev, "the keys listed are those inserted");
        check(keys[0].phrase_id <= keys[1].phrase_id, "keys are listed in phrase order");
        cover("two");
    }
    let all: Vec<(GridKey, Vec<GridEntry>)> = s.iter().map(must).collect();
    check(all.len() == keys.len(), "iteration visits each key once");
    for ((k, v), k2) in all.iter().zip(keys.iter()) {
        check(same(k, k2), "iteration and key listing agree");
        check(v.len() == 1, "each key carries its own entries");
        let want = if *k == b { 9 } else { 7 };
        check_eq(v[0].id as u64, want, "each key carries its own entries (id)");
        observe(k.phrase_id as u64);
        observe(k.lang_set as u64);
    }
}

/// Lookup finds a key exactly when it was inserted.
fn lookup() {
    let (a, q) = two_shapes();
    let (mut w, p) = builder();
    must(w.insert(&a, entry(7)));
    let s = finish(w, &p);
    let got: Option<Vec<GridEntry>> = must(s.get(&q)).map(|i| i.collect());
    check(got.is_some() == same(&a, &q), "a lookup succeeds exactly for the inserted key");
    if let Some(v) = got {
        check(v.len() == 1 && v[0].id == 7, "a lookup returns the entries of its key");
        cover("hit");
    } else {
        cover("miss");
    }
}

/// A stored key matches a request by phrase and language exactly as defined.
fn matching() {
    let k = any_key();
    let kind = fork(2) == 1;
    let e = enc(&k, kind);
    let want_kind = fork(2) == 1;
    let marker = if want_kind { TypeMarker::PrefixBin } else { TypeMarker::SinglePhrase };
    let lang = u128s();
    let (m, inside) = if fork(2) == 0 {
        let p = u32s();
        (exact(p, lang), p == k.phrase_id)
    } else {
        let (s, t) = (u32s(), u32s());
        (range(s, t, lang), (s <= k.phrase_id) & (k.phrase_id < t))
    };
    let got = must(m.matches_key(marker, &e));
    check(got == (inside & (kind == want_kind)), "a stored key matches by kind and phrase");
    let l = must(m.matches_language(&e));
    check(l == ((k.lang_set == u128::MAX) | (k.lang_set & lang != 0)), "languages match when they intersect");
    // seeking to the start of a request reaches every key it may match
    let mut from = Vec::new();
    must(m.write_start_to(marker, &mut from));
    if got {
        check(from <= e, "the seek position precedes every match");
        cover("match");
    }
    observe(l as u64);
}

/// A store of many keys, one of them arbitrary: all are listed, once, in order, and found.
fn crowd() {
    let lang = |i: u32| [1u128, 0, u128::MAX, 1 << 127, 0xff00, 1 << 64][i as usize % 6];
    // phrases next to each other, some under several languages, around every byte boundary
    let mut all: Vec<GridKey> = (0..48u32)
        .map(|i| GridKey { phrase_id: [i, 250 + i / 2, 0xfff0 + i, 0xff_fff0 + i / 3, u32::MAX - i / 2][i as usize % 5], lang_set: lang(i) })
        .collect();
    let a = GridKey { phrase_id: u32s(), lang_set: [0, 1, u128::MAX, 1 << 100][fork(4) as usize] };
    let fresh = count(all.iter().map(|k| same(k, &a))) == 0;
    let (mut w, p) = builder();
    must(w.insert(&a, entry(99)));
    for (i, k) in all.iter().enumerate() {
        must(w.insert(k, entry(100 + i as u32)));
    }
    let s = finish(w, &p);
    all.push(a.clone());
    let keys: Vec<GridKey> = s.keys().map(must).collect();
    check(keys.len() == 48 + fresh as usize, "every key is listed");
    let mut ok = true;
    for k in &all {
        ok &= count(keys.iter().map(|l| same(k, l))) == 1;
    }
    check(ok, "every key is listed once");
    let mut ok = true;
    for v in keys.windows(2) {
        ok &= v[0].phrase_id <= v[1].phrase_id;
    }
    check(ok, "keys are listed in phrase order");
    let items: Vec<(GridKey, Vec<GridEntry>)> = s.iter().map(must).collect();
    check(items.len() == keys.len(), "iteration visits each key once");
    let mut ok = true;
    for ((k, v), l) in items.iter().zip(keys.iter()) {
        ok &= same(k, l) & (v.len() == 1);
        let mut id = 99;
        for (i, k2) in all[..48].iter().enumerate() {
            if same(k, k2) {
                id = 100 + i as u32;
            }
        }
        ok &= v[0].id == id;
    }
    check(ok, "each key carries its own entries");
    let got: Vec<GridEntry> = must(s.get(&a)).map(|i| i.collect()).unwrap_or_default();
    check(got.len() == 1, "a lookup finds the key");
    cover(if fresh { "new" } else { "again" });
}

fn run() {
    match case() {
        0 => injective(),
        1 => listed(),
        2 => lookup(),
        3 => matching(),
        4 => crowd(),
        _ => {}
    }
}
entry!(run);
