//! Renumbering moves every phrase to its final id and nothing else.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::*;

fn e(id: u32) -> GridEntry {
    GridEntry { relev: 0.8, score: 3, x: 1, y: 2, id, source_phrase_hash: 4 }
}

fn lang() -> u128 {
    [1, 2, u128::MAX][fork(3) as usize]
}

/// Up to three keys, any mapping of up to four entries.
fn any() {
    let n = 1 + fork(3) as usize;
    let m = fork(5) as usize;
    let map: Vec<u32> = (0..m).map(|_| u32s()).collect();
    let (mut w, p) = builder();
    let mut ks: Vec<GridKey> = Vec::new();
    for i in 0..n {
        let k = GridKey { phrase_id: i as u32 + if i == n - 1 { [0, 1, 2, 1 << 8, 1 << 16][fork(5) as usize] } else { 0 }, lang_set: lang() };
        for q in &ks {
            assume(*q != k);
        }
        must(w.insert(&k, vec![e(100 + i as u32)]));
        ks.push(k);
    }
    if n == 3 && fork(2) == 0 {
        // a second language of an existing phrase
        let k = GridKey { phrase_id: ks[0].phrase_id, lang_set: 0xf00 };
        must(w.insert(&k, vec![e(200)]));
        ks.push(k);
    }
    let inside = ks.iter().all(|k| (k.phrase_id as usize) < m);
    let r = w.renumber(&map);
    if !inside {
        check(r.is_err(), "a phrase outside the mapping is an error");
        cover("outside");
        return;
    }
    let to: Vec<GridKey> =
        ks.iter().map(|k| GridKey { phrase_id: map[k.phrase_id as usize], lang_set: k.lang_set }).collect();
    let mut clash = false;
    for i in 0..to.len() {
        for j in 0..i {
            clash |= (to[i].phrase_id == to[j].phrase_id) & (to[i].lang_set == to[j].lang_set);
        }
    }
    check(r.is_err() == clash, "renumbering fails exactly when two keys would become one");
    if r.is_err() {
        cover("clash");
        return;
    }
    let s = finish(w, &p);
    check(s.keys().count() == ks.len(), "renumbering keeps the number of keys");
    for (i, k) in to.iter().enumerate() {
        let v: Vec<GridEntry> = match must(s.get(k)) {
            Some(x) => x.collect(),
            None => Vec::new(),
        };
        check(v.len() == 1, "a phrase is found under its final id");
        let want = if i == 3 { 200 } else { 100 + i as u32 };
        check_eq(v[0].id as u64, want as u64, "with its own entries");
        observe(v[0].id as u64);
    }
    cover("moved");
}

/// A long permutation with one arbitrary target.
fn long() {
    let n = [130u32, 260, 300][fork(3) as usize];
    let i = [0, n / 2, n - 1][fork(3) as usize];
    let any = u32s();
    let mut map: Vec<u32> = (0..n).map(|t| (t * 7 + 3) % n).collect();
    map[i as usize] = any;
    let (mut w, p) = builder();
    for t in 0..n {
        must(w.insert(&GridKey { phrase_id: t, lang_set: 1 + (t % 3) as u128 }, vec![e(t + 1)]));
    }
    let r = w.renumber(&map);
    let mut clash = false;
    for t in 0..n {
        clash |= (t != i) & (map[t as usize] == any) & (t % 3 == i % 3);
    }
    check(r.is_err() == clash, "renumbering fails exactly when two keys would become one");
    if r.is_err() {
        cover("clash");
        return;
    }
    let s = finish(w, &p);
    let mut ok = true;
    for t in 0..n {
        let k = GridKey { phrase_id: map[t as usize], lang_set: 1 + (t % 3) as u128 };
        let v: Vec<GridEntry> = match must(s.get(&k)) {
            Some(x) => x.collect(),
            None => Vec::new(),
        };
        check(v.len() == 1, "a phrase is found under its final id");
        ok &= v[0].id == t + 1;
    }
    check(ok, "with its own entries");
    cover("moved");
}

/// A larger permutation with two arbitrary targets.
fn permuted() {
    let n = 24u32;
    let (i, j) = (fork(2), 2 + fork(3) * 10);
    let (a, b) = (u32s(), u32s());
    let mut map: Vec<u32> = (0..n).map(|t| (t * 7 + 3) % n).collect();
    map[i as usize] = a;
    map[j as usize] = b;
    let (mut w, p) = builder();
    for t in 0..n {
        must(w.insert(&GridKey { phrase_id: t, lang_set: 1 + (t % 3) as u128 }, vec![e(t + 1)]));
    }
    let r = w.renumber(&map);
    let mut clash = false;
    for t in 0..n {
        for u in 0..t {
            clash |= (map[t as usize] == map[u as usize]) & (t % 3 == u % 3);
        }
    }
    check(r.is_err() == clash, "renumbering fails exactly when two keys would become one");
    if r.is_ok() {
        let s = finish(w, &p);
        for t in 0..n {
            let k = GridKey { phrase_id: map[t as usize], lang_set: 1 + (t % 3) as u128 };
            let v: Vec<GridEntry> = match must(s.get(&k)) {
                Some(x) => x.collect(),
                None => Vec::new(),
            };
            check(v.len() == 1, "a phrase is found under its final id");
            check_eq(v[0].id as u64, t as u64 + 1, "with its own entries");
        }
        cover("moved");
    } else {
        cover("clash");
    }
}

fn run() {
    match case() {
        0 => any(),
        1 => permuted(),
        2 => long(),
        _ => {}
    }
}
entry!(run);
