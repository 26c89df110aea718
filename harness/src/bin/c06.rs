//! What is stored under a key is what comes back: every entry, once, best first.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::*;

fn tup(e: &GridEntry) -> (u64, u64) {
    (rs(e), ((e.id as u64 & 0xff_ffff) << 8) | e.source_phrase_hash as u64)
}

/// relevance, score and coordinate as one number, in storage order
fn rs(e: &GridEntry) -> u64 {
    let r = RELEVS.iter().position(|r| *r == e.relev).unwrap_or(9) as u64;
    (r << 40) | ((e.score as u64 & 15) << 32) | z(e.x, e.y) as u64
}

fn agree(given: &[GridEntry], got: &[GridEntry]) {
    let a: Vec<(u64, u64)> = given.iter().map(tup).collect();
    let o: Vec<(u64, u64)> = got.iter().map(tup).collect();
    for (i, e) in got.iter().enumerate() {
        check(e.score < 16, "a stored score has four bits");
        check(count(a.iter().map(|t| (t.0 == o[i].0) & (t.1 == o[i].1))) > 0, "an entry comes back that was not stored");
    }
    for t in &a {
        check(count(o.iter().map(|u| (t.0 == u.0) & (t.1 == u.1))) == 1, "a stored entry comes back exactly once");
    }
    for w in o.windows(2) {
        check(
            (w[0].0 > w[1].0) | ((w[0].0 == w[1].0) & (w[0].1 > w[1].1)),
            "entries come back in descending order of relevance, score, tile, id and hash",
        );
    }
    check(got.len() <= given.len(), "no more entries than were stored");
}

fn store_get(given: &[GridEntry]) -> Vec<GridEntry> {
    let k = GridKey { phrase_id: 7, lang_set: 3 };
    let (mut w, p) = builder();
    must(w.insert(&k, given.to_vec()));
    let s = finish(w, &p);
    match must(s.get(&k)) {
        Some(i) => i.collect(),
        None => {
            check(false, "the key is present");
            Vec::new()
        }
    }
}

fn any_entry(relev: f64) -> GridEntry {
    GridEntry { relev, score: u8s(), x: u16s(), y: u16s(), id: u32s(), source_phrase_hash: u8s() }
}

/// Up to three arbitrary entries.
fn few() {
    let n = 1 + fork(3) as usize;
    let r0 = relev();
    let mut given = vec![any_entry(r0)];
    while given.len() < n {
        let r = if fork(2) == 0 { r0 } else { 0.8 };
        given.push(any_entry(r));
    }
    let got = store_get(&given);
    agree(&given, &got);
    observe(got.len() as u64);
    cover(["none", "one", "two", "three"][got.len().min(3)]);
}

/// A list with many shared tiles, scores and ids, and one arbitrary entry anywhere in it.
fn many() {
    let mut given: Vec<GridEntry> = Vec::new();
    let (ns, nc, ni) = [(3, 3, 2), (1, 16, 1), (1, 2, 9)][fork(3) as usize];
    for s in 0..ns {
        for c in 0..nc {
            for i in 0..ni {
                given.push(GridEntry {
                    relev: RELEVS[((s + 3) % 4) as usize],
                    score: (s * 5 % 16) as u8,
                    x: (c * 37 % 11) as u16 * 6000,
                    y: (c * 17 % 7) as u16 * 9000,
                    id: (i * 7919 + c / 3) as u32 & 0xff_ffff,
                    source_phrase_hash: (i * 100) as u8,
                });
            }
        }
    }
    let mut e = any_entry(RELEVS[3]);
    match fork(3) {
        0 => {}
        1 => {
            e.x = given[5].x;
            e.y = given[5].y;
            e.score = given[5].score;
            e.relev = given[5].relev;
        }
        _ => {
            e.id = given[3].id;
            e.source_phrase_hash = given[3].source_phrase_hash;
        }
    }
    let at = [0, given.len() / 2, given.len()][fork(3) as usize];
    given.insert(at, e);
    let got = store_get(&given);
    agree(&given, &got);
    observe(got.len() as u64);
    cover(if got.len() == given.len() { "new" } else { "duplicate" });
}

/// Two keys do not mix; an absent key gives nothing; iteration gives the same.
fn keys() {
    let one = |id| GridEntry { relev: 0.8, score: 3, x: 1, y: 2, id, source_phrase_hash: 4 };
    let lang = || match fork(3) {
        0 => u128::MAX,
        1 => 0,
        _ => (fork(2) as u128) << 120 | sym(32) as u128,
    };
    let k: Vec<GridKey> = (0..3).map(|_| GridKey { phrase_id: u32s(), lang_set: lang() }).collect();
    let same = |a: &GridKey, b: &GridKey| (a.phrase_id == b.phrase_id) & (a.lang_set == b.lang_set);
    assume(!same(&k[0], &k[1]));
    assume(!same(&k[0], &k[2]));
    assume(!same(&k[1], &k[2]));
    let ids = [u32s() & 0xff_ffff, u32s() & 0xff_ffff];
    let (mut w, p) = builder();
    for i in 0..2 {
        must(w.insert(&k[i], vec![one(ids[i])]));
    }
    let s = finish(w, &p);
    for i in 0..2 {
        let got: Vec<GridEntry> = match must(s.get(&k[i])) {
            Some(x) => x.collect(),
            None => Vec::new(),
        };
        check(got.len() == 1, "each key keeps its own entry");
        check(tup(&got[0]) == tup(&one(ids[i])), "and only its own");
    }
    check(must(s.get(&k[2])).is_none(), "an absent key gives nothing");
    let all: Vec<(GridKey, Vec<GridEntry>)> = s.iter().map(must).collect();
    check(all.len() == 2, "iteration gives every key once");
    for (kk, v) in &all {
        let i = if same(kk, &k[0]) { 0 } else { 1 };
        check(same(kk, &k[i]), "iteration gives the stored keys");
        check(v.len() == 1, "iteration gives the stored entries");
        check(tup(&v[0]) == tup(&one(ids[i])), "iteration pairs keys with their entries");
    }
    cover("keys");
}

/// Two tiles of three arbitrary ids each, which may share some or all of them.
fn shared_lists() {
    let other = fork(2);
    let mut given = Vec::new();
    for t in 0..2u16 {
        for _ in 0..3 {
            given.push(GridEntry { relev: 1.0, score: if t == 1 && other == 1 { 2 } else { 3 }, x: 5 + t, y: 9, id: u32s() & 0xff_ffff, source_phrase_hash: 0 });
        }
    }
    let got = store_get(&given);
    agree(&given, &got);
    observe(got.len() as u64);
    cover(if got.len() == 6 { "distinct" } else { "repeated" });
}

/// Long lists: ids of one tile, tiles of one score, scores of one relevance; one entry arbitrary in part.
fn long() {
    let (n, shape, part) = [(130u32, 0, 0), (130, 0, 2), (130, 1, 0), (40, 2, 1), (70, 2, 0), (130, 3, 2)][fork(6) as usize];
    let mut given: Vec<GridEntry> = (0..n)
        .map(|i| {
            let (score, x, id, hash) = match shape {
                // one tile
                0 => (3, 7, i * 131, 0),
                // one feature with many source phrases, and a few others
                1 => (3, 7, i / 64, (i * 5) as u8),
                // tiles of the same feature
                2 => (3, i as u16 * 3, 9, 0),
                // tiles of two features or of all before them
                _ => ((i % 16) as u8, (i / 16) as u16, if i % 3 == 0 { 1 << 20 } else { i }, 1),
            };
            GridEntry { relev: 0.8, score, x, y: 5, id, source_phrase_hash: hash }
        })
        .collect();
    let mut e = given[n as usize / 3].clone();
    match part {
        0 => {
            e.id = (e.id & !511) + sym(9) as u32;
            e.source_phrase_hash = [0, 5, 255][fork(3) as usize];
        }
        1 => e.x = (e.x & !15) + sym(4) as u16,
        _ => e.score = sym(4) as u8,
    }
    let at = [0, given.len()][fork(2) as usize];
    given.insert(at, e);
    let got = store_get(&given);
    let t = tup(&given.remove(at));
    let mut want: Vec<(u64, u64)> = given.iter().map(tup).collect();
    want.sort();
    want.dedup();
    want.reverse();
    // where the arbitrary one belongs
    let (mut lo, mut hi) = (0, want.len());
    while lo < hi {
        let mid = (lo + hi) / 2;
        if want[mid] > t {
            lo = mid + 1;
        } else {
            hi = mid;
        }
    }
    let twice = lo < want.len() && want[lo] == t;
    if !twice {
        want.insert(lo, t);
    }
    check(got.len() == want.len(), "as many entries come back as were stored");
    let mut ok = true;
    for (g, w) in got.iter().zip(want.iter()) {
        let g = tup(g);
        ok &= (g.0 == w.0) & (g.1 == w.1);
    }
    check(ok, "every stored entry comes back once, in descending order of relevance, score, tile, id and hash");
    observe(got.len() as u64);
    cover(if twice { "duplicate" } else { "new" });
}

fn run() {
    match case() {
        0 => few(),
        1 => many(),
        2 => keys(),
        3 => shared_lists(),
        4 => long(),
        _ => {}
    }
}
entry!(run);
