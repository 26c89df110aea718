//! A failing database is reported, and a build cut short leaves only whole lists.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::*;
use rocksdb::{verif_fail_after, verif_fail_at, verif_failed};

const LANGS: [u128; 2] = [1, u128::MAX];

/// Lists of three phrases in two bins, and the keys they are under.
fn build() -> (GridStoreBuilder, String, Vec<(GridKey, Vec<u32>)>) {
    let (mut w, p) = builder();
    let mut have = Vec::new();
    let n = 1 + fork(3);
    let l = fork(2);
    for i in 0..n {
        let phrase_id = 10 * i + sym(3) as u32;
        let k = GridKey { phrase_id, lang_set: LANGS[((i + l) % 2) as usize] };
        let mut ids = Vec::new();
        let mut v = Vec::new();
        for j in 0..1 + i % 2 {
            let id = 100 * (i + 1) - j;
            ids.push(id);
            v.push(GridEntry { relev: 1.0, score: 1, x: u16s(), y: 7, id, source_phrase_hash: 0 });
        }
        must(w.insert(&k, v));
        have.push((k, ids));
    }
    if fork(2) == 1 {
        must(w.load_bin_boundaries(vec![0, 10, 30]));
    }
    (w, p, have)
}
/// The number of operations that building takes.
fn total(have: &[(GridKey, Vec<u32>)]) -> u32 {
    // open, a row and a row of its bin for each list, boundaries
    2 + 2 * have.len() as u32
}

/// Any operation of the build fails.
fn cut_short() {
    let (w, p, have) = build();
    let at = fork(total(&have) + 2) as usize;
    [verif_fail_after, verif_fail_at][fork(2) as usize](at);
    let r = w.finish();
    let failed = verif_failed() > 0;
    verif_fail_after(0);
    check(r.is_err() == failed, "building fails exactly when the database does");
    observe(failed as u64);
    if failed {
        cover("failed");
    } else {
        cover("built");
    }
    let s = match GridStore::new(&p) {
        Ok(s) => s,
        Err(_) => {
            check(failed, "a store that was built can be opened");
            cover("nothing there");
            return;
        }
    };
    // what is there
    let keys: Vec<GridKey> = s.keys().map(must).collect();
    check(keys.len() <= have.len() && (failed || keys.len() == have.len()), "there are no more lists than were inserted, and all of them unless building failed");
    let mut there = Vec::new();
    for (k, ids) in have.iter() {
        let n = count(keys.iter().map(|q| (q.phrase_id == k.phrase_id) & (q.lang_set == k.lang_set)));
        check(n <= 1, "a list is there once");
        let g: Option<Vec<GridEntry>> = must(s.get(k)).map(|i| i.collect());
        check(g.is_some() == (n == 1), "a list can be read exactly when it is named");
        if let Some(g) = g {
            let mut got: Vec<u32> = g.iter().map(|e| e.id).collect();
            got.sort();
            let mut want = ids.clone();
            want.sort();
            check(got == want, "a list that is there is whole");
            there.push((k.phrase_id, ids.clone()));
        }
    }
    // what requests give
    let (a, b) = [(0u32, 10u32), (10, 30), (0, 30), (3, 12)][fork(4) as usize];
    let found: Vec<u32> = must(s.streaming_get_matching(&range(a, b, u128::MAX), &MatchOpts::default(), 1000)).map(|m| m.grid_entry.id).collect();
    let mut want = 0;
    for (ph, ids) in &there {
        let inside = (*ph >= a) & (*ph < b);
        for id in ids {
            let n = count(found.iter().map(|f| f == id));
            check(n == inside as u32, "a range gives exactly the lists in it that are there");
            want += n as usize;
        }
    }
    check(found.len() == want, "a range gives nothing else");
    if failed && there.len() > 0 {
        cover("a part is there");
    }
}

/// Opening or reading fails.
fn reading() {
    let (w, p, have) = build();
    must(w.finish());
    let at = fork(4) as usize;
    [verif_fail_after, verif_fail_at][fork(2) as usize](at);
    let s = GridStore::new(&p);
    let failed = verif_failed() > 0;
    check(s.is_err() == failed, "opening fails exactly when the database does");
    let before = verif_failed();
    let s = match s {
        Ok(s) => s,
        Err(_) => {
            cover("not opened");
            return;
        }
    };
    match s.get(&have[0].0) {
        Ok(g) => {
            check(verif_failed() == before, "reading fails when the database does");
            check(g.map(|g| g.count()) == Some(have[0].1.len()), "a list that is read is whole");
            cover("read");
        }
        Err(_) => {
            check(verif_failed() > before, "reading fails only when the database does");
            cover("not read");
        }
    }
    verif_fail_after(0);
    check(must(s.get(&have[0].0)).map(|g| g.count()) == Some(have[0].1.len()), "a failed reading changes nothing");
}

pub fn run() {
    match case() {
        0 => cut_short(),
        1 => reading(),
        _ => {}
    }
}
harness::entry!(run);
