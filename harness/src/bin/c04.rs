//! A request returns the entries of exactly the phrases it names.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::*;

fn e(id: u32) -> GridEntry {
    GridEntry { relev: 1.0, score: 1, x: 1, y: 2, id, source_phrase_hash: 3 }
}

/// ids returned for a request
fn ask(s: &GridStore, k: &MatchKey) -> Vec<u32> {
    must(s.streaming_get_matching(k, &MatchOpts::default(), 1000)).map(|m| m.grid_entry.id).collect()
}

/// Any three phrase ids, any request.
fn any3() {
    let n = 1 + fork(3) as usize;
    let (mut w, p) = builder();
    let mut ph: Vec<u32> = Vec::new();
    for i in 0..n {
        let v = u32s();
        for q in &ph {
            assume(v != *q);
        }
        must(w.insert(&GridKey { phrase_id: v, lang_set: u128::MAX }, vec![e(i as u32 + 1)]));
        ph.push(v);
    }
    let s = finish(w, &p);
    let (key, lo, hi) = match fork(2) {
        0 => {
            let q = u32s();
            (exact(q, 0), q as u64, q as u64 + 1)
        }
        _ => {
            let (a, b) = (u32s(), u32s());
            (range(a, b, 0), a as u64, b as u64)
        }
    };
    let got = ask(&s, &key);
    let mut want = 0;
    for (i, v) in ph.iter().enumerate() {
        let inside = (lo <= *v as u64) & ((*v as u64) < hi);
        let times = count(got.iter().map(|g| *g == i as u32 + 1));
        check(times == inside as u32, "a phrase's entry is returned exactly when the request names the phrase");
        want += inside as usize;
    }
    check(got.len() == want, "nothing else is returned");
    observe(got.len() as u64);
    cover(["none", "one", "two", "three"][got.len().min(3)]);
}

/// Many phrases around the byte boundaries of their encoding, any request.
fn many() {
    let mut ph: Vec<u32> = Vec::new();
    for base in [0u32, 0x7e, 0xfe, 0x7ffe, 0xfffe, 0xff_fffe, 0x7fff_fffe, 0xffff_fffa] {
        for d in 0..4 {
            ph.push(base + d);
        }
    }
    let (mut w, p) = builder();
    for (i, v) in ph.iter().enumerate().rev() {
        must(w.insert(&GridKey { phrase_id: *v, lang_set: u128::MAX }, vec![e(i as u32 + 1)]));
    }
    let s = finish(w, &p);
    let (key, lo, hi) = match fork(2) {
        0 => {
            let q = u32s();
            (exact(q, 0), q as u64, q as u64 + 1)
        }
        _ => {
            let (a, b) = (u32s(), u32s());
            (range(a, b, 0), a as u64, b as u64)
        }
    };
    let got = ask(&s, &key);
    let mut want = 0;
    for (i, v) in ph.iter().enumerate() {
        let inside = (lo <= *v as u64) & ((*v as u64) < hi);
        let times = count(got.iter().map(|g| *g == i as u32 + 1));
        check(times == inside as u32, "a phrase's entry is returned exactly when the request names the phrase");
        want += inside as usize;
    }
    check(got.len() == want, "nothing else is returned");
    observe(got.len() as u64);
    cover(if got.len() > 20 { "wide" } else { "narrow" });
}

/// A crowd of phrases.
fn crowd() {
    let n = 300u32;
    let (mut w, p) = builder();
    for i in 0..n {
        must(w.insert(&GridKey { phrase_id: 3 * i + 1, lang_set: [u128::MAX, 1, 2][i as usize % 3] }, vec![e(i)]));
    }
    if fork(2) == 1 {
        must(w.load_bin_boundaries((0..10).map(|b| b * 100 + 1).collect()));
    }
    let s = finish(w, &p);
    let (key, lo, hi) = if fork(2) == 0 {
        let q = u32s();
        (exact(q, 1), q as u64, q as u64 + 1)
    } else {
        let a = [0, 1, 100, 101, 383, 899][fork(6) as usize];
        let b = a + below(8, 256) as u32 * [1, 4][fork(2) as usize];
        (range(a, b, 1), a as u64, b as u64)
    };
    let got = ask(&s, &key);
    let mut here = vec![0; n as usize];
    for g in got.iter() {
        here[*g as usize] += 1;
    }
    let mut ok = true;
    for i in 0..n {
        let v = 3 * i as u64 + 1;
        ok &= here[i as usize] == ((lo <= v) & (v < hi)) as u32;
    }
    check(ok, "a phrase's entry is returned exactly when the request names the phrase");
    observe(got.len() as u64);
    cover(if got.len() > 20 { "wide" } else { "narrow" });
}

/// One phrase under several language sets: all its entries belong to the phrase.
fn langs() {
    let q = u32s();
    let v = [u32s(), u32s()];
    assume(v[0] != v[1]);
    let (mut w, p) = builder();
    let ls = [0u128, 1, 0xff, 0x100, 1 << 127, u128::MAX - 1, u128::MAX];
    for (j, l) in ls.iter().enumerate() {
        for i in 0..2 {
            must(w.insert(&GridKey { phrase_id: v[i], lang_set: *l }, vec![e((i * 10 + j) as u32)]));
        }
    }
    let s = finish(w, &p);
    let got = ask(&s, &exact(q, u128s()));
    for i in 0..2 {
        for j in 0..ls.len() {
            let times = count(got.iter().map(|g| *g == (i * 10 + j) as u32));
            check(times == (v[i] == q) as u32, "every language set of the phrase is returned, and no other phrase's");
        }
    }
    check(got.len() <= ls.len(), "nothing else is returned");
    observe(got.len() as u64);
    cover(if got.is_empty() { "miss" } else { "hit" });
}

fn run() {
    match case() {
        0 => any3(),
        1 => many(),
        2 => langs(),
        3 => crowd(),
        _ => {}
    }
}
entry!(run);
