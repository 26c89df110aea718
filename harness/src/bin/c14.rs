//! Matches stream best first, and a cap keeps the best.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::*;

fn pull(s: &GridStore, k: &MatchKey, o: &MatchOpts, cap: usize, n: usize) -> Vec<(f64, u8, u32, bool)> {
    must(s.streaming_get_matching(k, o, cap)).take(n).map(|m| (m.grid_entry.relev, m.grid_entry.score, m.grid_entry.id, m.matches_language)).collect()
}

fn ordered(v: &[(f64, u8, u32, bool)]) {
    let mut ok = true;
    for w in v.windows(2) {
        ok &= (w[0].0 > w[1].0) | ((w[0].0 == w[1].0) & (w[0].1 >= w[1].1));
    }
    check(ok, "entries come back best relevance first, then best score");
}

fn capped(s: &GridStore, k: &MatchKey, o: &MatchOpts, all: &[(f64, u8, u32, bool)]) {
    let mut ok = true;
    for n in 1..=all.len() {
        let v = pull(s, k, o, n, n);
        ok &= v.len() == n;
        for (a, b) in v.iter().zip(all.iter()) {
            ok &= (a.0 == b.0) & (a.1 == b.1);
        }
    }
    check(ok, "a cap of k gives the first k, relevance and score alike");
}

/// Keys of one entry each: more keys than the cap.
fn single(n: usize) {
    let ask = sym(2) as u128;
    let (mut w, p) = builder();
    let mut r = Vec::new();
    for i in 0..n {
        // descending relevance first or last, by fork
        r.push(RELEVS[3 - fork(2) as usize]);
    }
    for i in 0..n {
        let k = GridKey { phrase_id: i as u32 / 2 + 1, lang_set: if i % 2 == 0 { 1 } else { 2 } };
        must(w.append(&k, vec![GridEntry { relev: r[i], score: sym(4) as u8, x: 5, y: i as u16, id: i as u32, source_phrase_hash: 0 }]));
    }
    let s = finish(w, &p);
    let k = range(1, 9, ask);
    let o = MatchOpts::default();
    let all = pull(&s, &k, &o, 100, 100);
    check(all.len() == n, "every entry comes back");
    ordered(&all);
    capped(&s, &k, &o, &all);
    cover("single");
    for a in all.iter() {
        observe(a.2 as u64);
    }
}

/// Keys of several entries.
fn several() {
    let ask = sym(1) as u128;
    let (mut w, p) = builder();
    let sc = [sym(4) as u8, sym(4) as u8, sym(4) as u8];
    let (x, y) = (u16s(), u16s());
    let e = |relev, score, x, id| GridEntry { relev, score, x, y, id, source_phrase_hash: 0 };
    let r = RELEVS[fork(4) as usize];
    must(w.append(&GridKey { phrase_id: 1, lang_set: 1 }, vec![e(r, sc[0], x, 1), e(0.8, sc[1], x, 2), e(0.6, 9, 7, 3)]));
    must(w.append(&GridKey { phrase_id: 2, lang_set: 2 }, vec![e(0.8, sc[2], x, 4), e(1.0, 3, 8, 5)]));
    let s = finish(w, &p);
    let k = range(1, 3, ask);
    let mut o = MatchOpts::default();
    if fork(2) == 1 {
        o.bbox = Some([7, 0, 65535, 65535]);
    }
    let all = pull(&s, &k, &o, 100, 100);
    ordered(&all);
    capped(&s, &k, &o, &all);
    cover(if all.len() == 5 { "all" } else { "some" });
    for a in all.iter() {
        observe(a.2 as u64);
    }
}

/// With a proximity point, tiles of different scores merge by scoredist (tiles of one score come
/// by z-order distance, which is another property).
fn with_point() {
    let ask = sym(1) as u128;
    let sc = [sym(4) as u8, sym(4) as u8, sym(4) as u8];
    assume((sc[0] != sc[1]) & (sc[1] != sc[2]) & (sc[0] != sc[2]));
    let (mut w, p) = builder();
    let t = [[100u16, 100u16], [103, 100], [160, 100]];
    let e = |relev, score, i: usize| GridEntry { relev, score, x: t[i][0], y: t[i][1], id: i as u32, source_phrase_hash: 0 };
    must(w.append(&GridKey { phrase_id: 1, lang_set: 1 }, vec![e(1.0, sc[0], 0), e(1.0, sc[1], 1), e(1.0, sc[2], 2)]));
    must(w.finish());
    let s = must(GridStore::new_with_options(&p, 14, 0, 50.0, vec![[0, 0, 65535, 65535]], 0.0));
    let o = MatchOpts { proximity: Some([[100, 100], [130, 100], [161, 99], [0, 0]][fork(4) as usize]), zoom: 14, bbox: if fork(2) == 0 { None } else { Some([0, 0, 200, 200]) } };
    let got: Vec<MatchEntry> = must(s.streaming_get_matching(&exact(1, ask), &o, 100)).collect();
    let mut ok = true;
    for w in got.windows(2) {
        ok &= w[0].scoredist >= w[1].scoredist;
    }
    check(ok, "with a point, entries of one phrase and relevance come back best scoredist first");
    check(got.len() == 3, "every entry comes back");
    cover("point");
    for m in got.iter() {
        observe(m.grid_entry.id as u64);
    }
}

/// Many keys of several entries, one score arbitrary.
fn many() {
    let ask = sym(2) as u128;
    let (mut w, p) = builder();
    let n = 16u32;
    let at = [0, 7, 15][fork(3) as usize];
    let any = sym(4) as u8;
    for i in 0..n {
        let k = GridKey { phrase_id: i / 2 + 1, lang_set: if i % 2 == 0 { 1 } else { 2 } };
        let e = |j: u32| {
            let score = if (i == at) & (j == 1) { any } else { ((i * 7 + j * 5) % 16) as u8 };
            GridEntry { relev: RELEVS[((i + j) % 4) as usize], score, x: j as u16, y: i as u16, id: 4 * i + j, source_phrase_hash: 0 }
        };
        must(w.append(&k, (0..3).map(e).collect()));
    }
    let bins = fork(2) == 1;
    if bins {
        must(w.load_bin_boundaries(vec![0, 4, 9]));
    }
    let s = finish(w, &p);
    let k = range(0, 9, ask);
    let o = MatchOpts::default();
    let all = pull(&s, &k, &o, 100, 100);
    check(all.len() == 3 * n as usize, "every entry comes back");
    ordered(&all);
    let mut ok = true;
    for n in [1, 2, 3, 15, 16, 17, 40, 47, 48] {
        let v = pull(&s, &k, &o, n, n);
        ok &= v.len() == n;
        for (a, b) in v.iter().zip(all.iter()) {
            ok &= (a.0 == b.0) & (a.1 == b.1);
        }
    }
    check(ok, "a cap of k gives the first k, relevance and score alike");
    cover("many");
    observe(all[0].2 as u64);
}

fn run() {
    match case() {
        0 => single(3),
        1 => several(),
        2 => with_point(),
        3 => single(4),
        4 => single(5),
        5 => many(),
        _ => {}
    }
}
entry!(run);
