//! Language: what matches is returned at full relevance, what does not is kept but demoted.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::*;

fn e(id: u32, relev: f64, score: u8) -> GridEntry {
    GridEntry { relev, score, x: 1, y: 2, id, source_phrase_hash: 3 }
}

/// A few language sets of different encoded lengths.
fn some_lang() -> u128 {
    match fork(4) {
        0 => 0,
        1 => u128::MAX,
        2 => below(8, 255) as u128 + 1,
        _ => (1 << 127) | sym(64) as u128,
    }
}

/// One phrase stored under two language sets; any request language set.
fn two() {
    let (la, lb) = (u128s(), some_lang());
    assume(la != lb);
    let q = u128s();
    let rv = relev();
    let (mut w, p) = builder();
    let s = [(2, 3), (15, 9), (0, 15)][fork(3) as usize];
    must(w.insert(&GridKey { phrase_id: 5, lang_set: la }, vec![e(1, rv, s.0)]));
    must(w.insert(&GridKey { phrase_id: 5, lang_set: lb }, vec![e(2, rv, s.1)]));
    let s = finish(w, &p);
    let key = if fork(2) == 0 { exact(5, q) } else { range(4, 7, q) };
    let got: Vec<MatchEntry> =
        must(s.streaming_get_matching(&key, &MatchOpts::default(), 100)).collect();
    check(got.len() == 2, "entries are returned whatever their language");
    for m in &got {
        let l = if m.grid_entry.id == 1 { la } else { lb };
        let want = (l == u128::MAX) | (l & q != 0);
        check(m.matches_language == want, "the language flag says whether the sets intersect");
        let full = m.grid_entry.relev == rv;
        let less = m.grid_entry.relev == rv * 0.96;
        check((full & want) | (less & !want), "relevance is demoted by 4 percent exactly without a language match");
        observe(m.matches_language as u64);
        cover(if m.matches_language { "match" } else { "demoted" });
    }
    check(got[0].grid_entry.id != got[1].grid_entry.id, "both entries are returned");
    // a language match outranks an equal entry without one
    check(got[0].grid_entry.relev >= got[1].grid_entry.relev, "better relevance first");
}

/// The same through bins.
fn binned() {
    let (la, lb) = (some_lang(), u128s());
    assume(la != lb);
    let q = u128s();
    let (mut w, p) = builder();
    must(w.insert(&GridKey { phrase_id: 5, lang_set: la }, vec![e(1, 1.0, 2)]));
    must(w.insert(&GridKey { phrase_id: 6, lang_set: lb }, vec![e(2, 1.0, 3)]));
    must(w.insert(&GridKey { phrase_id: 7, lang_set: la }, vec![e(3, 1.0, 3)]));
    must(w.load_bin_boundaries(vec![0, 5, 8]));
    let s = finish(w, &p);
    let got: Vec<MatchEntry> =
        must(s.streaming_get_matching(&range(5, 8, q), &MatchOpts::default(), 100)).collect();
    check(got.len() == 3, "entries are returned whatever their language (bins)");
    for m in &got {
        let l = if m.grid_entry.id == 2 { lb } else { la };
        let want = (l == u128::MAX) | (l & q != 0);
        check(m.matches_language == want, "the language flag says whether the sets intersect (bins)");
        check(m.grid_entry.relev == if want { 1.0 } else { 0.96 }, "demotion (bins)");
        observe(m.matches_language as u64);
    }
    cover("bins");
}

/// Six language sets under one phrase, any requested set; and the same through bins.
fn several() {
    let q = u128s();
    let langs = [1u128, 6, 0, u128::MAX, (1 << 127) | 1, 0xffff_ffff << 40];
    let bins = fork(2) == 1;
    let (mut w, p) = builder();
    for (i, l) in langs.iter().enumerate() {
        let v = (0..3).map(|j| e(10 * i as u32 + j, RELEVS[3 - j as usize], [0, 3, 15, 7, 12, 9][i])).collect();
        must(w.insert(&GridKey { phrase_id: 5, lang_set: *l }, v));
    }
    if bins {
        must(w.load_bin_boundaries(vec![0, 5, 8]));
    }
    let s = finish(w, &p);
    let key = if bins { range(5, 8, q) } else { exact(5, q) };
    let point = fork(3);
    let o = MatchOpts { zoom: 6, proximity: [None, Some([1, 2]), Some([60, 60])][point as usize], ..MatchOpts::default() };
    let got: Vec<MatchEntry> = must(s.streaming_get_matching(&key, &o, 100)).collect();
    check(got.len() == 18, "entries are returned whatever their language");
    let mut ok = true;
    for m in &got {
        let (i, j) = (m.grid_entry.id / 10, m.grid_entry.id % 10);
        let l = langs[i as usize];
        let want = (l == u128::MAX) | (l & q != 0);
        let r = RELEVS[3 - j as usize];
        ok &= (m.matches_language == want) & (m.grid_entry.relev == if want | (point == 1) { r } else { r * 0.96 });
    }
    check(ok, "relevance is demoted by 4 percent exactly without a language match, and not near the point");
    let mut ok = true;
    for v in got.windows(2) {
        ok &= (v[0].grid_entry.relev >= v[1].grid_entry.relev) & (v[0].grid_entry.id != v[1].grid_entry.id);
    }
    check(ok, "better relevance first");
    cover("several");
    observe(got[0].grid_entry.id as u64);
}

fn run() {
    match case() {
        0 => two(),
        1 => binned(),
        2 => several(),
        _ => {}
    }
}
entry!(run);
