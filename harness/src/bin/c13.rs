//! Returned entries carry the right relevance, distance and scoredist.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::*;

const RADII: [f64; 5] = [400.0, 40.0, 0.5, 0.0, 3000.0];

fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + b.abs())
}

/// (distance, within the radius, scoredist) by the definitions
fn want(p: [u16; 2], t: [u16; 2], score: u8, zoom: u32, radius: f64) -> (f64, bool, f64) {
    let (dx, dy) = (p[0] as f64 - t[0] as f64, p[1] as f64 - t[1] as f64);
    let d = (dx * dx + dy * dy).sqrt();
    let r = radius * 0.8 * 1.5f64.powi(zoom as i32 - 14);
    let rs = radius * 0.8 * 1.5f64.powi(zoom.max(6) as i32 - 14);
    let ratio = (if d < 1.0 { 0.8 } else { d }) / rs;
    let ratio = if ratio > 1.0 { 1.0 } else { ratio };
    let e = std::f64::consts::E;
    let s = (6.0 * e.powi(score.min(7) as i32) / e.powi(7) + 1.0) / ratio;
    (d, d <= r * (1.0 + 1e-12), s)
}

fn store(zoom: u32, radius: f64, lang_set: u128, v: Vec<GridEntry>) -> GridStore {
    let (mut w, p) = builder();
    must(w.insert(&GridKey { phrase_id: 1, lang_set }, v));
    must(w.finish());
    must(GridStore::new_with_options(&p, zoom as u16, 0, radius, vec![[0, 0, 65535, 65535]], 0.0))
}

fn langs() -> (u128, u128) {
    let have = match fork(3) {
        0 => u128::MAX,
        1 => 0,
        _ => (sym(8) as u128) << 64 | 1,
    };
    (have, (sym(8) as u128) << 64 | (sym(1) as u128))
}

/// One entry, a point at each of several distances from it.
fn one(zooms: &[u32]) {
    let zoom = zooms[fork(zooms.len() as u32) as usize];
    let radius = RADII[fork(5) as usize];
    let n = (1u32 << zoom) - 1;
    let r = (radius * 0.8 * 1.5f64.powi(zoom as i32 - 14) + 1e-9) as u32;
    let q = [n / 2, n / 3];
    let (dx, dy) = match fork(7) {
        0 => (0, 0),
        1 => (1, 0),
        2 => (0, r),
        3 => (r + 1, 0),
        4 => (r * 7 / 10, r * 7 / 10),
        5 => (r * 3 / 5, r * 4 / 5 + 1),
        _ => (2, n / 4),
    };
    let (dx, dy) = (dx.min(n / 2), dy.min(n / 3));
    let t = if fork(2) == 0 { [(q[0] + dx) as u16, (q[1] - dy) as u16] } else { [(q[0] - dx) as u16, (q[1] + dy) as u16] };
    let q = [q[0] as u16, q[1] as u16];
    let (have, ask) = langs();
    let (id, hash, score) = (sym(24) as u32, u8s(), sym(4) as u8);
    let relev = RELEVS[fork(4) as usize];
    let s = store(zoom, radius, have, vec![GridEntry { relev, score, x: t[0], y: t[1], id, source_phrase_hash: hash }]);
    let o = MatchOpts { proximity: Some(q), zoom: zoom as u16, bbox: None };
    let got: Vec<MatchEntry> = must(s.streaming_get_matching(&exact(1, ask), &o, 10)).collect();
    check(got.len() == 1, "the entry comes back once");
    let m = &got[0];
    let g = &m.grid_entry;
    check((g.id == id) & (g.source_phrase_hash == hash) & (g.score == score) & (g.x == t[0]) & (g.y == t[1]), "what is stored is what is returned");
    let lang = (have == u128::MAX) | (have & ask != 0);
    check(m.matches_language == lang, "the language flag");
    let (d, within, sd) = want(q, t, score, zoom, radius);
    check(near(m.distance, d), "the distance is the tile distance to the point");
    check(near(m.scoredist, sd), "the scoredist follows from zoom, distance, score and radius");
    check(near(g.relev, if lang | within { relev } else { relev * 0.96 }), "relevance is demoted exactly when neither language nor place matches");
    cover(if within { "within" } else { "beyond" });
    observe(g.id as u64);
    observe((m.distance * 1000.0) as u64);
}

/// Without a point.
fn no_point() {
    let (have, ask) = langs();
    let (id, hash, score, x, y) = (sym(24) as u32, u8s(), u8s(), u16s(), u16s());
    let relev = RELEVS[fork(4) as usize];
    let zoom = [6, 14, 16, 0][fork(4) as usize];
    let radius = RADII[fork(5) as usize];
    let s = store(zoom, radius, have, vec![GridEntry { relev, score, x, y, id, source_phrase_hash: hash }]);
    let o = MatchOpts { proximity: None, zoom: zoom as u16, bbox: if fork(2) == 0 { None } else { Some([0, 0, 65535, 65535]) } };
    let got: Vec<MatchEntry> = must(s.streaming_get_matching(&exact(1, ask), &o, 10)).collect();
    check(got.len() == 1, "the entry comes back once");
    let m = &got[0];
    let g = &m.grid_entry;
    check((g.id == id) & (g.source_phrase_hash == hash) & (g.score == score & 15) & (g.x == x) & (g.y == y), "what is stored is what is returned");
    let lang = (have == u128::MAX) | (have & ask != 0);
    check(m.matches_language == lang, "the language flag");
    check((m.distance == 0.0) & (m.scoredist == (score & 15) as f64), "without a point distance is 0 and scoredist the score");
    check(near(g.relev, if lang { relev } else { relev * 0.96 }), "relevance is demoted exactly when the language does not match");
    cover("no point");
    observe(g.id as u64);
}

/// Distances around the radius decided by the solver rather than listed.
fn edge() {
    let (radius, zoom, at) = [(400.0, 14, 304), (400.0, 16, 704), (40.0, 14, 16), (5.0, 14, 0)][fork(4) as usize];
    let x = at + sym(5) as u16;
    let r = (radius * 0.8 * 1.5f64.powi(zoom as i32 - 14) + 1e-9) as u16;
    let s = store(zoom, radius, 1, vec![GridEntry { relev: 0.8, score: 3, x, y: 77, id: 9, source_phrase_hash: 0 }]);
    let o = MatchOpts { proximity: Some([0, 77]), zoom: zoom as u16, bbox: None };
    let got: Vec<MatchEntry> = must(s.streaming_get_matching(&exact(1, 2), &o, 10)).collect();
    check(got.len() == 1, "the entry comes back once");
    check((got[0].grid_entry.relev == 0.8) == (x <= r), "an entry within the radius is not demoted, one beyond is");
    cover("edge");
    observe(got[0].grid_entry.x as u64);
}

/// Several entries and languages in one request: each carries its own.
fn several() {
    let zoom = 14;
    let radius = 40.0;
    let p = [5000u16, 5000u16];
    let t = [[5000u16, 5000u16], [5000, 5032], [5033, 5000], [4000, 1]];
    let (l1, ask) = (sym(8) as u128, sym(8) as u128);
    let sc = [sym(3) as u8, sym(3) as u8];
    let (mut w, path) = builder();
    let e = |i: usize, relev, score| GridEntry { relev, score, x: t[i][0], y: t[i][1], id: i as u32, source_phrase_hash: i as u8 };
    must(w.insert(&GridKey { phrase_id: 1, lang_set: l1 }, vec![e(0, 1.0, sc[0]), e(2, 1.0, sc[1]), e(3, 0.6, sc[0])]));
    must(w.insert(&GridKey { phrase_id: 2, lang_set: u128::MAX }, vec![e(1, 0.8, sc[0])]));
    must(w.finish());
    let s = must(GridStore::new_with_options(&path, zoom as u16, 0, radius, vec![[0, 0, 65535, 65535]], 0.0));
    let o = MatchOpts { proximity: Some(p), zoom: zoom as u16, bbox: None };
    let got: Vec<MatchEntry> = must(s.streaming_get_matching(&range(1, 3, ask), &o, 10)).collect();
    check(got.len() == 4, "every entry comes back once");
    let mut seen = 0;
    let mut ok = true;
    for m in got.iter() {
        let i = m.grid_entry.id as usize;
        seen |= 1 << i;
        let (relev, score) = [(1.0, sc[0]), (0.8, sc[0]), (1.0, sc[1]), (0.6, sc[0])][i];
        let lang = (i == 1) | (l1 & ask != 0);
        let (d, within, sd) = want(p, t[i], score, zoom, radius);
        ok &= (m.matches_language == lang) & near(m.distance, d) & near(m.scoredist, sd);
        ok &= near(m.grid_entry.relev, if lang | within { relev } else { relev * 0.96 });
        ok &= m.grid_entry.score == score;
        observe(i as u64);
    }
    check(seen == 15, "each entry comes back");
    check(ok, "each entry carries its own relevance, distance, scoredist and language flag");
    cover("several");
}

fn run() {
    match case() {
        0 => one(&[14, 16, 6, 0]),
        1 => no_point(),
        2 => edge(),
        3 => several(),
        4 => one(&[1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 15]),
        _ => {}
    }
}
entry!(run);
