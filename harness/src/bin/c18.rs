//! Scoredist rewards score and nearness.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::*;

const RADII: [f64; 4] = [400.0, 40.0, 1.0, 0.0];

fn dists(zoom: u32, radius: f64) -> Vec<u16> {
    // around the radius at this zoom, and at the ends of the row
    let r = (radius * 0.8 * 1.5f64.powi(zoom as i32 - 14)) as u32;
    let n = 1u32 << zoom;
    let mut v = vec![0, 1, 2, r.saturating_sub(1), r, r + 1, n - 1];
    v.retain(|x| *x < n);
    v.sort();
    v.dedup();
    v.into_iter().map(|x| x as u16).collect()
}

/// Two tiles of a row, two arbitrary scores.
fn two(zooms: &[u32]) {
    let zoom = zooms[fork(zooms.len() as u32) as usize];
    let radius = RADII[fork(4) as usize];
    let ds = dists(zoom, radius);
    let i = fork(ds.len() as u32) as usize;
    let j = i + fork((ds.len() - i) as u32) as usize;
    let (d1, d2) = (ds[i], ds[j]);
    // two keys so that neither changes how the other is stored
    let (s1, s2) = (sym(4) as u8, sym(4) as u8);
    let (mut w, p) = builder();
    let e = |x, score| GridEntry { relev: 1.0, score, x, y: 0, id: 1, source_phrase_hash: 0 };
    must(w.insert(&GridKey { phrase_id: 1, lang_set: u128::MAX }, vec![e(d1, s1)]));
    must(w.insert(&GridKey { phrase_id: 2, lang_set: u128::MAX }, vec![e(d2, s2)]));
    must(w.finish());
    let s = must(GridStore::new_with_options(&p, zoom as u16, 0, radius, vec![[0, 0, 65535, 65535]], 0.0));
    let o = MatchOpts { proximity: Some([0, 0]), zoom: zoom as u16, bbox: None };
    let a: Vec<MatchEntry> = must(s.streaming_get_matching(&exact(1, 1), &o, 10)).collect();
    let b: Vec<MatchEntry> = must(s.streaming_get_matching(&exact(2, 1), &o, 10)).collect();
    let (a, b) = (&a[0], &b[0]);
    check((a.distance == d1 as f64) & (b.distance == d2 as f64), "distance along a row is the number of tiles");
    check((a.scoredist > 0.0) & (a.scoredist < 1e9) & (b.scoredist > 0.0), "scoredist is positive and finite");
    check(!(s1 >= s2) | (a.scoredist >= b.scoredist), "nearer with no lower score is no worse");
    if d1 == d2 {
        cover("same");
        check(!(s1 <= s2) | (a.scoredist <= b.scoredist), "scoredist does not fall with score");
        check((s1.min(7) == s2.min(7)) == (a.scoredist == b.scoredist), "scores up to 7 differ");
    }
    let r = radius * 0.8 * 1.5f64.powi(zoom.max(6) as i32 - 14);
    if d1 as f64 > r * 1.000001 {
        cover("beyond");
        check((s1 != s2) | (a.scoredist == b.scoredist), "beyond the radius only score counts");
    } else if d2 > d1 && d1 >= 1 && (d1 as f64) * 1.000001 < r {
        cover("within");
        check((s1 != s2) | (a.scoredist > b.scoredist), "within the radius nearer is better");
    }
    observe((a.distance + b.distance) as u64);
}

/// Distance between any two of a grid of tiles, both ways.
fn symmetric() {
    const G: [u16; 5] = [0, 1, 3, 32768, 65535];
    let (a, b) = ([G[fork(5) as usize], G[fork(5) as usize]], [G[fork(5) as usize], G[fork(5) as usize]]);
    let id = sym(24) as u32;
    let d = |p: [u16; 2], t: [u16; 2]| {
        let (mut w, path) = builder();
        must(w.insert(&GridKey { phrase_id: 1, lang_set: u128::MAX }, vec![GridEntry { relev: 1.0, score: 1, x: t[0], y: t[1], id, source_phrase_hash: 0 }]));
        let s = finish(w, &path);
        let o = MatchOpts { proximity: Some(p), zoom: 16, bbox: None };
        let v: Vec<MatchEntry> = must(s.streaming_get_matching(&exact(1, 1), &o, 10)).collect();
        check(v[0].grid_entry.id == id, "the entry is returned");
        v[0].distance
    };
    let (x, y) = (d(a, b), d(b, a));
    check(x == y, "distance is symmetric");
    check((x == 0.0) == (a == b), "distance is zero only for the same tile");
    let (dx, dy) = ((a[0] as f64 - b[0] as f64).abs(), (a[1] as f64 - b[1] as f64).abs());
    check((x * x - (dx * dx + dy * dy)).abs() <= 1e-9 * (1.0 + x * x), "distance is Euclidean");
    cover("distance");
    observe(x as u64);
}

fn run() {
    match case() {
        0 => two(&[14, 16, 6, 5, 0]),
        1 => symmetric(),
        2 => two(&[1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13, 15]),
        _ => {}
    }
}
entry!(run);
