//! An entry of a result says what a plain request says of it.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::search::{covers, digest};
use harness::stacks::*;
use harness::*;

struct Part {
    zoom: u16,
    idx: u16,
    weight: f64,
    stored: u128,
    radius: f64,
    entries: Vec<GridEntry>,
}

impl Part {
    fn store(&self) -> GridStore {
        let (mut w, p) = builder();
        must(w.insert(&GridKey { phrase_id: 1, lang_set: self.stored }, self.entries.clone()));
        must(w.insert(&GridKey { phrase_id: 2, lang_set: u128::MAX }, vec![GridEntry { id: 99, relev: 1.0, ..self.entries[0].clone() }]));
        must(w.finish());
        must(GridStore::new_with_options(&p, self.zoom, self.idx, self.radius, global_bbox_for_zoom(self.zoom), 15.0))
    }
}

/// The point's tile at a zoom, moved by some tiles.
fn at(z: u16, p: [u16; 2], pz: u16, dx: i32, dy: i32) -> (u16, u16) {
    let s = |v: u16, d: i32| {
        let v = if z >= pz { (v as u32) << (z - pz) } else { v as u32 >> (pz - z) } as i32 + d;
        v.max(0).min((1i32 << z) - 1) as u16
    };
    (s(p[0], dx), s(p[1], dy))
}

const MOVES: [[(i32, i32); 2]; 4] = [[(0, 0), (1, 0)], [(0, 20), (3, -4)], [(1, 1), (-60, 400)], [(0, 0), (0, 0)]];

fn parts(n: usize, zooms: &[u16], p: [u16; 2], pz: u16) -> Vec<Part> {
    (0..n)
        .map(|i| {
            let zoom = zooms[i];
            let m = MOVES[fork(if n == 3 { 2 } else { 4 }) as usize];
            let entries = (0..2)
                .map(|k| {
                    let (x, y) = at(zoom, p, pz, m[k].0, m[k].1);
                    GridEntry { relev: [1.0, 0.8][k], score: if i == n - 1 && k == 0 { sym(3) as u8 } else { 3 }, x, y, id: 1 + k as u32, source_phrase_hash: u8s() }
                })
                .collect();
            let stored = if i == 0 { sym(8) as u128 | (1 << 90) } else { 1 << 90 };
            Part { zoom, idx: i as u16 + 1, weight: [0.5, 0.25][i % 2], stored, radius: [200.0, 3.0][if n == 3 { i & 1 } else { fork(2) as usize }], entries }
        })
        .collect()
}

/// What a plain request answers.
fn plain(s: &GridStore, k: &MatchKey, o: &MatchOpts, z: u16, nearby: bool) -> Vec<MatchEntry> {
    let o = o.adjust_to_zoom(z);
    let o = if nearby { o.with_nearby_only() } else { o };
    must(s.streaming_get_matching(k, &o, 1000)).collect()
}

fn is(p: &Part, c: &CoalesceEntry, m: &MatchEntry) -> bool {
    let (g, e) = (&c.grid_entry, &m.grid_entry);
    let place = (c.idx == p.idx) & (g.id == e.id) & (g.x == e.x) & (g.y == e.y);
    let what = (g.score == e.score) & (g.source_phrase_hash == e.source_phrase_hash) & (g.relev == e.relev * p.weight);
    place & what & (c.matches_language == m.matches_language) & (c.distance == m.distance) & (c.scoredist == m.scoredist)
}

fn each(parts: &[Part], answers: &[Vec<MatchEntry>], v: &[CoalesceContext]) {
    let mut ok = true;
    for c in v {
        for e in c.entries.iter() {
            let i = e.idx as usize - 1;
            ok &= count(answers[i].iter().map(|m| is(&parts[i], e, m))) == 1;
        }
        observe(digest(c));
        observe((c.entries[0].distance * 8.0) as u64);
    }
    check(ok, "a result's entry says what a plain request says of it");
    observe(v.len() as u64);
    cover(["none", "lone", "stacked"][v.iter().map(|c| c.entries.len()).max().unwrap_or(0).min(2)]);
}

fn point() -> (u16, [u16; 2]) {
    let z = [14u16, 16, 6][fork(3) as usize];
    let n = (1u32 << z) - 1;
    (z, [[(n / 2) as u16, (n / 3) as u16], [2, n as u16]][fork(2) as usize])
}

fn run() {
    let (pz, p) = point();
    let key = MatchKey { match_phrase: MatchPhrase::Range { start: 1, end: 1 + 1 + fork(2) }, lang_set: sym(8) as u128 };
    match case() {
        // one phrase match, asked plainly
        0 => {
            let parts = parts(1, &[pz], p, pz);
            let s = parts[0].store();
            let o = MatchOpts { zoom: pz, proximity: Some(p), bbox: None };
            let answers = vec![plain(&s, &key, &o, pz, false)];
            let mut pm = phrasematch(&s, 1, parts[0].weight, 1, 7);
            pm.match_keys = vec![key_of(7, key)];
            let v = must(coalesce(vec![pm], &o));
            check(!v.is_empty(), "something is found");
            each(&parts, &answers, &v);
        }
        // a stack of two, asked plainly or as a tree
        1 | 2 => {
            let tree = case() == 2;
            let z = [[6u16, 14], [14, 14], [13, 16], [0, 6]][fork(4) as usize];
            let parts = parts(2, &z, p, pz);
            let stores: Vec<GridStore> = parts.iter().map(|s| s.store()).collect();
            let o = MatchOpts { zoom: pz, proximity: Some(p), bbox: None };
            let nearby = tree && fork(2) == 1;
            let mut answers = Vec::new();
            let mut pm = Vec::new();
            for (i, s) in stores.iter().enumerate() {
                answers.push(plain(s, &key, &o, parts[i].zoom, nearby));
                let mut q = phrasematch(s, i as u16 + 1, parts[i].weight, 1 << i, 7);
                let mut k = key_of(7 + i as u32, key.clone());
                k.nearby_only = nearby;
                q.match_keys = vec![k];
                pm.push(q);
            }
            let v = if tree { must(stack_and_coalesce(&pm, &o)) } else { must(coalesce(pm, &o)) };
            each(&parts, &answers, &v);
            if tree {
                let mut ok = true;
                for m in answers[0].iter() {
                    for n in answers[1].iter() {
                        let over = covers(z[0], &m.grid_entry, z[1], &n.grid_entry);
                        let got = count(v.iter().map(|c| c.entries.len() == 2 && is(&parts[1], &c.entries[0], n) & is(&parts[0], &c.entries[1], m)));
                        ok &= got == over as u32;
                    }
                }
                check(ok, "what plain requests answer stacks where the tiles hold one another");
            }
        }
        // one phrase match in a tree
        3 => {
            let z = [0u16, 6, 13, 14, 16][fork(5) as usize];
            let parts = parts(1, &[z], p, pz);
            let s = parts[0].store();
            let o = MatchOpts { zoom: pz, proximity: Some(p), bbox: None };
            let nearby = fork(2) == 1;
            let answers = vec![plain(&s, &key, &o, z, nearby)];
            let mut pm = phrasematch(&s, 1, parts[0].weight, 1, 7);
            let mut k = key_of(7, key);
            k.nearby_only = nearby;
            pm.match_keys = vec![k];
            let v = must(stack_and_coalesce(&vec![pm], &o));
            check(v.is_empty() == answers[0].is_empty(), "something is found when a plain request answers something");
            each(&parts, &answers, &v);
        }
        // a stack of three, asked plainly or as a tree
        4 | 5 => {
            let z = [[4u16, 6, 14], [6, 14, 14], [0, 6, 16]][fork(3) as usize];
            let parts = parts(3, &z, p, pz);
            let stores: Vec<GridStore> = parts.iter().map(|s| s.store()).collect();
            let o = MatchOpts { zoom: pz, proximity: Some(p), bbox: None };
            let mut answers = Vec::new();
            let mut pm = Vec::new();
            for (i, s) in stores.iter().enumerate() {
                answers.push(plain(s, &key, &o, parts[i].zoom, false));
                let mut q = phrasematch(s, i as u16 + 1, parts[i].weight, 1 << i, 7);
                q.match_keys = vec![key_of(7 + i as u32, key.clone())];
                pm.push(q);
            }
            let v = if case() == 5 { must(stack_and_coalesce(&pm, &o)) } else { must(coalesce(pm, &o)) };
            each(&parts, &answers, &v);
        }
        _ => {}
    }
}
entry!(run);
