//! Every match key of a phrase match contributes exactly its own entries.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::search::*;
use harness::stacks::*;
use harness::*;

/// A match key: the phrases `lo` to `hi` (not included).
#[derive(Clone)]
struct Key {
    id: u32,
    lo: u32,
    hi: u32,
    nearby: bool,
}

/// A phrase match over a store of phrases 1, 2, ...; phrase i holds phrases[i - 1].
struct Match {
    zoom: u16,
    idx: u16,
    mask: u32,
    phrases: Vec<Vec<GridEntry>>,
    keys: Vec<Key>,
}

impl Match {
    fn store(&self) -> GridStore {
        let (mut w, p) = builder();
        for (i, v) in self.phrases.iter().enumerate() {
            must(w.insert(&GridKey { phrase_id: i as u32 + 1, lang_set: u128::MAX }, v.clone()));
        }
        must(w.finish());
        must(GridStore::new_with_options(&p, self.zoom, self.idx, 200.0, global_bbox_for_zoom(self.zoom), 15.0))
    }
    /// As one phrase match, or as one for each key.
    fn ask<'a>(&self, s: &'a GridStore, apart: bool) -> Vec<PhrasematchSubquery<&'a GridStore>> {
        let mut out = Vec::new();
        let mut all = Vec::new();
        for k in self.keys.iter() {
            let key = if k.hi == k.lo + 1 { exact(k.lo, 1) } else { range(k.lo, k.hi, 1) };
            let key = MatchKeyWithId { key, nearby_only: k.nearby, id: k.id, phrase_length: 5 };
            if apart {
                let mut p = phrasematch(s, self.idx, 0.5, self.mask, k.id);
                p.match_keys = vec![key];
                out.push(p);
            } else {
                all.push(key);
            }
        }
        if !apart {
            let mut p = phrasematch(s, self.idx, 0.5, self.mask, 0);
            p.match_keys = all;
            out.push(p);
        }
        out
    }
    /// What each key names.
    fn named(&self) -> Vec<(Key, GridEntry)> {
        let mut v = Vec::new();
        for k in self.keys.iter() {
            for (i, p) in self.phrases.iter().enumerate() {
                if k.lo <= i as u32 + 1 && (i as u32 + 1) < k.hi {
                    for e in p {
                        v.push((k.clone(), e.clone()));
                    }
                }
            }
        }
        v
    }
}

/// 25 miles in tiles, rounded up
fn pad(z: u32) -> u32 {
    (25 * (1u32 << z) + 24900) / 24901
}

fn search(ms: Vec<Match>, o: MatchOpts, apart: bool) {
    let stores: Vec<GridStore> = ms.iter().map(|m| m.store()).collect();
    let mut pm = Vec::new();
    for (m, s) in ms.iter().zip(stores.iter()) {
        pm.extend(m.ask(s, apart));
    }
    let v = must(stack_and_coalesce(&pm, &o));
    let within = |z: u16, k: &Key, e: &GridEntry| {
        let a = o.adjust_to_zoom(z);
        let mut r = a.bbox.map_or(true, |b| (b[0] <= e.x) & (e.x <= b[2]) & (b[1] <= e.y) & (e.y <= b[3]));
        if let (true, Some(p)) = (k.nearby, a.proximity) {
            let d = |a: u16, b: u16| (a as i32 - b as i32).abs() as u32;
            r &= (d(e.x, p[0]) <= pad(z as u32)) & (d(e.y, p[1]) <= pad(z as u32));
        }
        r
    };
    let same = |c: &CoalesceEntry, m: &Match, k: &Key, e: &GridEntry| {
        let g = &c.grid_entry;
        (c.idx == m.idx) & (c.phrasematch_id == k.id) & (g.id == e.id) & (g.x == e.x) & (g.y == e.y) & (g.score == e.score) & close(g.relev, e.relev * 0.5)
    };
    // alone, and in pairs of one inside the other
    let mut want = 0u32;
    let mut ok = true;
    let named: Vec<_> = ms.iter().map(|m| m.named()).collect();
    for (m, n) in ms.iter().zip(named.iter()) {
        for (k, e) in n {
            let w = within(m.zoom, k, e);
            want += w as u32;
            ok &= count(v.iter().map(|c| c.entries.len() == 1 && same(&c.entries[0], m, k, e))) == w as u32;
        }
    }
    check(ok, "each match key gives exactly its own entries");
    let mut pairs = 0u32;
    if ms.len() == 2 {
        let mut ok = true;
        for (k, e) in named[0].iter() {
            for (l, f) in named[1].iter() {
                let w = within(ms[0].zoom, k, e) & within(ms[1].zoom, l, f) & covers(ms[0].zoom, e, ms[1].zoom, f);
                pairs += w as u32;
                ok &= count(v.iter().map(|c| c.entries.len() == 2 && same(&c.entries[0], &ms[1], l, f) & same(&c.entries[1], &ms[0], k, e))) == w as u32;
            }
        }
        check(ok, "entries of every pair of keys stack when one's tile holds the other's");
    }
    check(v.len() as u32 == want + pairs, "nothing else is found");
    cover(["nothing", "one", "several"][want.min(2) as usize]);
    cover(["no pair", "a pair", "pairs"][pairs.min(2) as usize]);
    observe(v.len() as u64);
    for c in v.iter() {
        observe(digest(c));
    }
}

fn some(z: u16, n: usize, id: u32) -> Vec<GridEntry> {
    (0..n)
        .map(|i| {
            let t = tile(z);
            entry([1.0, 0.8][(i + id as usize) % 2], (i as u8 + id as u8) & 15, t.0, t.1, id + i as u32)
        })
        .collect()
}

fn key(id: u32, lo: u32, hi: u32) -> Key {
    Key { id, lo, hi, nearby: false }
}

fn keys(i: u32) -> Vec<Key> {
    match i {
        0 => vec![key(7, 1, 2), key(8, 2, 3)],
        1 => vec![key(8, 2, 3), key(7, 1, 2), key(9, 3, 4)],
        2 => vec![key(7, 1, 3), key(8, 2, 4)],
        3 => vec![key(3, 1, 2), key(5, 9, 10), key(4, 1, 4)],
        4 => vec![key(7, 1, 2)],
        _ => vec![key(0, 1, 2), key(1 << 31, 1, 2)],
    }
}

const ZOOMS: [[u16; 2]; 5] = [[6, 6], [6, 13], [0, 13], [4, 6], [6, 16]];

fn alone() {
    let z = [6, 0, 13, 14, 16][fork(5) as usize];
    let phrases = vec![some(z, 1, 10), some(z, 2, 20), some(z, 1, 30)];
    let m = Match { zoom: z, idx: 1, mask: 1 << fork(2), phrases, keys: keys(fork(6)) };
    search(vec![m], MatchOpts { zoom: [z, 14][fork(2) as usize], ..MatchOpts::default() }, fork(2) == 1)
}

/// Keys whose phrases and ids are arbitrary.
fn arbitrary() {
    let phrases = vec![some(6, 1, 10), some(6, 1, 20), some(6, 1, 30)];
    let mut ks = Vec::new();
    for _ in 0..2 {
        let (lo, hi) = (u32s(), u32s());
        assume(lo < hi);
        let id = u32s();
        for k in &ks {
            let k: &Key = k;
            assume(k.id != id);
        }
        ks.push(Key { id, lo, hi, nearby: false });
    }
    let m = Match { zoom: 6, idx: 1, mask: 1, phrases, keys: ks };
    search(vec![m], MatchOpts { zoom: 6, ..MatchOpts::default() }, false)
}

fn stacked() {
    let z = ZOOMS[fork(5) as usize];
    let a = Match { zoom: z[0], idx: 1, mask: 1, phrases: vec![some(z[0], 1, 10), some(z[0], 1, 20), vec![entry(1.0, 3, 0, 0, 30)]], keys: keys(fork(4)) };
    let mut kb = keys([4, 0, 2][fork(3) as usize]);
    for k in kb.iter_mut() {
        k.id += 20;
    }
    let b = Match { zoom: z[1], idx: 2, mask: 2, phrases: vec![some(z[1], 1, 10), vec![entry(0.8, 3, 1, 1, 20)], vec![]], keys: kb };
    let mut b = b;
    b.phrases.pop();
    search(vec![a, b], MatchOpts { zoom: z[1], ..MatchOpts::default() }, fork(2) == 1)
}

/// Two entries a phrase, three keys on each side.
fn larger() {
    let z = [[6u16, 6], [6, 13], [0, 16]][fork(3) as usize];
    let fixed = |z: u16, id: u32| entry(0.8, 3, (1u32 << z >> 1) as u16, 0, id);
    let mut ms = Vec::new();
    for t in 0..2 {
        let z = z[t];
        let mut p = vec![some(z, 1, 10), some(z, 1, 20), vec![fixed(z, 30)]];
        p[t].push(fixed(z, 40));
        let mut ks = keys(1 + 2 * t as u32);
        for k in ks.iter_mut() {
            k.id += 20 * t as u32;
        }
        ms.push(Match { zoom: z, idx: t as u16 + 1, mask: 1 << t, phrases: p, keys: ks });
    }
    search(ms, MatchOpts { zoom: z[1], ..MatchOpts::default() }, false)
}

/// Many phrases and many keys, one arbitrary range and one arbitrary tile.
fn crowd() {
    let z = [[6u16, 6], [6, 13], [4, 9]][fork(3) as usize];
    let d = z[1] - z[0];
    let a = Match { zoom: z[0], idx: 1, mask: 1, phrases: vec![vec![entry(1.0, 3, 2, 3, 10)], vec![entry(0.8, 3, 3, 3, 11)]], keys: vec![key(1, 1, 3), key(2, 2, 3)] };
    let at = [0, 6, 11][fork(3) as usize];
    let phrases: Vec<Vec<GridEntry>> = (0..12)
        .map(|i| {
            let t = if i == at { tile(z[1]) } else { ((2 + i as u16 % 3) << d, (3 << d) + ((1 << d) - 1)) };
            vec![entry([1.0, 0.8][i % 2], i as u8 % 9, t.0, t.1, 20 + i as u32)]
        })
        .collect();
    let mut keys: Vec<Key> = (0..9).map(|i| key(100 + 3 * i, 1 + i, [2 + i, 13, 4 + i][i as usize % 3])).collect();
    let k = [4, 0, 8][at / 5];
    keys[k].lo = 1 + below(4, 16) as u32;
    keys[k].hi = keys[k].lo + 5;
    let b = Match { zoom: z[1], idx: 2, mask: 2, phrases, keys };
    search(vec![a, b], MatchOpts { zoom: z[1], ..MatchOpts::default() }, false)
}

/// Some of the keys only ask for what is near the point.
fn nearby() {
    let z = [[6u16, 14], [14, 14], [14, 16], [12, 13]][fork(4) as usize];
    let n = 1u32 << z[1];
    let p = [[n / 2, n / 3], [3, n - 2], [n - 1, 0]][fork(3) as usize];
    let mut o = MatchOpts { zoom: z[1], proximity: Some([p[0] as u16, p[1] as u16]), bbox: None };
    if fork(2) == 1 {
        o.bbox = Some([0, 0, (n - 1) as u16, p[1] as u16]);
    }
    // tiles around the edge of the area
    let edge = |t: usize, id: u32| {
        let d = n_at(z[t], p, z[1]);
        let far = pad(z[t] as u32);
        let side = fork(4) + far - 1;
        let m = (1u32 << z[t]) - 1;
        let (x, y) = match fork(if z[0] == 14 { 3 } else { 1 }) {
            0 => (d[0] + side, d[1]),
            1 => (d[0].max(side) - side, d[1]),
            _ => (d[0], d[1] + side),
        };
        assume((x <= m) & (y <= m));
        entry(1.0, 2, x as u16, y as u16, id)
    };
    let mut ms = Vec::new();
    let two = fork(2) == 1;
    for t in 0..2 {
        let zoom = z[t];
        let phrases = if t == 1 || !two { vec![vec![edge(t, 10)], some_at(n_at(zoom, p, z[1]), 20)] } else { vec![some_at(n_at(zoom, p, z[1]), 10), some_at(n_at(zoom, p, z[1]), 20)] };
        let mut ks = vec![key(7 + t as u32 * 20, 1, 2), key(8 + t as u32 * 20, 2, 3)];
        ks[0].nearby = b();
        if t == 1 || !two {
            ks[1].lo = u32s();
            ks[1].hi = u32s();
            assume(ks[1].lo < ks[1].hi);
        }
        ks[1].nearby = b();
        ms.push(Match { zoom, idx: t as u16 + 1, mask: 1 << t, phrases, keys: ks });
        if !two {
            break;
        }
    }
    search(ms, o, false)
}

/// The point at another zoom.
fn n_at(z: u16, p: [u32; 2], from: u16) -> [u32; 2] {
    let o = MatchOpts { zoom: from, proximity: Some([p[0] as u16, p[1] as u16]), bbox: None }.adjust_to_zoom(z);
    let q = o.proximity.unwrap();
    [q[0] as u32, q[1] as u32]
}

fn some_at(d: [u32; 2], id: u32) -> Vec<GridEntry> {
    vec![entry(0.8, 2, d[0] as u16, d[1] as u16, id)]
}

fn run() {
    match case() {
        0 => alone(),
        1 => arbitrary(),
        2 => stacked(),
        3 => nearby(),
        4 => larger(),
        5 => crowd(),
        _ => {}
    }
}
entry!(run);
