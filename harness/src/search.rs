//! Stores and subqueries for the checks of searching, and what their results must satisfy.
use crate::gen::*;
use crate::stacks::*;
use crate::*;
use carmen_core::gridstore::*;

/// One subquery: a store of one phrase and how it is asked for.
pub struct Sub {
    pub zoom: u16,
    pub type_id: u16,
    pub idx: u16,
    pub weight: f64,
    pub mask: u32,
    pub key_id: u32,
    pub entries: Vec<GridEntry>,
    /// the requested language matches the stored one
    pub lang: bool,
    /// the areas the index says it covers, when not the world
    pub boxes: Option<Vec<[u16; 4]>>,
}

impl Sub {
    pub fn new(i: usize, zoom: u16, weight: f64, entries: Vec<GridEntry>) -> Sub {
        Sub { zoom, type_id: i as u16, idx: i as u16 + 1, weight, mask: 1 << i, key_id: i as u32 + 10, entries, lang: true, boxes: None }
    }
    pub fn store(&self) -> GridStore {
        let (mut w, p) = builder();
        must(w.insert(&GridKey { phrase_id: 1, lang_set: if self.lang { u128::MAX } else { 2 } }, self.entries.clone()));
        must(w.finish());
        let boxes = self.boxes.clone().unwrap_or_else(|| global_bbox_for_zoom(self.zoom));
        must(GridStore::new_with_options(&p, self.zoom, self.type_id, 200.0, boxes, 15.0))
    }
    pub fn ask<'a>(&self, s: &'a GridStore) -> PhrasematchSubquery<&'a GridStore> {
        let mut p = phrasematch(s, self.idx, self.weight, self.mask, self.key_id);
        p.match_keys = vec![key_of(self.key_id, exact(1, 1))];
        p
    }
    /// an entry's relevance in a search
    pub fn relev(&self, e: &GridEntry) -> f64 {
        (if self.lang { e.relev } else { e.relev * 0.96 }) * self.weight
    }
}

pub fn entry(relev: f64, score: u8, x: u16, y: u16, id: u32) -> GridEntry {
    GridEntry { relev, score, x, y, id, source_phrase_hash: 0 }
}

/// Any tile of a zoom.
pub fn tile(zoom: u16) -> (u16, u16) {
    (below(16, 1 << zoom) as u16, below(16, 1 << zoom) as u16)
}

/// Two subqueries of several fixed tiles, each of the second below one of the first; one tile of either is arbitrary.
pub fn crowd(n: usize, z: [u16; 2], w: [f64; 2], relev: &dyn Fn(usize) -> f64) -> [Sub; 2] {
    let d = z[1] - z[0];
    let (side, at) = (fork(2) as usize, fork(3) as usize * (n - 1) / 2);
    [0, 1].map(|s| {
        let e = (0..n)
            .map(|i| {
                // tiles of one relevance and score are stored in order of place
                let (mut x, mut y) = (2 + (i % 4) as u16, 3 + (i / 4) as u16);
                if s == 1 {
                    x = (x << d) + if d > 0 { (i as u16 * 5) % (1 << d) } else { 0 };
                    y = (y << d) + if d > 0 { (i as u16 * 3) % (1 << d) } else { 0 };
                }
                if (s, i) == (side, at) {
                    let t = tile(z[s]);
                    x = t.0;
                    y = t.1;
                }
                entry(relev(i), (i % 5) as u8, x, y, i as u32 + 1)
            })
            .collect();
        Sub::new(s, z[s], w[s], e)
    })
}
pub const CROWDS: [[u16; 2]; 5] = [[6, 6], [6, 14], [14, 16], [4, 15], [16, 16]];

/// Subqueries of one fixed tile each, all around one place, and one arbitrary tile in one of them.
pub fn chain(n: usize) -> Vec<Sub> {
    let z = [[2u16, 4, 6, 9, 10, 13], [6; 6], [0, 1, 14, 15, 15, 16], [5, 6, 6, 9, 9, 9]][fork(4) as usize];
    let m = [[1, 2, 4, 8, 16, 32], [32, 16, 8, 4, 2, 1], [1, 2, 4, 2, 8, 16], [1, 6, 8, 16, 16, 96]][fork(4) as usize];
    let any = fork(n as u32) as usize;
    (0..n)
        .map(|i| {
            let d = 16 - z[i];
            let mut e = vec![entry(1.0, 3, (0x6543u32 >> d) as u16, (0x9abcu32 >> d) as u16, 5)];
            if i == any {
                let t = tile(z[i]);
                e.push(entry(0.8, 4, t.0, t.1, 6));
            }
            let mut s = Sub::new(i, z[i], [0.125, 0.25, 0.125, 0.1875, 0.125, 0.1875][i], e);
            s.mask = m[i];
            s
        })
        .collect()
}

/// The tile at zoom `out` that contains (x, y) of zoom `from`.
pub fn parent(x: u16, y: u16, from: u16, out: u16) -> (u32, u32) {
    let d = (from - out) as u32;
    ((x as u32) >> d, (y as u32) >> d)
}

pub fn covers(pz: u16, p: &GridEntry, cz: u16, c: &GridEntry) -> bool {
    if pz > cz {
        return false;
    }
    let t = parent(c.x, c.y, cz, pz);
    (t.0 == p.x as u32) & (t.1 == p.y as u32)
}

pub fn close(a: f64, b: f64) -> bool {
    (a - b < 1e-9) & (b - a < 1e-9)
}

/// Which subquery a result's entry belongs to.
pub fn owner<'a>(subs: &'a [Sub], e: &CoalesceEntry) -> &'a Sub {
    for s in subs {
        if s.idx == e.idx {
            return s;
        }
    }
    check(false, "an entry belongs to a subquery");
    unreachable!()
}

/// A result's entry is one of the data, with everything the search adds to it.
pub fn real(subs: &[Sub], e: &CoalesceEntry, tree: bool) -> bool {
    let s = owner(subs, e);
    let g = &e.grid_entry;
    let mut found = false;
    for d in s.entries.iter() {
        found |= (d.x == g.x) & (d.y == g.y) & (d.id == g.id) & (d.score == g.score) & (d.source_phrase_hash == g.source_phrase_hash) & close(s.relev(d), g.relev);
    }
    found
        & (e.mask == s.mask)
        & (e.tmp_id == ((s.idx as u32) << 25) + g.id)
        & (e.matches_language == s.lang)
        & (e.phrasematch_id == if tree { s.key_id } else { 0 })
}

/// Everything a result says follows from the data.
pub fn consistent(subs: &[Sub], c: &CoalesceContext, tree: bool, deepest: u16) {
    let n = c.entries.len();
    check(n > 0, "a result has an entry");
    let mut ok = true;
    let mut mask = 0;
    let mut disjoint = true;
    let mut sum = 0.0;
    let mut inside = true;
    let head = &c.entries[0];
    let hs = owner(subs, head);
    for (i, e) in c.entries.iter().enumerate() {
        let s = owner(subs, e);
        ok &= real(subs, e, tree);
        disjoint &= mask & e.mask == 0;
        mask |= e.mask;
        sum += e.grid_entry.relev;
        if i > 0 {
            // everything below the head contains it; in a tree, so does each the one before it
            inside &= covers(s.zoom, &e.grid_entry, hs.zoom, &head.grid_entry);
            if tree {
                let b = &c.entries[i - 1];
                inside &= covers(s.zoom, &e.grid_entry, owner(subs, b).zoom, &b.grid_entry);
            }
            for o in &c.entries[..i] {
                disjoint &= o.idx != e.idx;
            }
        }
    }
    check(ok, "every entry of a result is one of the data");
    check(disjoint, "the entries of a result are of different indexes with disjoint masks");
    check(inside, "the tiles of a result contain one another");
    check(c.mask == mask, "a result's mask is the union of its entries' masks");
    let lower = n == 1 || head.mask > c.entries[1].mask;
    let r = c.relev;
    let right = if tree {
        // a lone entry that nothing could be stacked on is not lowered
        (close(r, sum - 0.01) & lower) | (close(r, sum) & (!lower | (n == 1)))
    } else {
        let lower = lower & (head.idx == deepest);
        close(r, if lower { sum - 0.01 } else { sum })
    };
    check(right, "a result's relevance is the sum of its entries'");
}

/// Best first.
pub fn sorted(v: &[CoalesceContext]) {
    let mut ok = true;
    for w in v.windows(2) {
        ok &= (w[0].relev > w[1].relev) | ((w[0].relev == w[1].relev) & (w[0].entries[0].scoredist >= w[1].entries[0].scoredist));
    }
    check(ok, "results come best relevance first, then best scoredist");
}

/// What every search's result satisfies, whatever the data.
pub fn tidy(v: &[CoalesceContext]) {
    check(v.len() <= 40, "at most 40 results");
    sorted(v);
    let mut ok = true;
    let mut near = true;
    for (i, c) in v.iter().enumerate() {
        near &= v[0].relev - c.relev < 0.25;
        for o in &v[..i] {
            ok &= (o.entries[0].idx != c.entries[0].idx) | (o.entries[0].grid_entry.id != c.entries[0].grid_entry.id);
        }
    }
    check(ok, "no two results are headed by the same feature");
    check(near, "no result is 0.25 or more below the best");
}

/// The subquery whose entries come last: the deepest zoom, then the highest index.
pub fn deepest(subs: &[Sub]) -> u16 {
    let mut d = &subs[0];
    for s in subs {
        if (s.zoom, s.idx) > (d.zoom, d.idx) {
            d = s;
        }
    }
    d.idx
}

/// The sum of everything a result says, for comparing results between orders and runs.
pub fn digest(c: &CoalesceContext) -> u64 {
    let mut h = c.relev.to_bits() ^ (c.mask as u64) << 3;
    for (i, e) in c.entries.iter().enumerate() {
        h = h.wrapping_add((e.tmp_id as u64) << (i * 5)).wrapping_add((e.grid_entry.x as u64) << 40).wrapping_add((e.grid_entry.y as u64) << 20);
    }
    h
}

/// Two results say the same.
pub fn same(a: &CoalesceContext, b: &CoalesceContext) -> bool {
    if a.entries.len() != b.entries.len() {
        return false;
    }
    let mut ok = (a.relev == b.relev) & (a.mask == b.mask);
    for (a, b) in a.entries.iter().zip(b.entries.iter()) {
        let (g, h) = (&a.grid_entry, &b.grid_entry);
        ok &= (g.relev == h.relev) & (g.score == h.score) & (g.x == h.x) & (g.y == h.y) & (g.id == h.id) & (g.source_phrase_hash == h.source_phrase_hash);
        ok &= (a.matches_language == b.matches_language) & (a.idx == b.idx) & (a.tmp_id == b.tmp_id) & (a.mask == b.mask);
        ok &= (a.distance == b.distance) & (a.scoredist == b.scoredist) & (a.phrasematch_id == b.phrasematch_id);
    }
    ok
}

/// The same results in the same order.
pub fn same_list(a: &[CoalesceContext], b: &[CoalesceContext]) -> bool {
    let mut ok = a.len() == b.len();
    for (a, b) in a.iter().zip(b.iter()) {
        ok &= same(a, b);
    }
    ok
}

/// The same results, in the same order of relevance and scoredist.
pub fn same_set(a: &[CoalesceContext], b: &[CoalesceContext]) -> bool {
    let mut ok = a.len() == b.len();
    for (c, d) in a.iter().zip(b.iter()) {
        ok &= (c.relev == d.relev) & (c.entries[0].scoredist == d.entries[0].scoredist);
    }
    for c in a {
        ok &= count(a.iter().map(|o| same(o, c))) == count(b.iter().map(|o| same(o, c)));
    }
    ok
}
