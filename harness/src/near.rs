//! Stores of one phrase for the checks on boxes and proximity points.
use crate::gen::*;
use crate::*;
use carmen_core::gridstore::*;

/// Tile coordinates, in descending storage order, `sym` of them arbitrary.
pub fn tiles(n: usize, symbolic: usize) -> Vec<(u16, u16)> {
    let mut v: Vec<(u16, u16)> = Vec::new();
    // fixed tiles in descending order with holes, all over the world
    for i in 0..n {
        let t = 0xf000_0123u32 - (i as u32).wrapping_mul(0xe000_0000 / (n as u32)) ^ (i as u32 * 0x2491);
        let (mut x, mut y) = (0u16, 0u16);
        for k in 0..16 {
            x |= (((t >> (2 * k)) & 1) as u16) << k;
            y |= (((t >> (2 * k + 1)) & 1) as u16) << k;
        }
        v.push((x, y));
    }
    let at = if symbolic == 0 { 0 } else { fork(if symbolic < n { 3 } else { 1 }) as usize * ((n - symbolic) / 2) };
    for i in at..at + symbolic {
        v[i] = (u16s(), u16s());
    }
    for i in 1..n {
        assume(z(v[i - 1].0, v[i - 1].1) > z(v[i].0, v[i].1));
    }
    v
}

pub fn store(t: &[(u16, u16)]) -> GridStore {
    let (mut w, p) = builder();
    let k = GridKey { phrase_id: 1, lang_set: u128::MAX };
    let v = t
        .iter()
        .enumerate()
        .map(|(i, &(x, y))| GridEntry { relev: 1.0, score: 1, x, y, id: i as u32 + 1, source_phrase_hash: 0 })
        .collect();
    must(w.insert(&k, v));
    finish(w, &p)
}

pub fn ask(s: &GridStore, o: &MatchOpts) -> Vec<MatchEntry> {
    must(s.streaming_get_matching(&exact(1, 0), o, 1000)).collect()
}

pub fn inside(t: &(u16, u16), b: &[u16; 4]) -> bool {
    (b[0] <= t.0) & (t.0 <= b[2]) & (b[1] <= t.1) & (t.1 <= b[3])
}

/// The entries returned are exactly the tiles in the box (every tile without one).
pub fn exactly(t: &[(u16, u16)], b: Option<&[u16; 4]>, got: &[MatchEntry]) {
    let mut want = 0;
    let mut ok = true;
    for (i, tile) in t.iter().enumerate() {
        let is = b.map_or(true, |b| inside(tile, b));
        let n = count(got.iter().map(|m| m.grid_entry.id == i as u32 + 1));
        ok &= n == is as u32;
        want += is as usize;
    }
    check(ok, "a tile is returned exactly when it lies in the box");
    check(got.len() == want, "nothing else is returned");
    let mut ok = true;
    for m in got {
        let i = m.grid_entry.id as usize - 1;
        ok &= (m.grid_entry.x == t[i].0) & (m.grid_entry.y == t[i].1);
    }
    check(ok, "a tile keeps its coordinates");
}

pub fn by_distance(p: [u16; 2], got: &[MatchEntry]) {
    let pz = z(p[0], p[1]) as i64;
    let d: Vec<i64> = got.iter().map(|m| (z(m.grid_entry.x, m.grid_entry.y) as i64 - pz).abs()).collect();
    let mut ok = true;
    for w in d.windows(2) {
        ok &= w[0] <= w[1];
    }
    check(ok, "tiles come back in order of z-order distance from the proximity point");
}

pub fn any_box() -> [u16; 4] {
    [u16s(), u16s(), u16s(), u16s()]
}

/// Proximity points at the corners, in the middle and in between.
pub const SPOTS: [[u16; 2]; 5] = [[0, 0], [65535, 65535], [32768, 32767], [40000, 11], [3, 65535]];

/// Boxes with one or two arbitrary sides; the others pass through tiles of the store.
pub fn some_box(t: &[(u16, u16)]) -> [u16; 4] {
    let (a, c) = (t[t.len() / 3], t[t.len() * 2 / 3]);
    let (x0, x1) = (a.0.min(c.0), a.0.max(c.0));
    let (y0, y1) = (a.1.min(c.1), a.1.max(c.1));
    match fork(5) {
        0 => [u16s(), 0, u16s(), 65535],
        1 => [0, u16s(), 65535, u16s()],
        2 => [x0, u16s(), u16s(), y1],
        3 => [u16s(), y0, x1, u16s()],
        _ => [x0, y0, x1, y1],
    }
}

/// Boxes through tiles of the store, edges included.
pub fn fixed_box(t: &[(u16, u16)]) -> [u16; 4] {
    let (a, c) = (t[t.len() / 3], t[t.len() * 2 / 3]);
    let (x0, x1) = (a.0.min(c.0), a.0.max(c.0));
    let (y0, y1) = (a.1.min(c.1), a.1.max(c.1));
    [[x0, y0, x1, y1], [0, y0, 65535, y1], [x0, 0, 65535, 65535], [0, 0, x1, y0]][fork(4) as usize]
}
