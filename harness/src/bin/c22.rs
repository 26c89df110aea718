//! A single-query search returns each feature once, at its best.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::search::*;
use harness::*;

/// What a search must return for these entries, all of them within the limit.
fn expect(s: &Sub, b: Option<[u16; 4]>, v: &[CoalesceContext]) {
    let inside = |e: &GridEntry| b.map_or(true, |b| (b[0] <= e.x) & (e.x <= b[2]) & (b[1] <= e.y) & (e.y <= b[3]));
    let mut best = 0.0;
    for e in s.entries.iter() {
        if inside(e) && s.relev(e) > best {
            best = s.relev(e);
        }
    }
    let mut ok = true;
    let mut at_best = true;
    for (i, e) in s.entries.iter().enumerate() {
        // the feature's best entry in the box
        let mut first = inside(e) & (best - s.relev(e) < 0.25);
        for (j, o) in s.entries.iter().enumerate() {
            let better = (o.relev > e.relev) | ((o.relev == e.relev) & (o.score > e.score)) | ((o.relev == e.relev) & (o.score == e.score) & (j < i));
            first &= !((o.id == e.id) & inside(o) & better);
        }
        let mut n = 0;
        for c in v {
            let g = &c.entries[0].grid_entry;
            n += (g.id == e.id) as u32;
            at_best &= !((g.id == e.id) & first) | ((c.relev == s.relev(e)) & (g.score == e.score));
        }
        ok &= !first | (n == 1);
        observe(n as u64);
    }
    check(ok, "every feature close to the best is returned, once");
    check(at_best, "a feature is returned at its best relevance and score");
    let mut ok = true;
    for c in v {
        consistent(std::slice::from_ref(s), c, false, 0);
        ok &= inside(&c.entries[0].grid_entry);
    }
    check(ok, "nothing outside the box is returned");
    tidy(v);
}
fn run() {
    match case() {
        // any ids and tiles
        0 => go(3, &|_| relev2(), &|_| [3, 0][fork(2) as usize], &|_| u32s() & 0xff_ffff, 0),
        // relevances, scores and weights
        1 => go(3, &|_| relev(), &|_| [3, 0][fork(2) as usize], &|i| [7, 0, 7][i], 1),
        // a box
        2 => go(3, &|i| [0.8, 1.0, 0.6][i], &|i| [4, 1, 9][i], &|_| u32s() & 0xff_ffff, 2),
        3 => go(4, &|_| relev2(), &|_| [3, 0][fork(2) as usize], &|_| u32s() & 0xff_ffff, 0),
        4 => point(),
        5 => crowd(),
        _ => {}
    }
}

/// With a proximity point a feature's best is judged by relevance, then scoredist, as the store reports them.
fn point() {
    let n = 3;
    let p = [[30000u16, 30000], [0, 65535]][fork(2) as usize];
    let near = [(p[0], p[1]), (p[0] ^ 1, p[1]), (p[0], p[1] ^ 0x40), (p[0] ^ 0x700, p[1]), (p[0] ^ 0x4000, p[1])];
    let mut e = Vec::new();
    for i in 0..n {
        let t = near[fork(5) as usize];
        e.push(entry([1.0, 0.8][fork(2) as usize], [2, 9, 2][i], t.0, t.1, u32s() & 0xff_ffff));
    }
    let mut s = Sub::new(0, 16, 1.0, e);
    s.lang = fork(2) == 1;
    let o = MatchOpts { proximity: Some(p), ..MatchOpts::default() };
    let store = s.store();
    let q = s.ask(&store);
    let all: Vec<MatchEntry> = must(store.streaming_get_matching(&q.match_keys[0].key, &o, 100)).collect();
    let v = must(coalesce(vec![q], &o));
    let mut best = 0.0;
    for m in all.iter() {
        if m.grid_entry.relev > best {
            best = m.grid_entry.relev;
        }
    }
    let mut present = true;
    let mut at_best = true;
    for m in all.iter() {
        let (r, d) = (m.grid_entry.relev, m.scoredist);
        // nothing else of the feature is better
        let mut first = best - r < 0.25;
        for o in all.iter() {
            let better = (o.grid_entry.relev > r) || (o.grid_entry.relev == r && o.scoredist > d);
            first &= !(better & (o.grid_entry.id == m.grid_entry.id));
        }
        let mut n = 0;
        for c in v.iter() {
            let it = c.entries[0].grid_entry.id == m.grid_entry.id;
            n += it as u32;
            at_best &= !(it & first) | ((c.relev == r) & (c.entries[0].scoredist == d));
        }
        present &= !first | (n == 1);
    }
    check(present, "every feature close to the best is returned, once, around a point");
    check(at_best, "a feature is returned at its best relevance and scoredist");
    for c in v.iter() {
        let e = &c.entries[0];
        let mut found = false;
        for m in all.iter() {
            let (a, b) = (&m.grid_entry, &e.grid_entry);
            found |= (a.id == b.id) & (a.x == b.x) & (a.y == b.y) & (a.score == b.score) & (a.relev == b.relev) & (m.distance == e.distance) & (m.scoredist == e.scoredist);
        }
        check(found, "a result around a point is one of the data");
    }
    tidy(&v);
    cover("point");
}

/// A crowd of entries, features taking turns, one of them arbitrary.
fn crowd() {
    let n = 24;
    let at = [0, 11, 23][fork(3) as usize];
    let e = (0..n)
        .map(|i| {
            let (x, y, id) = if i == at { (u16s(), u16s(), u32s() & 0xff_ffff) } else { (400 * i as u16, 7 * i as u16, [5, 6, 7, 0xff_ffff, 0x80_0005, 9, 10][i % 7]) };
            entry([0.8, 1.0, 0.8][i / 2 % 3], [3, 9, 0, 15, 9][i % 5], x, y, id)
        })
        .collect();
    let mut s = Sub::new(0, 16, [1.0, 0.25][fork(2) as usize], e);
    s.lang = fork(2) == 1;
    let mut o = MatchOpts::default();
    if fork(2) == 1 {
        o.bbox = Some([2000, 0, 65535, 140]);
    }
    let store = s.store();
    let v = must(coalesce(vec![s.ask(&store)], &o));
    expect(&s, o.bbox, &v);
    cover("crowd");
}

fn relev2() -> f64 {
    [0.8, 1.0][fork(2) as usize]
}

fn go(max: u32, r: &dyn Fn(usize) -> f64, score: &dyn Fn(usize) -> u8, id: &dyn Fn(usize) -> u32, how: u32) {
    let n = 1 + fork(max) as usize;
    let mut e = Vec::new();
    for i in 0..n {
        // ids come before anything else so that replays read alike
        let id = id(i);
        let (x, y) = (u16s(), u16s());
        e.push(entry(r(i), score(i), x, y, id));
    }
    // entries at one tile with one id are one entry to the store
    let weight = if how == 1 { [1.0, 0.25, 0.5][fork(3) as usize] } else { 1.0 };
    let mut s = Sub::new(0, 16, weight, e);
    s.lang = fork(2) == 1;
    let mut o = MatchOpts::default();
    if how == 2 {
        o.bbox = Some([u16s(), u16s(), u16s(), u16s()]);
    }
    let store = s.store();
    let v = must(coalesce(vec![s.ask(&store)], &o));
    expect(&s, o.bbox, &v);
    cover(["none", "one", "two", "several"][v.len().min(3)]);
}
entry!(run);
