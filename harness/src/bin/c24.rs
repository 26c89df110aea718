//! A two-query search finds every overlapping pair.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::search::*;
use harness::*;

/// a is the shallower subquery, b the deeper one; `b_first` gives them in the other order.
fn pairs(a: Sub, b: Sub, o: MatchOpts, swap: bool) {
    let (sa, sb) = (a.store(), b.store());
    let stack = if swap { vec![b.ask(&sb), a.ask(&sa)] } else { vec![a.ask(&sa), b.ask(&sb)] };
    let v = must(coalesce(stack, &o));
    let box_of = |z: u16| o.adjust_to_zoom(z).bbox;
    let within = |s: &Sub, e: &GridEntry| box_of(s.zoom).map_or(true, |b| (b[0] <= e.x) & (e.x <= b[2]) & (b[1] <= e.y) & (e.y <= b[3]));
    let disjoint = a.mask & b.mask == 0;
    // each entry's best combination: for one of b, the best of a that covers it
    let mut all: Vec<(u16, u32, f64, usize, bool)> = Vec::new();
    let mut top: f64 = 0.0;
    for e in b.entries.iter() {
        let mut best = 0.0;
        for p in a.entries.iter() {
            let on = disjoint & covers(a.zoom, p, b.zoom, e) & within(&a, p);
            let r = a.relev(p);
            if on && r > best {
                best = r;
            }
        }
        let full = b.relev(e) + best;
        let low = best == 0.0 || b.mask > a.mask;
        let is = within(&b, e);
        if is && full > top {
            top = full;
        }
        all.push((b.idx, e.id, if low { full - 0.01 } else { full }, 1 + (best > 0.0) as usize, is));
    }
    for p in a.entries.iter() {
        let is = within(&a, p);
        let r = a.relev(p);
        if is && r > top {
            top = r;
        }
        all.push((a.idx, p.id, r, 1, is));
    }
    let mut present = true;
    let mut as_due = true;
    for (i, &(idx, id, r, n, is)) in all.iter().enumerate() {
        let kept = is & (top - r < 0.25 - 1e-9);
        // the feature's best combination
        let mut first = kept;
        for (j, &(oidx, oid, or, _, ois)) in all.iter().enumerate() {
            first &= !((j != i) & (oidx == idx) & (oid == id) & ois & (or > r));
        }
        let mut seen = 0;
        for c in v.iter() {
            let it = (c.entries[0].idx == idx) & (c.entries[0].grid_entry.id == id);
            seen += it as u32;
            as_due &= !(it & first) | close(c.relev, r) & (c.entries.len() == n);
        }
        present &= !first | (seen == 1);
    }
    check(present, "every entry is returned, once a feature, when its relevance is close to the best");
    check(as_due, "an entry is stacked exactly when a tile of the other subquery covers it, on the best that does");
    let subs = [a, b];
    for c in v.iter() {
        consistent(&subs, c, false, deepest(&subs));
    }
    tidy(&v);
    cover(if v.iter().any(|c| c.entries.len() == 2) { "pair" } else { "lone" });
    observe(v.len() as u64);
    for c in v.iter() {
        observe(digest(c));
    }
}

const ZOOMS: [[u16; 2]; 8] = [[6, 6], [6, 14], [0, 16], [13, 14], [0, 0], [14, 16], [0, 15], [16, 16]];

fn entries(z: u16, n: usize, relev: &dyn Fn(usize) -> f64) -> Vec<GridEntry> {
    (0..n)
        .map(|i| {
            let t = tile(z);
            entry(relev(i), i as u8, t.0, t.1, i as u32 + 1)
        })
        .collect()
}

fn go(na: usize, nb: usize, ra: &dyn Fn(usize) -> f64, rb: &dyn Fn(usize) -> f64, how: u32) {
    let z = ZOOMS[fork(8) as usize];
    let w = [[0.5, 0.5], [0.75, 0.25]][if how == 1 { fork(2) as usize } else { 0 }];
    let mut a = Sub::new(0, z[0], w[0], entries(z[0], na, ra));
    let mut b = Sub::new(1, z[1], w[1], entries(z[1], nb, rb));
    if how == 0 {
        let m = [[1, 2], [2, 1], [3, 2], [5, 8]][fork(4) as usize];
        a.mask = m[0];
        b.mask = m[1];
        b.lang = fork(2) == 1;
    }
    if how == 2 {
        // one feature in two places
        let id = b.entries[0].id;
        b.entries[1].id = id;
    }
    let mut o = MatchOpts { zoom: z[1], ..MatchOpts::default() };
    if how == 3 {
        let bz = [16, 6, 0][fork(3) as usize];
        o.zoom = bz;
        let n = 1u64 << bz;
        let (x0, y0, x1, y1) = (below(16, n), below(16, n), below(16, n), below(16, n));
        assume((x0 <= x1) & (y0 <= y1));
        o.bbox = Some([x0 as u16, y0 as u16, x1 as u16, y1 as u16]);
    }
    pairs(a, b, o, how != 0 && fork(2) == 1);
}

fn many() {
    let z = CROWDS[fork(5) as usize];
    let [mut a, mut b] = crowd(12, z, [[0.5, 0.5], [0.75, 0.25]][fork(2) as usize], &|i| [1.0, 0.8, 1.0][i % 3]);
    let m = [[1, 2], [2, 1]][fork(2) as usize];
    a.mask = m[0];
    b.mask = m[1];
    let o = MatchOpts { zoom: z[1], ..MatchOpts::default() };
    pairs(a, b, o, fork(2) == 1);
}

/// Below one entry of the shallowest subquery: alternatives for one part of the query, all at one zoom, and a deepest entry.
fn alternatives(n: usize, each: usize) {
    let z = [[0u16, 6, 14], [4, 6, 6], [6, 6, 6], [14, 14, 16], [0, 16, 16]][fork(5) as usize];
    let m = [[1, 2, 4], [4, 2, 1], [2, 1, 4], [8, 3, 4]][fork(4) as usize];
    let mut subs = vec![Sub::new(0, z[0], 0.25, entries(z[0], 1, &|_| 1.0))];
    for i in 0..n {
        let mut e = entries(z[1], each, &|k| [0.8, 1.0][k % 2]);
        e[0].relev = relev();
        subs.push(Sub::new(1 + i, z[1], 0.25, e));
        subs[1 + i].mask = m[1];
    }
    subs.push(Sub::new(1 + n, z[2], 0.5, entries(z[2], 1, &|_| 1.0)));
    subs[0].mask = m[0];
    subs[1 + n].mask = m[2];
    let stores: Vec<GridStore> = subs.iter().map(|s| s.store()).collect();
    let mut stack: Vec<_> = subs.iter().zip(stores.iter()).map(|(s, st)| s.ask(st)).collect();
    if fork(2) == 1 {
        stack.reverse();
    }
    let v = must(coalesce(stack, &MatchOpts { zoom: z[2], ..MatchOpts::default() }));
    let (p, c) = (&subs[0], &subs[1 + n]);
    let (pe, ce) = (&p.entries[0], &c.entries[0]);
    let on = covers(p.zoom, pe, c.zoom, ce);
    let mut best = 0.0;
    let mut top = c.relev(ce);
    for a in &subs[1..1 + n] {
        for e in a.entries.iter() {
            let r = a.relev(e);
            if on & covers(a.zoom, e, c.zoom, ce) && r > best {
                best = r;
            }
            if covers(p.zoom, pe, a.zoom, e) && r + p.relev(pe) > top {
                top = r + p.relev(pe);
            }
        }
    }
    let mut full = c.relev(ce) + best;
    if on {
        full += p.relev(pe);
    }
    if full > top {
        top = full;
    }
    let low = !on || c.mask > p.mask;
    let r = if low { full - 0.01 } else { full };
    let due = 1 + on as usize + (best > 0.0) as usize;
    let mut seen = 0;
    for x in v.iter() {
        if x.entries[0].idx == c.idx {
            seen += 1;
            check(close(x.relev, r) & (x.entries.len() == due), "the deepest entry is stacked on one of each part of the query over it, the most relevant of alternatives");
        }
        consistent(&subs, x, false, c.idx);
    }
    check((seen == 1) | (top - r >= 0.25 - 1e-9), "the deepest entry is returned when its relevance is close to the best");
    tidy(&v);
    cover(["", "lone", "pair", "triple"][due]);
    observe(v.len() as u64);
    for c in v.iter() {
        observe(digest(c));
    }
}

fn run() {
    match case() {
        6 => alternatives(1, 1),
        7 => alternatives(2, 1),
        8 => alternatives(1, 2),
        5 => many(),
        0 => go(1, 2, &|_| 1.0, &|i| [1.0, 0.8][i], 0),
        1 => go(2, 1, &|i| [0.8, 1.0][i], &|_| relev(), 1),
        2 => go(1, 2, &|_| relev(), &|i| [1.0, 0.8][i], 2),
        3 => go(1, 1, &|_| 1.0, &|_| 1.0, 3),
        4 => go(2, 2, &|_| relev(), &|_| [1.0, 0.8][fork(2) as usize], 2),
        _ => {}
    }
}
entry!(run);
