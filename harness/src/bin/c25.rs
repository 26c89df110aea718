//! Results are bounded, sorted, distinct and close to the best.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::search::*;
use harness::*;

/// `best[i]` is each feature's best relevance and scoredist; what is left out is no better than what is returned.
fn bounded(v: &[CoalesceContext], all: &[(u16, u32, f64, f64)]) {
    tidy(v);
    let mut top = 0.0;
    for a in all {
        if a.2 > top {
            top = a.2;
        }
    }
    let mut kept = 0;
    let mut missing = true;
    for a in all {
        let near = top - a.2 < 0.25;
        kept += near as usize;
        let mut seen = false;
        for c in v {
            seen |= (c.entries[0].idx == a.0) & (c.entries[0].grid_entry.id == a.1);
        }
        if near && !seen {
            let last = v[v.len() - 1].entries[0].scoredist;
            let r = v[v.len() - 1].relev;
            missing &= (v.len() == 40) & ((a.2 < r) | ((a.2 == r) & (a.3 <= last)));
        }
    }
    check(v.len() == kept.min(40), "as many results as there are features close to the best, up to 40");
    check(missing, "no feature left out is better than one returned");
    cover(if kept > 40 { "more" } else { "fewer" });
    observe(v.len() as u64);
    for c in v {
        observe(digest(c));
    }
}

/// One subquery over `n` features, one or two of them with an arbitrary score.
fn single(n: usize, any: usize, r: &dyn Fn(usize) -> f64) {
    let spread = fork(3);
    let mut e: Vec<GridEntry> = (0..n)
        .map(|i| {
            let score = match spread {
                0 => (i * 7 % 16) as u8,
                1 => 3 + (i % 2) as u8,
                _ => 5,
            };
            entry(r(i), score, (i * 37 % 251) as u16, (i * 11) as u16, i as u32)
        })
        .collect();
    for k in 0..any {
        e[[n / 2, n - 1][k]].score = sym(4) as u8;
    }
    let s = Sub::new(0, 16, 1.0, e);
    let store = s.store();
    let v = must(coalesce(vec![s.ask(&store)], &MatchOpts::default()));
    let all: Vec<_> = s.entries.iter().map(|e| (s.idx, e.id, s.relev(e), e.score as f64)).collect();
    bounded(&v, &all);
}

/// Two subqueries: `n` features stacked on one, one of them anywhere.
fn multi(n: usize) {
    let z = [[6u16, 6], [6, 14], [0, 16]][fork(3) as usize];
    let p = if z[0] == 0 { (0, 0) } else { (17, 40) };
    let d = z[1] - z[0];
    let at = |i: usize| if d == 0 { p } else { ((((p.0 as u32) << d) + (i as u32 * 13 % 200)) as u16, (((p.1 as u32) << d) + (i as u32 * 7 % 200)) as u16) };
    let mut e: Vec<GridEntry> = (0..n)
        .map(|i| {
            let t = at(i);
            entry([1.0, 0.8, 0.4][i % 3], (i % 16) as u8, t.0, t.1, i as u32 / 2 + 1)
        })
        .collect();
    let t = tile(z[1]);
    e[n / 2].x = t.0;
    e[n / 2].y = t.1;
    e[n / 2].id = u32s() & 0xff_ffff;
    let a = Sub::new(0, z[0], 0.5, vec![entry(1.0, 1, p.0, p.1, 1)]);
    let mut b = Sub::new(1, z[1], 0.5, e);
    if fork(2) == 1 {
        b.mask = 1;
    }
    let (sa, sb) = (a.store(), b.store());
    let v = must(coalesce(vec![a.ask(&sa), b.ask(&sb)], &MatchOpts { zoom: z[1], ..MatchOpts::default() }));
    tidy(&v);
    let subs = [a, b];
    for c in v.iter() {
        consistent(&subs, c, false, 2);
    }
    cover(if v.len() == 40 { "full" } else { "part" });
    observe(v.len() as u64);
}

/// Two subqueries for the same part of the query, over `n` features each that may have the same ids.
fn apart(n: usize) {
    let mut subs = Vec::new();
    let w = [[1.0, 1.0], [1.0, 0.9]][fork(2) as usize];
    for i in 0..2usize {
        let mut e: Vec<GridEntry> = (0..n).map(|k| entry([1.0, 0.8][k % 2], (k * 5 % 16) as u8, (k * 37 % 251) as u16, (k * 11) as u16, (k + i * n / 2) as u32)).collect();
        if i == 1 {
            e[n / 2].score = sym(4) as u8;
            e[n / 2].id = [0x1000, 3, 0][fork(3) as usize];
            let t = tile(16);
            e[n / 2].x = t.0;
            e[n / 2].y = t.1;
            let id = e[n / 2].id;
            e = e.into_iter().enumerate().filter(|(k, o)| *k == n / 2 || o.id != id).map(|(_, o)| o).collect();
        }
        let mut s = Sub::new(i, 16, w[i], e);
        s.mask = 1;
        subs.push(s);
    }
    let stores: Vec<GridStore> = subs.iter().map(|s| s.store()).collect();
    let stack = subs.iter().zip(stores.iter()).map(|(s, st)| s.ask(st)).collect();
    let v = must(coalesce(stack, &MatchOpts::default()));
    let mut all = Vec::new();
    for (i, s) in subs.iter().enumerate() {
        for e in s.entries.iter() {
            all.push((s.idx, e.id, s.relev(e) - if i == 1 { 0.01 } else { 0.0 }, e.score as f64));
        }
    }
    bounded(&v, &all);
}

/// Three subqueries whose stacks of two are exactly 0.25 below their stack of three.
fn quarter() {
    let z = [[6u16, 6, 6], [6, 14, 14], [4, 6, 16]][fork(3) as usize];
    let m = [[4, 2, 1], [1, 2, 4], [2, 4, 1]][fork(3) as usize];
    let d = |i: usize| z[i] - z[0];
    let all = |i: usize| vec![entry(1.0, 5, 3 << d(i), 4 << d(i), 1), entry(1.0, 2, 5 << d(i), 4 << d(i), 2)];
    let t = tile(z[1]);
    let mut subs = vec![
        Sub::new(0, z[0], 0.5, all(0)),
        Sub::new(1, z[1], 0.25, vec![entry(1.0, 3, t.0, t.1, 1)]),
        Sub::new(2, z[2], 0.25, all(2)),
    ];
    for i in 0..3 {
        subs[i].mask = m[i];
    }
    let stores: Vec<GridStore> = subs.iter().map(|s| s.store()).collect();
    let stack = subs.iter().zip(stores.iter()).map(|(s, st)| s.ask(st)).collect();
    let v = must(coalesce(stack, &MatchOpts { zoom: z[2], ..MatchOpts::default() }));
    tidy(&v);
    for c in v.iter() {
        consistent(&subs, c, false, 3);
        observe(digest(c));
    }
    check(v.len() > 0, "there is a result");
    cover(if close(v[0].relev, 1.0) | close(v[0].relev, 0.99) { "three" } else { "two" });
    observe(v.len() as u64);
}

fn run() {
    match case() {
        0 => single(45, 1, &|i| [1.0, 0.8, 0.6][i % 3]),
        1 => single(60, 1, &|_| 1.0),
        2 => single(95, 1, &|i| [1.0, 0.8][i % 2]),
        3 => multi(12),
        4 => multi(100),
        5 => single(60, 2, &|i| [1.0, 0.8][i / 30]),
        6 => apart(8),
        7 => apart(30),
        8 => quarter(),
        _ => {}
    }
}
entry!(run);
