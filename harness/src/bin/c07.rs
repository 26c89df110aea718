//! What a builder holds is what its history of insert, append and compact_append says.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::*;

fn ri(r: f64) -> u64 {
    RELEVS.iter().position(|x| *x == r).unwrap_or(9) as u64
}
fn tup(e: &GridEntry) -> (u64, u64) {
    (
        (ri(e.relev) << 40) | ((e.score as u64 & 15) << 32) | z(e.x, e.y) as u64,
        ((e.id as u64 & 0xff_ffff) << 8) | e.source_phrase_hash as u64,
    )
}
fn same_set(a: &[GridEntry], b: &[GridEntry], m: &'static str) {
    let a: Vec<_> = a.iter().map(tup).collect();
    let b: Vec<_> = b.iter().map(tup).collect();
    let has = |s: &[(u64, u64)], t: &(u64, u64)| count(s.iter().map(|u| (u.0 == t.0) & (u.1 == t.1))) > 0;
    let mut ok = true;
    for t in &a {
        ok &= has(&b, t);
    }
    for t in &b {
        ok &= has(&a, t);
    }
    check(ok, m);
}
fn keys() -> [GridKey; 2] {
    [GridKey { phrase_id: 7, lang_set: 1 }, GridKey { phrase_id: 7, lang_set: u128::MAX }]
}
fn get(s: &GridStore, k: &GridKey) -> Option<Vec<GridEntry>> {
    must(s.get(k)).map(|i| i.collect())
}

/// Up to three operations on two keys against a model.
fn history() {
    let n = 1 + fork(3) as usize;
    let ks = keys();
    let mut model: [Option<Vec<GridEntry>>; 2] = [None, None];
    let (mut w, p) = builder();
    // the inputs that the operations share: few enough for the paths to stay countable
    let (x, id, score) = (u16s(), u32s(), u8s());
    for step in 0..n {
        let k = if step == 0 { 0 } else { fork(2) as usize };
        let op = fork(3);
        let e = |x: u16, id: u32, score: u8| GridEntry { relev: 0.8, score, x, y: 9, id, source_phrase_hash: 5 };
        let es = match step {
            0 => vec![e(x, id, 3), e(17, id, 3)],
            1 => vec![e(17, 30, score)],
            _ => vec![e(x, 30, 3), e(x, id, 3)],
        };
        match op {
            0 => {
                must(w.insert(&ks[k], es.clone()));
                model[k] = Some(es);
            }
            1 => {
                must(w.append(&ks[k], es.clone()));
                model[k].get_or_insert_with(Vec::new).extend(es);
            }
            _ => {
                let (i, sc) = (es[0].id, es[0].score);
                let xs = [(es[0].x, 9), (4, 4), (es[0].x, 9)];
                w.compact_append(&ks[k], 0.8, sc, i, 5, &xs);
                let m = model[k].get_or_insert_with(Vec::new);
                m.push(e(es[0].x, i, sc));
                m.push(GridEntry { x: 4, y: 4, ..e(0, i, sc) });
            }
        }
    }
    let s = finish(w, &p);
    for k in 0..2 {
        match (get(&s, &ks[k]), &model[k]) {
            (Some(g), Some(m)) => {
                same_set(&g, m, "the stored entries are those the history leaves");
                observe(g.len() as u64);
                for i in 0..g.len() {
                    for j in 0..i {
                        check(tup(&g[i]) != tup(&g[j]), "no entry is stored twice");
                    }
                }
                cover("compared");
            }
            (None, None) => cover("absent"),
            _ => check(false, "a key is present exactly when the history wrote it"),
        }
    }
}

/// The way entries arrive does not matter: together, one by one, reversed, or compactly.
fn ways() {
    let ks = keys();
    let (r, score, id, hash) = (relev(), u8s(), u32s(), u8s());
    let n = fork(4) as usize + 1;
    let xy: Vec<(u16, u16)> = (0..n).map(|i| if i < 3 { (u16s(), u16s()) } else { (1, 1) }).collect();
    let es: Vec<GridEntry> = xy
        .iter()
        .map(|&(x, y)| GridEntry { relev: r, score, x, y, id, source_phrase_hash: hash })
        .collect();
    let want: Vec<GridEntry> = {
        let (mut w, p) = builder();
        must(w.append(&ks[0], es.clone()));
        get(&finish(w, &p), &ks[0]).unwrap_or_default()
    };
    let (mut w, p) = builder();
    match fork(4) {
        0 => w.compact_append(&ks[0], r, score, id, hash, &xy),
        1 => {
            for e in &es {
                must(w.append(&ks[0], vec![e.clone()]));
            }
        }
        2 => {
            let mut v = es.clone();
            v.reverse();
            must(w.insert(&ks[0], v));
        }
        _ => {
            w.compact_append(&ks[0], r, score, id, hash, &xy[..1]);
            must(w.append(&ks[0], es.clone()));
        }
    }
    let got = get(&finish(w, &p), &ks[0]).unwrap_or_default();
    check(got.len() == want.len(), "the way entries arrive does not change how many there are");
    for (a, b) in got.iter().zip(want.iter()) {
        check(tup(a) == tup(b), "the way entries arrive does not change what is stored");
    }
    same_set(&want, &es, "appended entries are stored");
    observe(got.len() as u64);
    cover("ways");
}

/// Entries of one tile beyond the inline capacity of its id list, ids arbitrary.
fn long_tile() {
    let ks = keys();
    let (a, b, n) = (u32s(), u32s(), 3 + fork(4) as usize);
    let (mut w, p) = builder();
    let mut all = Vec::new();
    for i in 0..n {
        let e = GridEntry { relev: 1.0, score: 2, x: 5, y: 6, id: 100 + i as u32, source_phrase_hash: 1 };
        all.push(e.clone());
        if fork(2) == 0 {
            must(w.append(&ks[0], vec![e]));
        } else {
            w.compact_append(&ks[0], 1.0, 2, e.id, 1, &[(5, 6)]);
        }
    }
    for id in [a, b].iter() {
        all.push(GridEntry { relev: 1.0, score: 2, x: 5, y: 6, id: *id, source_phrase_hash: 1 });
        w.compact_append(&ks[0], 1.0, 2, *id, 1, &[(5, 6)]);
    }
    let got = get(&finish(w, &p), &ks[0]).unwrap_or_default();
    same_set(&got, &all, "every id of a tile is stored");
    for v in got.windows(2) {
        check(v[0].id > v[1].id, "the ids of a tile are distinct and descending");
    }
    observe(got.len() as u64);
    cover("long");
}

/// Three writes at one tile, each of any feature and source phrase hash, by any of the three operations.
fn one_tile() {
    let ks = keys();
    let (mut w, p) = builder();
    let mut all: Vec<GridEntry> = Vec::new();
    for i in 0..3 {
        let e = GridEntry { relev: 0.6, score: 2, x: 5, y: 6, id: sym(24) as u32, source_phrase_hash: u8s() };
        match fork(if i == 0 { 3 } else { 2 }) {
            0 => w.compact_append(&ks[0], 0.6, 2, e.id, e.source_phrase_hash, &[(5, 6)]),
            1 => must(w.append(&ks[0], vec![e.clone()])),
            _ => must(w.insert(&ks[0], vec![e.clone()])),
        }
        all.push(e);
    }
    let got = get(&finish(w, &p), &ks[0]).unwrap_or_default();
    same_set(&got, &all, "every feature and source phrase hash of a tile is stored");
    for v in got.windows(2) {
        check(tup(&v[0]) > tup(&v[1]), "the features of a tile are distinct and descending");
    }
    observe(got.len() as u64);
    cover(["none", "one", "two", "three"][got.len().min(3)]);
}

/// Six operations on three keys, one write of any feature.
fn longer() {
    let ks = [GridKey { phrase_id: 7, lang_set: 1 }, GridKey { phrase_id: 7, lang_set: u128::MAX }, GridKey { phrase_id: 263, lang_set: 1 }];
    let mut model: [Option<Vec<GridEntry>>; 3] = [None, None, None];
    let (mut w, p) = builder();
    let order = [[0usize, 0, 0, 0, 0, 0], [0, 1, 2, 0, 1, 0], [2, 2, 0, 2, 2, 0]][fork(3) as usize];
    let any = fork(6) as usize;
    for (step, &k) in order.iter().enumerate() {
        let mut e = GridEntry { relev: RELEVS[3 - step % 2], score: 3, x: 5 + step as u16 % 3, y: 9, id: 30 + step as u32 / 2, source_phrase_hash: 5 };
        if step == any {
            e.id = sym(24) as u32;
            e.x = u16s();
        }
        let ops = if step == any || step == 5 { 3 } else { 2 };
        match [2, 1, 0][((fork(ops) as usize) + if step == 3 { 1 } else { 0 }) % 3] {
            0 => {
                must(w.insert(&ks[k], vec![e.clone()]));
                model[k] = Some(vec![e]);
            }
            1 => {
                let mut f = e.clone();
                f.y = 10;
                must(w.append(&ks[k], vec![e.clone(), f.clone()]));
                model[k].get_or_insert_with(Vec::new).extend(vec![e, f]);
            }
            _ => {
                w.compact_append(&ks[k], e.relev, e.score, e.id, e.source_phrase_hash, &[(e.x, 9), (4, 4)]);
                let m = model[k].get_or_insert_with(Vec::new);
                m.push(e.clone());
                m.push(GridEntry { x: 4, y: 4, ..e });
            }
        }
    }
    let s = finish(w, &p);
    for k in 0..3 {
        match (get(&s, &ks[k]), &model[k]) {
            (Some(g), Some(m)) => {
                same_set(&g, m, "the stored entries are those the history leaves");
                let mut ok = true;
                for v in g.windows(2) {
                    ok &= tup(&v[0]) > tup(&v[1]);
                }
                check(ok, "no entry is stored twice");
                observe(g.len() as u64);
                cover("compared");
            }
            (None, None) => cover("absent"),
            _ => check(false, "a key is present exactly when the history wrote it"),
        }
    }
}

fn run() {
    match case() {
        0 => history(),
        1 => ways(),
        2 => long_tile(),
        3 => one_tile(),
        4 => longer(),
        _ => {}
    }
}
entry!(run);
