//! Reading through prefix bins gives what reading the phrases one by one gives.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::*;

type T = (u64, u64, bool);

fn tup(m: &MatchEntry) -> T {
    let g = &m.grid_entry;
    let full = if m.matches_language { g.relev } else { g.relev / 0.96 };
    let r = if full > 0.9 { 3 } else if full > 0.7 { 2 } else if full > 0.5 { 1 } else { 0 };
    (
        (r << 40) | ((g.score as u64) << 32) | z(g.x, g.y) as u64,
        ((g.id as u64) << 8) | g.source_phrase_hash as u64,
        m.matches_language,
    )
}
fn ask(s: &GridStore, k: &MatchKey, o: &MatchOpts) -> Vec<T> {
    must(s.streaming_get_matching(k, o, 1000)).map(|m| tup(&m)).collect()
}
fn same_set(a: &[T], b: &[T], m: &'static str) {
    let has = |s: &[T], t: &T| count(s.iter().map(|u| (u.0 == t.0) & (u.1 == t.1) & (u.2 == t.2))) > 0;
    let mut ok = true;
    for t in a {
        ok &= has(b, t);
    }
    for t in b {
        ok &= has(a, t);
    }
    check(ok, m);
}
fn both(data: &[(GridKey, Vec<GridEntry>)], bounds: &[u32]) -> (GridStore, GridStore) {
    let mut r = Vec::new();
    for binned in [false, true].iter() {
        let (mut w, p) = builder();
        for (k, v) in data {
            must(w.insert(k, v.clone()));
        }
        if *binned {
            must(w.load_bin_boundaries(bounds.to_vec()));
        }
        r.push(finish(w, &p));
    }
    let b = r.pop().unwrap();
    (r.pop().unwrap(), b)
}
fn e(id: u32) -> GridEntry {
    GridEntry { relev: 1.0, score: 1, x: 1, y: 2, id, source_phrase_hash: 3 }
}

/// Any two phrases, any boundaries, any request.
fn any() {
    let (nb, np) = [(2, 2), (3, 2), (1, 2), (2, 3)][fork(4) as usize];
    let mut bounds: Vec<u32> = Vec::new();
    for i in 0..nb {
        let b = u32s();
        if i > 0 {
            assume(b > bounds[i - 1]);
        }
        bounds.push(b);
    }
    let mut data = Vec::new();
    let mut ph = Vec::new();
    for i in 0..np {
        let v = u32s();
        for q in &ph {
            assume(v != *q);
        }
        ph.push(v);
        data.push((GridKey { phrase_id: v, lang_set: u128::MAX }, vec![e(i as u32 + 1)]));
    }
    let (plain, binned) = both(&data, &bounds);
    let k = match fork(3) {
        0 => exact(u32s(), 1),
        1 => {
            let (a, b) = (u32s(), u32s());
            assume(a <= b);
            range(a, b, 1)
        }
        _ => {
            let j = nb - 1;
            range(bounds[0], bounds[j], 1)
        }
    };
    let o = MatchOpts::default();
    let (a, b) = (ask(&plain, &k, &o), ask(&binned, &k, &o));
    same_set(&a, &b, "bins do not change what a request returns");
    observe(a.len() as u64);
    observe(b.len() as u64);
    cover(["none", "one", "two", "three"][a.len().min(3)]);
    // the stored phrases themselves are not affected
    check(binned.keys().count() == np, "bins add no phrase");
}

/// Phrases sharing tiles, scores, ids and languages, in fixed bins; the entries are arbitrary.
fn merged() {
    let x = |i: u16| i * 3;
    let (id, score, tile, hash) = (u32s() & 0xff_ffff, u8s() & 15, u16s(), u8s());
    let lang = [1u128, 2, u128::MAX, 1 << 100][fork(4) as usize];
    let mut data = Vec::new();
    for ph in 10..18u32 {
        let mut v = vec![GridEntry { relev: RELEVS[(ph % 4) as usize], score: 3, x: x(ph as u16 % 3), y: 1, id: ph, source_phrase_hash: 1 }];
        if ph % 3 == 0 {
            v.push(GridEntry { relev: 1.0, score, x: tile, y: 1, id, source_phrase_hash: hash });
        }
        data.push((GridKey { phrase_id: ph, lang_set: if ph % 2 == 0 { 1 } else { lang } }, v));
        if ph == 12 && lang != 1 {
            data.push((GridKey { phrase_id: ph, lang_set: lang }, vec![e(id)]));
        }
    }
    let bounds = [0, 10, 13, 16, 20];
    let (plain, binned) = both(&data, &bounds);
    let (i, j) = [(0, 4), (1, 2), (1, 3), (2, 4), (3, 4), (0, 1)][fork(6) as usize];
    let k = range(bounds[i], bounds[j], if lang == 1 << 100 { lang } else { 1 });
    let o = match fork(3) {
        0 => MatchOpts::default(),
        1 => MatchOpts { bbox: Some([0, 0, 4, 4]), ..MatchOpts::default() },
        _ => MatchOpts { bbox: Some([3, 1, u16s() | 3, 1]), ..MatchOpts::default() },
    };
    let (a, b) = (ask(&plain, &k, &o), ask(&binned, &k, &o));
    same_set(&a, &b, "bins do not change what a request returns (shared tiles)");
    observe(a.len() as u64);
    cover(if a.is_empty() { "empty" } else { "some" });
}

/// Large bins, one of their phrases arbitrary; whole bins and parts of bins.
fn crowd() {
    let any = u32s();
    let mut data = Vec::new();
    for i in 0..36u32 {
        let v = vec![
            GridEntry { relev: RELEVS[(i % 4) as usize], score: (i % 5) as u8, x: i as u16 % 7, y: 1, id: i / 2, source_phrase_hash: 1 },
            GridEntry { relev: 1.0, score: 3, x: 4, y: 4, id: i % 9, source_phrase_hash: 2 },
        ];
        data.push((GridKey { phrase_id: 100 + i * 7, lang_set: [1u128, 2, u128::MAX][(i % 3) as usize] }, v));
    }
    for d in &data {
        assume(d.0.phrase_id != any);
    }
    data.push((GridKey { phrase_id: any, lang_set: 4 }, vec![e(999)]));
    let bounds = [0u32, 100, 170, 240, 300, 400];
    let (plain, binned) = both(&data, &bounds);
    let k = match fork(6) {
        0 => range(0, 400, 1),
        1 => range(100, 170, 2),
        2 => range(170, 300, 4),
        3 => range(300, 400, 0),
        4 => range(240, [400, 100000][fork(2) as usize], 1),
        _ => range(100, 239 + fork(3), 1),
    };
    let o = match fork(2) {
        0 => MatchOpts::default(),
        _ => MatchOpts { bbox: Some([2, 0, 5, 3]), ..MatchOpts::default() },
    };
    let (a, b) = (ask(&plain, &k, &o), ask(&binned, &k, &o));
    same_set(&a, &b, "bins do not change what a request returns (large bins)");
    observe(a.len() as u64);
    cover(if a.is_empty() { "empty" } else { "some" });
}

fn run() {
    match case() {
        0 => any(),
        1 => merged(),
        2 => crowd(),
        _ => {}
    }
}
entry!(run);
