//! Results do not depend on hash iteration order.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::search::*;
use harness::*;

/// The same thing done under the insertion order and under another one.
fn twice<T>(mut f: impl FnMut() -> T) -> (T, T) {
    std_model::verif_set_iter_order(0);
    let a = f();
    let o = 1 + fork(2) as u8;
    std_model::verif_set_iter_order(o);
    let b = f();
    std_model::verif_set_iter_order(0);
    (a, b)
}

fn equal(a: &[GridEntry], b: &[GridEntry]) -> bool {
    let mut ok = a.len() == b.len();
    for (a, b) in a.iter().zip(b.iter()) {
        ok &= (a.relev == b.relev) & (a.score == b.score) & (a.x == b.x) & (a.y == b.y) & (a.id == b.id) & (a.source_phrase_hash == b.source_phrase_hash);
    }
    ok
}

/// Building and reading.
fn build() {
    let mut e = Vec::new();
    for i in 0..3u32 {
        let t = if i < 2 { (u16s(), u16s()) } else { (5, 6) };
        let mut g = entry([1.0, 0.8][fork(2) as usize], 2 + (i as u8 & 1), t.0, t.1, if i == 0 { u32s() & 0xff_ffff } else { 9 - i });
        g.source_phrase_hash = i as u8;
        e.push(g);
    }
    let (a, b) = twice(|| {
        let (mut w, p) = builder();
        for i in 0..3 {
            let k = GridKey { phrase_id: 1 + (i as u32) / 2, lang_set: [1, 2, 1][i] };
            must(w.append(&k, vec![e[i].clone(), e[(i + 1) % 3].clone()]));
        }
        w.load_bin_boundaries(vec![1, 5]).is_ok();
        finish(w, &p)
    });
    let mut ok = true;
    let mut n = 0;
    for (x, y) in a.iter().zip(b.iter()) {
        let (x, y) = (must(x), must(y));
        ok &= x.0 == y.0;
        ok &= equal(&x.1, &y.1);
        n += 1;
    }
    check(n == 3, "every key comes back");
    check(ok, "a store holds the same entries in the same order under any iteration order");
    let o = MatchOpts::default();
    let x: Vec<GridEntry> = must(a.streaming_get_matching(&range(1, 5, 1), &o, 100)).map(|m| m.grid_entry).collect();
    let y: Vec<GridEntry> = must(b.streaming_get_matching(&range(1, 5, 1), &o, 100)).map(|m| m.grid_entry).collect();
    check(equal(&x, &y), "a request returns the same entries in the same order under any iteration order");
    cover("built");
    observe(x.len() as u64);
}

fn some(z: u16, n: usize, id: u32) -> Vec<GridEntry> {
    (0..n)
        .map(|i| {
            let t = tile(z);
            entry(1.0, [3, 3, 1][i], t.0, t.1, if i == 0 { u32s() & 0xff_ffff } else { id + i as u32 })
        })
        .collect()
}

fn search(subs: Vec<Sub>, tree: bool) {
    let stores: Vec<GridStore> = subs.iter().map(|s| s.store()).collect();
    let o = MatchOpts { zoom: subs[subs.len() - 1].zoom, ..MatchOpts::default() };
    let (a, b) = twice(|| {
        let pm: Vec<_> = subs.iter().zip(stores.iter()).map(|(s, st)| s.ask(st)).collect();
        must(if tree { stack_and_coalesce(&pm, &o) } else { coalesce(pm, &o) })
    });
    check(same_list(&a, &b), "a search returns the same results in the same order under any iteration order");
    cover(["none", "one", "two", "several"][a.len().min(3)]);
    observe(a.len() as u64);
}

fn run() {
    let tree = case() % 2 == 0;
    match case() {
        0 => build(),
        // cases 1, 3, 5: plain search; 2, 4, 6: tree search
        1 | 2 => search(vec![Sub::new(0, 16, 1.0, some(16, 3, 1))], tree),
        3 | 4 => {
            let z = [[6, 6], [6, 14], [0, 16]][fork(3) as usize];
            let a = Sub::new(0, z[0], 0.5, some(z[0], 1, 1));
            let b = Sub::new(1, z[1], 0.5, some(z[1], 2, 1));
            search(vec![a, b], tree)
        }
        5 | 6 => {
            let z = [[6, 6, 6], [6, 14, 14], [0, 6, 16]][fork(3) as usize];
            let subs = (0..3).map(|i| Sub::new(i, z[i], [0.5, 0.25, 0.25][i], some(z[i], 1 + (i == 1) as usize, 7))).collect();
            search(subs, tree)
        }
        _ => {}
    }
}
entry!(run);
