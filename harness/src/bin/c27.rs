//! Collapsing phrase matches loses and merges nothing wrongly.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::stacks::*;
use harness::*;

struct M {
    weight: f64,
    idx: u16,
    mask: u32,
    keys: Vec<u32>,
    /// which of the two stores
    st: usize,
}

fn collapse(m: &[M], whole: bool) {
    let stores = [empty_store(6, 3), empty_store(14, 4)];
    let pm: Vec<_> = m
        .iter()
        .map(|m| {
            let mut p = phrasematch(&stores[m.st], m.idx, m.weight, m.mask, 0);
            p.match_keys = m.keys.iter().map(|k| MatchKeyWithId { nearby_only: k & 1 == 1, phrase_length: *k as usize + 2, ..key_of(*k, exact(*k + 5, *k as u128)) }).collect();
            p.non_overlapping_indexes.insert(m.idx as usize % 128);
            p
        })
        .collect();
    let out = collapse_phrasematches(pm);
    let same = |a: &M, b: &M| (a.weight == b.weight) & (a.idx == b.idx) & (a.mask == b.mask);
    // group of each phrase match, by order of first appearance
    let mut groups: Vec<Vec<usize>> = Vec::new();
    for i in 0..m.len() {
        let mut at = None;
        for (g, v) in groups.iter().enumerate() {
            if same(&m[v[0]], &m[i]) {
                at = Some(g);
                break;
            }
        }
        match at {
            Some(g) => groups[g].push(i),
            None => groups.push(vec![i]),
        }
    }
    check(out.len() == groups.len(), "one phrase match for each weight, index and mask");
    let mut own = true;
    let mut keys = true;
    for (o, g) in out.iter().zip(groups.iter()) {
        let f = &m[g[0]];
        own &= (o.weight == f.weight) & (o.idx == f.idx) & (o.mask == f.mask);
        own &= (o.store.zoom == [6, 14][f.st]) & o.non_overlapping_indexes.contains(f.idx as usize % 128);
        let want: Vec<u32> = g.iter().flat_map(|i| m[*i].keys.iter().cloned()).collect();
        keys &= o.match_keys.len() == want.len();
        for (k, w) in o.match_keys.iter().zip(want.iter()) {
            keys &= (k.id == *w) & (k.nearby_only == (w & 1 == 1)) & (k.phrase_length == *w as usize + 2);
            keys &= (k.key.lang_set == *w as u128) & (k.key.match_phrase == MatchPhrase::Exact(*w + 5));
        }
    }
    check(own, "groups come in order of first appearance and keep what their members agree in");
    check(keys, "every match key is kept once, in order, with its own group");
    if whole {
        cover(["none", "one", "two", "three", "four"][groups.len()]);
    }
    for o in out.iter() {
        observe(o.match_keys.len() as u64);
    }
}

fn run() {
    match case() {
        // any weights, indexes and masks
        0 => {
            let n = fork(4) as usize;
            let mut next = 0;
            let m: Vec<M> = (0..n)
                .map(|i| {
                    let k = 1 + fork(2);
                    next += k;
                    M { weight: [0.25, 0.5][fork(2) as usize], idx: u16s(), mask: u32s(), keys: (next - k..next).collect(), st: i % 2 }
                })
                .collect();
            collapse(&m, true)
        }
        // any number of keys
        1 => {
            let mut next = 0;
            let m: Vec<M> = (0..3)
                .map(|_| {
                    let k = 1 + fork(3);
                    next += k;
                    M { weight: 0.5, idx: 1 + fork(2) as u16, mask: 1, keys: (next - k..next).collect(), st: 0 }
                })
                .collect();
            collapse(&m, true)
        }
        // four phrase matches
        2 => {
            let m: Vec<M> = (0..4)
                .map(|i| M { weight: [0.25, 0.5][fork(2) as usize], idx: u16s(), mask: u32s(), keys: vec![i * 2, i * 2 + 1], st: 0 })
                .collect();
            collapse(&m, true)
        }
        // a crowd and an arbitrary one
        4 => {
            let at = [0, 9, 19][fork(3) as usize];
            let m: Vec<M> = (0..20)
                .map(|i| {
                    let (mut idx, mut mask) = ([3, 300, 44][i % 3], [1, 2, 1 << 31, 3][i * 7 % 4]);
                    if i == at {
                        idx = u16s();
                        mask = u32s();
                    }
                    M { weight: [0.25, 0.5, 0.25 + 1e-12][i / 3 % 3], idx, mask, keys: (2 * i as u32..2 * i as u32 + 1 + i as u32 % 2).collect(), st: i % 2 }
                })
                .collect();
            collapse(&m, false);
            cover("crowd")
        }
        // any weight
        3 => {
            let m: Vec<M> = (0..2)
                .map(|i| {
                    let weight = f64::from_bits(sym(64));
                    assume(weight == weight);
                    M { weight, idx: 3, mask: 1, keys: vec![i], st: 0 }
                })
                .collect();
            collapse(&m, true)
        }
        _ => {}
    }
}
entry!(run);
