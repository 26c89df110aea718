//! Stacks combine exactly the compatible phrase matches.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::stacks::*;
use harness::*;

/// Every set of `n` phrase matches: what the tree holds against the definition.
fn sets(n: usize, types: &[u16], idxs: &[u16], mask: &dyn Fn(usize) -> u32, excluded: &dyn Fn(usize, usize) -> bool) {
    let mut stores = Vec::new();
    for i in 0..n {
        stores.push(empty_store(i as u16 + 3, types[i]));
    }
    let mut pm = Vec::new();
    for i in 0..n {
        pm.push(phrasematch(&stores[i], idxs[i], [1.0, 0.5, 0.25, 0.75][if n < 7 { fork(2) as usize } else { i % 3 } + i % 2], mask(i), i as u32));
    }
    let mut no = vec![vec![false; n]; n];
    for i in 0..n {
        for j in 0..i {
            if types[i] != types[j] && excluded(j, i) {
                no[i][j] = true;
                no[j][i] = true;
                pm[i].non_overlapping_indexes.insert(idxs[j] as usize);
                pm[j].non_overlapping_indexes.insert(idxs[i] as usize);
            }
        }
    }
    let tree = stackable(&pm);
    let mut seen = vec![0u32; 1 << n];
    let mut todo = vec![(tree.root.children.clone(), 0usize)];
    check(tree.root.phrasematch.is_none(), "the root stands for no phrase match");
    let mut ok = true;
    let mut nodes = 0;
    while let Some((children, set)) = todo.pop() {
        for c in children {
            let node = match tree.arena.get(c) {
                Some(node) => node,
                None => continue,
            };
            nodes += 1;
            let p = node.phrasematch.unwrap();
            let i = p.match_keys[0].id as usize;
            ok &= set & (1 << i) == 0;
            let set = set | 1 << i;
            seen[set] += 1;
            // what a node says about itself
            let mut m = 0;
            let mut b = fixedbitset::FixedBitSet::with_capacity(128);
            for j in 0..n {
                if set & (1 << j) != 0 {
                    m |= pm[j].mask;
                    b.union_with(&pm[j].non_overlapping_indexes);
                }
            }
            ok &= (node.mask == m) & (node.idx == idxs[i]) & (node.zoom == i as u16 + 3);
            ok &= node.bmask.ones().eq(b.ones());
            ok &= node.is_leaf() == (node.children.len() == 0);
            todo.push((node.children.clone(), set));
        }
    }
    check(ok, "a node carries its own index and zoom, and the union of its masks and excluded indexes");
    let mut ok = true;
    for set in 1..1usize << n {
        let mut want = true;
        for i in 0..n {
            for j in 0..i {
                if set & (1 << i) != 0 && set & (1 << j) != 0 {
                    want &= (types[i] != types[j]) & (pm[i].mask & pm[j].mask == 0) & !no[i][j];
                }
            }
        }
        ok &= seen[set] == want as u32;
    }
    check(ok, "the stacks are exactly the sets of compatible phrase matches, each once");
    cover(["none", "one", "two", "some", "some", "some"][nodes.min(5)]);
    observe(nodes as u64);
}

fn types(n: usize) -> Vec<u16> {
    let mut t = Vec::new();
    for i in 0..n {
        t.push(if i == 0 { 0 } else { fork(n as u32) as u16 });
    }
    t
}

fn run() {
    match case() {
        // any masks, any types, any exclusions
        0 => {
            let t = types(3);
            sets(3, &t, &[3, 70, 127], &|_| u32s(), &|_, _| fork(2) == 1)
        }
        // four types in any order, any exclusions
        1 => {
            let t = [[0, 1, 2, 3], [3, 2, 1, 0], [7, 2, 9, 1]][fork(3) as usize];
            sets(4, &t, &[0, 31, 32, 64], &|i| 1 << i, &|_, _| fork(2) == 1)
        }
        // two bins of two, any masks
        2 => {
            let t = [[0, 0, 1, 1], [1, 0, 1, 0], [0, 1, 1, 2]][fork(3) as usize];
            sets(4, &t, &[1, 2, 3, 4], &|_| u32s(), &|i, j| (i, j) == (0, 3))
        }
        // four types, any masks
        3 => sets(4, &[0, 1, 2, 3], &[9, 8, 7, 6], &|_| u32s(), &|_, _| false),
        // everything at once
        4 => {
            let t = types(4);
            sets(4, &t, &[5, 6, 7, 8], &|_| u32s(), &|_, _| fork(2) == 1)
        }
        // many types, one arbitrary mask
        6 => {
            let (n, at) = (7, [0, 3, 6][fork(3) as usize]);
            let t = [[0, 1, 2, 3, 4, 5, 6], [6, 5, 4, 3, 2, 1, 0], [2, 2, 1, 0, 1, 3, 0]][fork(3) as usize];
            sets(n, &t, &[5, 64, 63, 8, 127, 1, 0], &|i| if i == at { u32s() } else { [1, 2, 4, 8, 16, 3, 64][i] }, &|i, j| i == 0 && j == 6 && fork(2) == 1)
        }
        5 => sets(5, &[0, 1, 2, 3, 4], &[5, 6, 7, 8, 9], &|i| if i < 3 { u32s() } else { 1 << i }, &|i, j| i == 0 && fork(2) == 1 && j > 0),
        _ => {}
    }
}
entry!(run);
