//! A stack node's best relevance is that of the best stack at or below it; the best stacks are kept.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::stacks::*;
use harness::*;

/// Sums of these are exact.
const W: [f64; 4] = [1.0, 0.5, 0.25, 0.125];

fn best(n: usize, types: &[u16], w: &[f64], mask: &dyn Fn(usize) -> u32, zero: bool) {
    let stores: Vec<GridStore> = (0..n).map(|i| empty_store(6, types[i])).collect();
    let mut pm = Vec::new();
    for i in 0..n {
        pm.push(phrasematch(&stores[i], i as u16 + 1, w[i], mask(i), i as u32));
    }
    if zero {
        pm[0].non_overlapping_indexes.insert(2);
        pm[1].non_overlapping_indexes.insert(1);
    }
    let tree = stackable(&pm);
    // from the leaves up
    let mut todo = vec![(tree.root.children.clone(), tree.root.max_relev, 0.0, 0u32)];
    let mut ok = true;
    let mut bounds = true;
    let mut top = 0.0;
    let mut nodes = 0;
    while let Some((children, said, sum, set)) = todo.pop() {
        let mut below: f64 = sum;
        for c in children {
            let node = match tree.arena.get(c) {
                Some(node) => node,
                None => continue,
            };
            nodes += 1;
            let i = node.phrasematch.unwrap().match_keys[0].id as usize;
            let total = sum + w[i];
            bounds &= node.max_relev <= said;
            if node.max_relev > below {
                below = node.max_relev;
            }
            if total > top {
                top = total;
            }
            todo.push((node.children.clone(), node.max_relev, total, set | 1 << i));
        }
        ok &= below == said;
    }
    check(ok, "a node's best relevance is the largest total at or below it");
    check(bounds, "no node promises more than the one above it");
    // the best set of compatible phrase matches
    let mut want = 0.0;
    for set in 1..1usize << n {
        let mut fits = true;
        let mut sum = 0.0;
        for i in 0..n {
            if set & (1 << i) != 0 {
                sum += w[i];
                for j in 0..i {
                    if set & (1 << j) != 0 {
                        fits &= (types[i] != types[j]) & (pm[i].mask & pm[j].mask == 0) & !(zero && j == 0 && i == 1);
                    }
                }
            }
        }
        if fits && sum > want {
            want = sum;
        }
    }
    check((tree.root.max_relev == want) & (top == want), "the root promises the best set of compatible phrase matches, and holds it");
    cover(if nodes > n { "stacked" } else { "flat" });
    observe(nodes as u64);
}

/// Thousands of stacks: `a` × `b` × `c` phrase matches of three types, masks disjoint between types.
fn many(n: [usize; 3], any: bool, worst_first: bool) {
    let stores: Vec<GridStore> = (0..3).map(|i| empty_store(6, i as u16)).collect();
    let mut pm = Vec::new();
    let mut w = Vec::new();
    for t in 0..3 {
        for i in 0..n[t] {
            let i = if worst_first { n[t] - 1 - i } else { i };
            // sixty-fourths
            let v = 1 + ((i * 7 + t) % 13) as u32;
            let weight = v as f64 / 64.0;
            w.push(weight);
            pm.push(phrasematch(&stores[t], t as u16 + 1, weight, 1 << t, w.len() as u32 - 1));
        }
    }
    if any {
        // one phrase match of the last type is incompatible with whatever shares its mask
        let k = pm.len() - 1 - fork(2) as usize;
        pm[k].mask = u32s();
        let v = [1, 20][fork(2) as usize] as f64 / 64.0;
        pm[k].weight = v;
        w[k] = v;
    }
    let tree = stackable(&pm);
    // totals of the stacks that end in a leaf, kept and possible
    let mut kept: Vec<u32> = vec![0; 256];
    let mut all: Vec<u32> = vec![0; 256];
    let mut todo = vec![(tree.root.children.clone(), 0.0, 0u32)];
    let mut ok = true;
    let mut leaves = 0;
    let mut best: f64 = 0.0;
    while let Some((children, sum, depth)) = todo.pop() {
        let mut n = 0;
        for c in children {
            let node = match tree.arena.get(c) {
                Some(node) => node,
                None => continue,
            };
            n += 1;
            let total = sum + node.phrasematch.unwrap().weight;
            ok &= node.max_relev >= total;
            if total > best {
                best = total;
            }
            if node.is_leaf() {
                leaves += 1;
                kept[(total * 64.0) as usize] += 1;
            }
            todo.push((node.children.clone(), total, depth + 1));
        }
        let _ = n;
    }
    check(ok, "a node's best relevance is at least its own total");
    // every stack there is that nothing can be added to, with types in order
    let (p0, r) = pm.split_at(n[0]);
    let (p1, p2) = r.split_at(n[1]);
    let fits = |a: &PhrasematchSubquery<&GridStore>, b: &PhrasematchSubquery<&GridStore>| a.mask & b.mask == 0;
    let mut top: f64 = 0.0;
    let mut total = |all: &mut Vec<u32>, v: f64| {
        all[(v * 64.0) as usize] += 1;
        if v > top {
            top = v;
        }
    };
    for a in p0 {
        let mut la = true;
        for b in p1 {
            if fits(a, b) {
                la = false;
                let mut lb = true;
                for c in p2 {
                    if fits(a, c) && fits(b, c) {
                        lb = false;
                        total(&mut all, a.weight + b.weight + c.weight);
                    }
                }
                if lb {
                    total(&mut all, a.weight + b.weight);
                }
            }
        }
        for c in p2 {
            if fits(a, c) {
                la = false;
                total(&mut all, a.weight + c.weight);
            }
        }
        if la {
            total(&mut all, a.weight);
        }
    }
    for b in p1 {
        let mut lb = true;
        for c in p2 {
            if fits(b, c) {
                lb = false;
                total(&mut all, b.weight + c.weight);
            }
        }
        if lb {
            total(&mut all, b.weight);
        }
    }
    for c in p2 {
        total(&mut all, c.weight);
    }
    check(best == top, "the best stack is kept");
    // a total is kept entirely, or nothing worse is kept: what was dropped is no better than what was kept
    let mut worst = 0;
    while worst < 255 && kept[worst] == 0 {
        worst += 1;
    }
    let mut ok = true;
    let mut n = 0;
    for v in worst + 1..256 {
        ok &= kept[v] == all[v];
    }
    for v in 0..256 {
        n += all[v];
    }
    check(ok, "stacks dropped are no better than stacks kept");
    check(leaves >= n.min(2000), "as many stacks as there are, or at least the limit");
    cover(if n > 2000 { "limited" } else { "all" });
    observe(leaves as u64);
}

fn weights(n: usize) -> Vec<f64> {
    (0..n).map(|_| W[fork(4) as usize]).collect()
}

fn run() {
    match case() {
        0 => {
            let w = weights(3);
            let t = [[0, 1, 2], [2, 1, 0], [0, 1, 1], [1, 0, 1]][fork(4) as usize];
            best(3, &t, &w, &|_| u32s(), fork(2) == 1)
        }
        1 => {
            let k = fork(4) as usize;
            let w: Vec<f64> = (0..4).map(|i| W[(i + k) % 4]).collect();
            let t = [[0, 1, 2, 3], [3, 2, 1, 0], [0, 0, 1, 1], [1, 0, 1, 2]][fork(4) as usize];
            best(4, &t, &w, &|_| u32s(), false)
        }
        2 => many([14, 14, 14], true, false),
        3 => many([14, 14, 14], true, true),
        4 => many([5, 6, 7], true, false),
        _ => {}
    }
}
entry!(run);
