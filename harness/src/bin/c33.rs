//! Subquery order does not change a search's results.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::search::*;
use harness::*;

const ORDERS: [&[usize]; 5] = [&[0, 2, 1], &[1, 0, 2], &[1, 2, 0], &[2, 0, 1], &[2, 1, 0]];

fn search(subs: Vec<Sub>, tree: bool) {
    let stores: Vec<GridStore> = subs.iter().map(|s| s.store()).collect();
    let mut z = 0;
    for s in subs.iter() {
        z = s.zoom.max(z);
    }
    let o = MatchOpts { zoom: z, ..MatchOpts::default() };
    let ask = |order: &[usize]| {
        let pm: Vec<_> = order.iter().map(|i| subs[*i].ask(&stores[*i])).collect();
        must(if tree { stack_and_coalesce(&pm, &o) } else { coalesce(pm, &o) })
    };
    let (a, b) = match subs.len() {
        2 => (ask(&[0, 1]), ask(&[1, 0])),
        5 => (ask(&[0, 1, 2, 3, 4]), ask([&[4, 3, 2, 1, 0], &[1, 0, 2, 4, 3], &[2, 4, 0, 3, 1], &[3, 4, 1, 0, 2]][fork(4) as usize])),
        _ => (ask(&[0, 1, 2]), ask(ORDERS[fork(5) as usize])),
    };
    check(if tree { same_set(&a, &b) } else { same_list(&a, &b) }, "the order of subqueries does not change the results");
    cover(["none", "one", "two", "several"][a.len().min(3)]);
    observe(a.len() as u64);
}

fn some(z: u16, n: usize, id: u32) -> Vec<GridEntry> {
    (0..n)
        .map(|i| {
            let t = tile(z);
            entry(1.0, [3, 3, 1][i], t.0, t.1, if i == 0 { u32s() & 0xff_ffff } else { id + i as u32 })
        })
        .collect()
}

fn run() {
    // even cases: plain search; odd ones: tree search
    let tree = case() % 2 == 1;
    match case() {
        0 | 1 => {
            let z = [[6, 6], [6, 14], [0, 16], [14, 14]][fork(4) as usize];
            let mut a = Sub::new(0, z[0], 0.5, some(z[0], 1, 1));
            let mut b = Sub::new(1, z[1], 0.5, some(z[1], 2, 1));
            a.mask = u32s();
            b.mask = u32s();
            assume((a.mask != 0) & (b.mask != 0));
            search(vec![a, b], tree)
        }
        2 | 3 => {
            let z = [[6, 6, 6], [6, 14, 14], [0, 6, 16]][fork(3) as usize];
            let m = [[1, 2, 4], [1, 1, 2], [2, 1, 1], [3, 2, 1]][fork(4) as usize];
            let subs = (0..3)
                .map(|i| {
                    let mut s = Sub::new(i, z[i], [0.5, 0.25, 0.25][i], some(z[i], 1, 7));
                    s.mask = m[i];
                    s
                })
                .collect();
            search(subs, tree)
        }
        6 | 7 => search(chain(5), tree),
        // two phrase matches of one type
        5 => {
            let z = [[6, 6, 6], [6, 6, 14]][fork(2) as usize];
            let subs = (0..3)
                .map(|i| {
                    let mut s = Sub::new(i, z[i], [0.5, [0.25, 0.5][fork(2) as usize], 0.25][i], some(z[i], 1, 7));
                    s.type_id = (i == 2) as u16;
                    s.mask = [1, [1, 2][fork(2) as usize], 4][i];
                    s
                })
                .collect();
            search(subs, tree)
        }
        _ => {}
    }
}
entry!(run);
