//! Every result of the tree search is consistent with the data.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::search::*;
use harness::*;

fn go(subs: Vec<Sub>) {
    let stores: Vec<GridStore> = subs.iter().map(|s| s.store()).collect();
    let mut z = 0;
    for s in subs.iter() {
        z = s.zoom.max(z);
    }
    let o = MatchOpts { zoom: z, ..MatchOpts::default() };
    let pm: Vec<_> = subs.iter().zip(stores.iter()).map(|(s, st)| s.ask(st)).collect();
    let v = must(stack_and_coalesce(&pm, &o));
    let mut stacked = 0;
    for c in v.iter() {
        consistent(&subs, c, true, 0);
        stacked = stacked.max(c.entries.len());
    }
    sorted(&v);
    cover(["none", "lone", "pair", "triple", "quadruple", "more"][stacked.min(5)]);
    observe(v.len() as u64);
    for c in v.iter() {
        observe(digest(c));
    }
}

fn some(z: u16, n: usize, first: u32, id: bool) -> Vec<GridEntry> {
    (0..n)
        .map(|i| {
            let t = tile(z);
            entry([1.0, 0.8][i % 2], i as u8, t.0, t.1, if id && i == 0 { u32s() & 0xff_ffff } else { first + i as u32 })
        })
        .collect()
}

const ZOOMS: [[u16; 3]; 7] = [[6, 6, 6], [6, 14, 14], [0, 16, 16], [4, 6, 16], [12, 13, 13], [14, 14, 16], [0, 0, 1]];
const MASKS: [[u32; 3]; 9] = [[1, 2, 4], [4, 2, 1], [1, 2, 2], [1, 1, 2], [2, 1, 4], [3, 4, 3], [1, 4, 2], [2, 4, 1], [4, 1, 2]];

fn run() {
    match case() {
        // two phrase matches, any masks
        0 => {
            let z = ZOOMS[fork(7) as usize];
            let mut a = Sub::new(0, z[0], 0.5, some(z[0], 1, 1, true));
            let mut b = Sub::new(1, z[1], 0.5, some(z[1], 2, 1, true));
            a.mask = u32s();
            b.mask = u32s();
            assume((a.mask != 0) & (b.mask != 0));
            a.lang = fork(2) == 1;
            go(vec![a, b])
        }
        // three phrase matches of one entry
        1 => {
            let z = ZOOMS[fork(7) as usize];
            let m = MASKS[fork(9) as usize];
            let w = [[0.5, 0.25, 0.25], [0.25, 0.5, 0.25]][fork(2) as usize];
            let mut subs = Vec::new();
            for i in 0..3 {
                let mut s = Sub::new(i, z[i], w[i], some(z[i], 1, 5, false));
                s.mask = m[i];
                subs.push(s);
            }
            go(subs)
        }
        // three phrase matches of two entries, one of them arbitrary
        2 => {
            let z = ZOOMS[fork(7) as usize];
            let m = MASKS[fork(6) as usize];
            let mut subs = Vec::new();
            for i in 0..3 {
                let mut e = some(z[i], 1, 5, false);
                e.push(entry(0.8, 3, 0, 0, 5 + fork(2)));
                let mut s = Sub::new(i, z[i], [0.5, 0.25, 0.25][i], e);
                s.mask = m[i];
                subs.push(s);
            }
            go(subs)
        }
        3 => go(chain(5 + fork(2) as usize)),
        _ => {}
    }
}
entry!(run);
