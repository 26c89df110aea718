//! A box and a proximity point together: the tiles in the box, by distance.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::near::*;
use harness::*;

fn go(n: usize, symbolic: usize, free: bool, sides: u32) {
    let t = tiles(n, symbolic);
    let p = if free { [u16s(), u16s()] } else { SPOTS[fork(SPOTS.len() as u32) as usize] };
    let b = match sides {
        0 => fixed_box(&t),
        1 => some_box(&t),
        _ => any_box(),
    };
    let s = store(&t);
    let got = ask(&s, &MatchOpts { proximity: Some(p), bbox: Some(b), ..MatchOpts::default() });
    exactly(&t, Some(&b), &got);
    by_distance(p, &got);
    observe(got.len() as u64);
    cover(["none", "one", "two", "several"][got.len().min(3)]);
}

fn run() {
    match case() {
        0 => {
            let n = 1 + fork(2) as usize;
            go(n, n, true, 2)
        }
        1 => go(4, 1, false, 1),
        2 => go(12, 0, true, 0),
        3 => go(7, 0, false, 2),
        4 => go(33, 1, false, 0),
        5 => go(3, 3, true, 2),
        6 => go(12, 0, true, 1),
        7 => go(33, 1, false, 1),
        8 => go(6, 1, false, 1),
        9 => go(300, 1, false, 0),
        _ => {}
    }
}
entry!(run);
