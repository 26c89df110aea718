//! A bounding box selects exactly the tiles inside it.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::near::*;
use harness::*;

fn go(n: usize, symbolic: usize, sides: u32) {
    let t = tiles(n, symbolic);
    let b = match sides {
        0 => fixed_box(&t),
        1 => some_box(&t),
        _ => any_box(),
    };
    let s = store(&t);
    let got = ask(&s, &MatchOpts { bbox: Some(b), ..MatchOpts::default() });
    exactly(&t, Some(&b), &got);
    observe(got.len() as u64);
    cover(["none", "one", "two", "several"][got.len().min(3)]);
}

fn run() {
    match case() {
        0 => {
            let n = 1 + fork(3) as usize;
            go(n, n, 2)
        }
        1 => go(6, 1, 2),
        2 => go(12, 1, 1),
        3 => go(10, 0, 2),
        4 => go(33, 1, 0),
        5 => go(4, 4, 2),
        6 => go(16, 0, 2),
        7 => go(33, 1, 1),
        8 => go(8, 2, 2),
        9 => go(300, 1, 0),
        _ => {}
    }
}
entry!(run);
