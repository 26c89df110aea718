//! A proximity point orders tiles by z-order distance and loses none.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::near::*;
use harness::*;

fn go(n: usize, symbolic: usize, free: bool) {
    let t = tiles(n, symbolic);
    let p = if free { [u16s(), u16s()] } else { SPOTS[fork(SPOTS.len() as u32) as usize] };
    let s = store(&t);
    let got = ask(&s, &MatchOpts { proximity: Some(p), ..MatchOpts::default() });
    exactly(&t, None, &got);
    by_distance(p, &got);
    observe(got.len() as u64);
    if !got.is_empty() {
        observe(got[0].grid_entry.id as u64);
    }
    cover(if got[0].grid_entry.id == 1 { "first" } else { "inner" });
}

fn run() {
    match case() {
        0 => {
            let n = 1 + fork(3) as usize;
            go(n, n, true)
        }
        1 => go(6, 1, true),
        2 => go(16, 0, true),
        3 => go(33, 1, false),
        4 => go(4, 4, true),
        5 => go(40, 0, true),
        6 => go(300, 1, false),
        _ => {}
    }
}
entry!(run);
