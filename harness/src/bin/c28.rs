//! Grouping a sequence gives its runs.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::*;

fn runs(n: u32) {
    let n = fork(n + 1) as usize;
    groups((0..n).map(|i| (u32s(), i)).collect());
}

/// A long sequence of few runs, a few of its keys arbitrary.
fn long() {
    let n = [70usize, 130, 258, 520][fork(4) as usize];
    let runs = 1 + fork(2) as usize;
    let at = [0, n / 2, n - 1];
    groups((0..n).map(|i| (if at.contains(&i) { u32s() } else { 7 + (i * runs / n) as u32 }, i)).collect());
}

fn groups(v: Vec<(u32, usize)>) {
    let n = v.len();
    let g: Vec<(u32, Vec<(u32, usize)>)> = somewhat_eager_groupby(v.clone().into_iter(), |x| x.0).collect();
    let mut i = 0;
    let mut ok = true;
    for (k, items) in g.iter() {
        ok &= items.len() > 0;
        for it in items {
            ok &= (i < n) && (it.1 == i);
            if i < n {
                ok &= (it.0 == v[i].0) & (it.0 == *k);
            }
            i += 1;
        }
    }
    check(ok, "the groups are the sequence, each under its key");
    check(i == n, "every item is in a group");
    let mut ok = true;
    for w in g.windows(2) {
        ok &= w[0].0 != w[1].0;
    }
    check(ok, "neighbouring groups have different keys");
    cover(["none", "one", "two", "several"][g.len().min(3)]);
    observe(g.len() as u64);
}

/// The iterator does not run ahead of the group it is asked for, and stays finished.
fn lazy() {
    let v = [u32s(), u32s(), u32s(), u32s()];
    let taken = std::cell::Cell::new(0usize);
    let mut it = somewhat_eager_groupby(
        v.iter().cloned().map(|x| {
            taken.set(taken.get() + 1);
            x
        }),
        |x| *x,
    );
    let mut seen = 0;
    while let Some((_, g)) = it.next() {
        seen += g.len();
        check(taken.get() <= seen + 1, "no more than one item is read ahead");
    }
    check(seen == 4, "every item is in a group");
    check(it.next().is_none(), "the end stays the end");
    cover("lazy");
}

fn main_() {
    match case() {
        0 => runs(6),
        1 => lazy(),
        2 => long(),
        _ => {}
    }
}
entry!(main_);
