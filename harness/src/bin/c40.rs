//! A search gives the same whatever the schedule of its tasks.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::search::*;
use harness::stacks::*;
use harness::*;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

/// Choices left before the schedule goes on in order.
static CHOICES: AtomicU32 = AtomicU32::new(0);
static TAKEN: AtomicU32 = AtomicU32::new(0);
fn choose(n: u32) -> u32 {
    let left = CHOICES.load(Relaxed);
    if left == 0 {
        return 0;
    }
    CHOICES.store(left - 1, Relaxed);
    let k = fork(n);
    if k > 0 {
        TAKEN.store(1, Relaxed);
    }
    k
}

/// The same search with its tasks one after the other, and under any schedule within the bounds.
fn compare(pm: &Vec<PhrasematchSubquery<&GridStore>>, o: &MatchOpts, choices: u32, interrupts: u32) {
    let a = must(stack_and_coalesce(pm, o));
    CHOICES.store(choices, Relaxed);
    sched::explore(Some(choose), interrupts);
    let b = must(stack_and_coalesce(pm, o));
    sched::explore(None, 0);
    check(same_list(&a, &b), "a search gives the same results in the same order under any schedule");
    // what a schedule left behind does not show later
    let c = must(stack_and_coalesce(pm, o));
    check(same_list(&a, &c), "a search gives the same results after another one");
    cover(["none", "one", "two", "several"][a.len().min(3)]);
    if TAKEN.load(Relaxed) > 0 {
        cover("another order");
    }
    observe(a.len() as u64);
}

fn some(z: u16, n: usize, id: u32) -> Vec<GridEntry> {
    (0..n)
        .map(|i| {
            let t = if i == 0 { tile(z) } else { (0, 0) };
            entry(1.0, [3, 3, 1][i], t.0, t.1, id + i as u32)
        })
        .collect()
}

/// Phrase matches that do not stack: each is searched in a task of its own. Some share features, relevance and score.
fn lone(n: usize, choices: u32, interrupts: u32) {
    let z = [6, 14][fork(2) as usize];
    let ids = fork(2);
    let subs: Vec<Sub> = (0..n)
        .map(|i| {
            let mut s = Sub::new(i, z, [1.0, 0.5, 0.5, 1.0][i], some(z, 1 + i % 2, 1 + ids * i as u32));
            s.mask = 1;
            s
        })
        .collect();
    let stores: Vec<GridStore> = subs.iter().map(|s| s.store()).collect();
    let pm: Vec<_> = subs.iter().zip(stores.iter()).map(|(s, st)| s.ask(st)).collect();
    compare(&pm, &MatchOpts { zoom: z, ..MatchOpts::default() }, choices, interrupts);
}

/// Phrase matches that stack.
fn stacked(n: usize, choices: u32, interrupts: u32) {
    let z = [[6, 6, 6], [6, 14, 14], [0, 6, 16]][fork(3) as usize];
    let subs: Vec<Sub> = (0..n).map(|i| Sub::new(i, z[i], [0.5, 0.25, 0.25][i], some(z[i], 1 + (i == 1) as usize, 7))).collect();
    let stores: Vec<GridStore> = subs.iter().map(|s| s.store()).collect();
    let pm: Vec<_> = subs.iter().zip(stores.iter()).map(|(s, st)| s.ask(st)).collect();
    compare(&pm, &MatchOpts { zoom: z[n - 1], ..MatchOpts::default() }, choices, interrupts);
}

/// Two phrase matches of several match keys each, some of them naming the same features.
fn keys(choices: u32, interrupts: u32) {
    let z = 6;
    let stores: Vec<GridStore> = (0..2u16)
        .map(|s| {
            let (mut w, p) = builder();
            for k in 0..3u32 {
                let t = if k == 1 { tile(z) } else { (0, k as u16 / 2) };
                let mut v = vec![entry([1.0, 0.8, 1.0][k as usize], 2, t.0, t.1, 4 + k / 2)];
                if k == 2 {
                    v.push(entry(0.6, 7, 0, 0, 4));
                }
                must(w.insert(&GridKey { phrase_id: 1 + k, lang_set: 1 }, v));
            }
            must(w.finish());
            must(GridStore::new_with_options(&p, z, s, 200.0, global_bbox_for_zoom(z), 15.0))
        })
        .collect();
    let both = fork(2) == 1;
    let pm: Vec<_> = (0..if both { 2 } else { 1 })
        .map(|s| {
            let mut p = phrasematch(&stores[s], 1 + s as u16, 0.5, 1 << s, 0);
            let n = if both { 2 } else { 3 };
            p.match_keys = (0..n).map(|k| key_of(10 * s as u32 + k, if k == 2 { range(1, 4, 1) } else { exact(1 + k + s as u32, 1) })).collect();
            p
        })
        .collect();
    compare(&pm, &MatchOpts { zoom: z, ..MatchOpts::default() }, choices, interrupts);
}

/// More scans of short prefixes than may be read: which ones are dropped does not depend on the schedule.
fn limits(choices: u32, interrupts: u32) {
    let n = 10;
    let z = [6, 14][fork(2) as usize];
    let stores: Vec<GridStore> = (0..n)
        .map(|s| {
            let (mut w, p) = builder();
            must(w.insert(&GridKey { phrase_id: 5, lang_set: 1 }, vec![entry(1.0, s as u8, 3, 4, 1 + s as u32)]));
            must(w.finish());
            must(GridStore::new_with_options(&p, z, s, 200.0, global_bbox_for_zoom(z), 15.0))
        })
        .collect();
    let pm: Vec<_> = stores
        .iter()
        .enumerate()
        .map(|(s, st)| {
            let mut p = phrasematch(st, 1 + s as u16, [1.0, 0.5][s % 2], 1, 0);
            let mut k = key_of(s as u32, range(1, 9, 1));
            k.phrase_length = 1;
            p.match_keys = vec![k];
            p
        })
        .collect();
    compare(&pm, &MatchOpts { zoom: z, ..MatchOpts::default() }, choices, interrupts);
}

fn run() {
    match case() {
        0 => lone(3, 9, 2),
        1 => stacked(2, 9, 2),
        2 => stacked(3, 9, 1),
        3 => keys(9, 1),
        4 => limits(3, 1),
        5 => lone(4, 12, 2),
        6 => stacked(3, 12, 2),
        7 => limits(5, 2),
        8 => stacked(3, 4, 1),
        _ => {}
    }
}
entry!(run);
