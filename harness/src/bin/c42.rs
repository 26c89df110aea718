//! The limits on expensive prefix scans drop nothing else.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::search::*;
use harness::stacks::*;
use harness::*;

/// How one phrase match asks.
#[derive(Clone, Copy)]
struct Ask {
    slow: bool,
    lo: u32,
    hi: u32,
    exact: bool,
    nearby: bool,
    letters: usize,
    mask: u32,
    weight: f64,
}

/// What the search has used up, by the documented limits.
#[derive(Default)]
struct Used {
    one_letter: u32,
    one_word_slow: u32,
    one_word: u32,
    slow_scans: u32,
    slow: u32,
}

impl Used {
    fn one_word(&mut self, letter: bool, slow: bool) -> bool {
        if letter {
            if self.one_letter >= 8 {
                return false;
            }
            self.one_letter += 1;
        }
        if slow {
            if self.one_word_slow >= 8 {
                return false;
            }
            self.one_word_slow += 1;
        }
        if self.one_word >= 40 {
            return false;
        }
        self.one_word += 1;
        true
    }
    /// whether a key is read
    fn read(&mut self, a: &Ask) -> bool {
        let scan = !a.exact && a.hi - a.lo > 1;
        let slow = a.slow && !a.nearby;
        if scan && a.mask.count_ones() == 1 && !self.one_word(a.letters == 1, slow) {
            return false;
        }
        if slow && scan {
            if self.slow_scans >= 40 {
                return false;
            }
            self.slow_scans += 1;
        }
        if slow {
            if self.slow >= 600 {
                return false;
            }
            self.slow += 1;
        }
        true
    }
}

const P: [u16; 2] = [8192, 8192];

fn stores() -> (GridStore, GridStore) {
    let one = |zoom: u16, xy: u16| {
        let (mut w, p) = builder();
        must(w.insert(&GridKey { phrase_id: 5, lang_set: u128::MAX }, vec![entry(1.0, 2, xy, xy, 9)]));
        must(w.finish());
        must(GridStore::new_with_options(&p, zoom, 1, 200.0, global_bbox_for_zoom(zoom), 15.0))
    };
    (one(13, 4096), one(14, 8192))
}

fn key(a: &Ask, id: u32) -> MatchKeyWithId {
    let k = if a.exact { exact(a.lo, 1) } else { range(a.lo, a.hi, 1) };
    MatchKeyWithId { key: k, nearby_only: a.nearby, id, phrase_length: a.letters }
}

/// Search phrase matches that cannot be stacked; each is answered unless a limit says otherwise.
/// `keys` gives each phrase match's keys.
fn search(ms: &[Vec<Ask>], point: bool) {
    let (fast, slow) = stores();
    let mut pm = Vec::new();
    for (i, m) in ms.iter().enumerate() {
        let mut p = phrasematch(if m[0].slow { &slow } else { &fast }, i as u16 + 1, m[0].weight, m[0].mask, 0);
        p.match_keys = m.iter().enumerate().map(|(j, a)| key(a, (i as u32) << 12 | j as u32)).collect();
        pm.push(p);
    }
    let o = MatchOpts { zoom: 14, proximity: if point { Some(P) } else { None }, bbox: None };
    let v = must(stack_and_coalesce(&pm, &o));
    let mut used = Used::default();
    let mut n = 0;
    let mut last = 0;
    for (i, m) in ms.iter().enumerate() {
        for (j, a) in m.iter().enumerate() {
            let read = used.read(a);
            let there = if a.exact { a.lo == 5 } else { (a.lo <= 5) & (5 < a.hi) };
            let want = read & there;
            let id = (i as u32) << 12 | j as u32;
            let got = count(v.iter().map(|c| (c.entries[0].idx == i as u16 + 1) & (c.entries[0].phrasematch_id == id)));
            if want {
                check(got == 1, "a request within the limits is answered");
            } else {
                check(got == 0, "scans beyond the limits are not read");
            }
            n += want as usize;
            last = read as usize;
        }
    }
    check(v.len() == n, "nothing else is found");
    cover(["dropped", "read"][last]);
    observe(n as u64);
}

fn any(slow: bool, weight: f64) -> Ask {
    let (lo, hi) = (u32s(), u32s());
    assume(lo <= hi);
    let mask = u32s();
    assume(mask != 0);
    Ask { slow, lo, hi, exact: fork(2) == 1, nearby: b(), letters: fork(4) as usize, mask, weight }
}

const SCAN: Ask = Ask { slow: false, lo: 0, hi: 9, exact: false, nearby: false, letters: 5, mask: 1, weight: 0.5 };

/// Any request after others that have used up some limit, or nearly.
fn after(fill: &[Ask], n: usize, left: usize) {
    let mut ms: Vec<Vec<Ask>> = (0..n - left).map(|i| vec![fill[i % fill.len()]]).collect();
    let slow = fork(2) == 1;
    ms.push(vec![any(slow, 0.4)]);
    search(&ms, fork(2) == 1)
}

/// A potentially slow scan may be left out only when it cannot come near the best found.
fn hopeless() {
    let w = [0.5, 0.38, 0.375, 0.37, 0.1][fork(5) as usize];
    let mut first = Ask { exact: true, lo: 5, ..SCAN };
    first.weight = 0.5;
    // more than are searched at a time, so that the best is known
    let mut ms: Vec<Vec<Ask>> = (0..9).map(|_| vec![first]).collect();
    let slow = fork(2) == 1;
    let a = any(slow, w);
    ms.push(vec![a]);
    let (fast, slow) = stores();
    let mut pm = Vec::new();
    for (i, m) in ms.iter().enumerate() {
        let mut p = phrasematch(if m[0].slow { &slow } else { &fast }, i as u16 + 1, m[0].weight, m[0].mask, 0);
        p.match_keys = vec![key(&m[0], i as u32 + 1)];
        pm.push(p);
    }
    let v = must(stack_and_coalesce(&pm, &MatchOpts { zoom: 14, ..MatchOpts::default() }));
    let scan = !a.exact && a.hi - a.lo > 1;
    let may_skip = a.slow & scan & (a.mask.count_ones() == 1) & (w <= 0.75 * 0.5);
    let there = if a.exact { a.lo == 5 } else { (a.lo <= 5) & (5 < a.hi) };
    let got = count(v.iter().map(|c| c.entries[0].idx == 10));
    if may_skip {
        check(got == 0, "a slow scan that cannot come near the best is left out");
        cover("skipped");
    } else {
        check(got == there as u32, "everything else is answered");
        cover("answered");
    }
    check(v.len() as u32 == 9 + got, "nothing else is found");
    observe(v.len() as u64);
}

fn run() {
    let letter = Ask { letters: 1, ..SCAN };
    let slow = Ask { slow: true, ..SCAN };
    let wide = Ask { mask: 3, ..slow };
    match case() {
        // single letters
        0 => after(&[letter], 8, fork(2) as usize),
        // one word in a slow index
        1 => after(&[slow], 8, fork(2) as usize),
        // one word
        2 => after(&[SCAN], 40, fork(2) as usize),
        // several words in a slow index
        3 => after(&[wide], 40, fork(2) as usize),
        // requests that use up nothing
        4 => {
            let near = Ask { nearby: true, ..slow };
            let two = Ask { mask: 6, letters: 1, ..SCAN };
            let exact = Ask { exact: true, lo: 5, letters: 1, ..SCAN };
            let single = Ask { lo: 5, hi: 6, letters: 1, ..SCAN };
            let fill = [exact, two, single];
            match fork(2) {
                0 => after(&fill, 45, 0),
                _ => after(&[near], 39, fork(2) as usize),
            }
        }
        // everything in a slow index
        5 => {
            let e = Ask { exact: true, lo: 7, ..slow };
            let mut ms: Vec<Vec<Ask>> = vec![vec![e; 600 - fork(2) as usize]];
            let s = fork(2) == 1;
            ms.push(vec![any(s, 0.4)]);
            search(&ms, false)
        }
        6 => hopeless(),
        // everything mixed; what comes before finds nothing itself
        7 => {
            let of = |a: Ask| Ask { lo: 6, ..a };
            let (scan, letter, slow, wide) = (of(SCAN), of(letter), of(slow), of(wide));
            let both = Ask { letters: 1, ..slow };
            let wide_letter = Ask { letters: 1, ..wide };
            let e = Ask { exact: true, ..slow };
            let fill: &[Ask] = match fork(4) {
                0 => &[letter, slow, scan, wide],
                1 => &[both, wide_letter, letter],
                2 => &[slow, both, scan, scan, e],
                _ => &[wide, wide, slow, letter, scan, wide],
            };
            let n = [7, 13, 24, 41, 60, 100][fork(6) as usize];
            after(fill, n, 0)
        }
        _ => {}
    }
}
entry!(run);
