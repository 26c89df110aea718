//! Searching one phrase match as a tree gives what searching it plainly gives.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::search::*;
use harness::*;

fn both(s: &Sub, o: &MatchOpts) {
    let store = s.store();
    let a = must(coalesce(vec![s.ask(&store)], o));
    let mut b = must(stack_and_coalesce(&vec![s.ask(&store)], o));
    check(a.len() == b.len(), "both searches find as much");
    let mut ok = true;
    for (x, y) in a.iter().zip(b.iter_mut()) {
        ok &= y.entries[0].phrasematch_id == s.key_id;
        y.entries[0].phrasematch_id = 0;
        ok &= same(x, y);
    }
    check(ok, "both searches find the same, in the same order");
    observe(a.len() as u64);
    for c in a.iter() {
        observe(digest(c));
    }
    cover(["none", "one", "two", "several"][a.len().min(3)]);
}

/// Any entries; `how` says which parts are arbitrary.
fn any(n: usize, ids: bool) {
    let n = 1 + fork(n as u32) as usize;
    let mut e = Vec::new();
    for i in 0..n {
        let (x, y) = if ids { (u16s(), u16s()) } else { ([5, 5, 6, 5][i], [9, 8, 9, 9][i]) };
        let id = u32s() & 0xff_ffff;
        let score = if ids { [3, 0, 3, 3][i] } else { [2, 9][fork(2) as usize] };
        e.push(entry(if ids { [0.8, 1.0][fork(2) as usize] } else { relev() }, score, x, y, id));
    }
    let mut s = Sub::new(0, 16, if n < 4 { [1.0, 0.5][fork(2) as usize] } else { 0.5 }, e);
    s.lang = fork(2) == 1;
    let mut o = MatchOpts::default();
    if ids && fork(2) == 1 {
        o.bbox = Some([u16s(), 0, 65535, u16s()]);
    }
    both(&s, &o)
}

/// Around a proximity point.
fn point() {
    let z = [16u16, 14, 6][fork(3) as usize];
    let m = ((1u32 << z) - 1) as u16;
    let p = [[m / 2, m / 3], [0, m]][fork(2) as usize];
    let near = [(p[0], p[1]), (p[0] ^ 1, p[1]), (p[0], p[1] ^ 0x20), ((p[0] ^ 0x700) & m, p[1]), (p[0] ^ (m / 2 + 1), p[1])];
    let mut e = Vec::new();
    for i in 0..3 {
        let t = near[if i == 1 { 2 } else { fork(5) as usize }];
        e.push(entry([1.0, 0.8, 0.6][if i == 2 { 1 } else { fork(3) as usize }], [2, 9, 2][i], t.0, t.1, u32s() & 0xff_ffff));
    }
    let mut s = Sub::new(0, z, 1.0, e);
    s.lang = fork(2) == 1;
    both(&s, &MatchOpts { proximity: Some(p), zoom: z, bbox: None })
}

/// More features than a search returns, one of them arbitrary.
fn many() {
    let n = [39, 41, 79, 81, 90][fork(5) as usize];
    let p = [9000u16, 9000];
    let near = fork(2) == 1;
    let at = fork(4) as usize * (n - 1) / 3;
    let flat = fork(2) == 1;
    let mut e: Vec<GridEntry> = (0..n)
        .map(|i| entry(if flat { 1.0 } else { [1.0, 1.0, 0.8][i * 3 / n] }, ((i * 7) % 13) as u8, 8990 + (i as u16 * 37) % 101, 8980 + (i as u16 * 11) % 47, i as u32 + 1))
        .collect();
    // features that take turns, or come back after others
    match fork(4) {
        0 => {}
        1 => e.iter_mut().enumerate().for_each(|(i, e)| e.id = (i % 45) as u32 + 1),
        2 => e.iter_mut().enumerate().for_each(|(i, e)| e.id = (i / 2) as u32 + 1),
        _ => e.iter_mut().enumerate().for_each(|(i, e)| {
            e.id = if i < n - 20 { i as u32 % 3 + 1 } else { i as u32 };
            e.score = 15 - (i * 15 / n) as u8;
        }),
    }
    e[at].id = [1, n as u32 / 2, n as u32, 200][fork(4) as usize];
    e[at].source_phrase_hash = u8s();
    let mut s = Sub::new(0, 14, 0.5, e);
    s.lang = fork(2) == 1;
    both(&s, &MatchOpts { proximity: if near { Some(p) } else { None }, zoom: 14, bbox: None })
}

fn run() {
    match case() {
        0 => any(3, true),
        1 => any(3, false),
        2 => point(),
        3 => many(),
        _ => {}
    }
}
entry!(run);
