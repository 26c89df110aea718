//! The phrase-set bindings hand over what they are given and return what they get.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use fuzzy_phrase::glue::*;
use harness::gen::*;
use harness_node::*;
use neon::V;

fn words(w: &[&str]) -> V {
    array(w.iter().map(|s| text(s)).collect())
}
fn phrase() -> Vec<&'static str> {
    [vec![], vec!["main"], vec!["main", "st\u{e9}", ""]][fork(3) as usize].clone()
}
fn ending() -> (V, EndingType) {
    [
        (num(0u8), EndingType::NonPrefix),
        (num(1u8), EndingType::AnyPrefix),
        (num(2u8), EndingType::WordBoundaryPrefix),
    ][fork(3) as usize]
}
fn fail() -> bool {
    let f = fork(3) == 2;
    script(|s| s.fail = f);
    f
}
/// Throws exactly when the phrase set fails.
fn result(r: Option<V>, failed: bool) -> Option<V> {
    check(r.is_none() == failed, "a call throws exactly when the phrase set fails");
    if failed {
        cover("failed");
    }
    r
}
fn set(m: &[(String, V)]) -> V {
    does(m, "FuzzyPhraseSet", vec![text("/mem/set")])
}
fn same_match(v: V, r: &FuzzyMatchResult) -> bool {
    let w: Vec<String> = items(field(v, "phrase")).iter().map(|w| as_text(w)).collect();
    let p = items(field(v, "phrase_id_range"));
    (w == r.phrase)
        & (as_int(field(v, "edit_distance")) == r.edit_distance as u64)
        & (as_int(p[0]) == r.phrase_id_range.0 as u64)
        & (as_int(p[1]) == r.phrase_id_range.1 as u64)
        & (as_int(field(v, "ending_type")) == 1)
}
fn found() -> FuzzyMatchResult {
    FuzzyMatchResult { phrase: vec!["a".to_owned(), "b".to_owned()], edit_distance: u8s(), phrase_id_range: (u32s(), u32s()), ending_type: EndingType::AnyPrefix }
}
fn asked(p: &[&str], d: (u8, u8), e: EndingType) {
    script(|s| {
        check(s.asked_phrase.len() == p.len() && s.asked_phrase.iter().zip(p.iter()).all(|(a, b)| a == b), "the phrase asked for is the one given");
        check((s.asked_dist.0 == d.0) & (s.asked_dist.1 == d.1), "the distances asked for are those given");
        check(s.asked_ending == Some(e), "the ending asked for is the one given");
    });
}

/// Building: phrases, replacements, and the id map.
fn building() {
    let m = module();
    let b = does(&m, "FuzzyPhraseSetBuilder", vec![text("/mem/set")]);
    let id = u32s();
    script(|s| s.insert_id = id);
    let p = phrase();
    let f = fail();
    if let Some(r) = result(method(b, "insert", vec![words(&p)]), f) {
        check_eq(as_int(r), id as u64, "inserting returns the phrase's id");
        script(|s| check(s.asked_phrase.len() == p.len() && s.asked_phrase.iter().zip(p.iter()).all(|(a, b)| a == b), "the phrase inserted is the one given"));
    }
    let f = fail();
    let rep = array(vec![object(&[("from", text("street")), ("to", text("st"))]), object(&[("to", text("b")), ("from", text("a"))])]);
    if result(method(b, "loadWordReplacements", vec![rep]), f).is_some() {
        script(|s| {
            let r = &s.asked_replacements;
            check(r.len() == 2 && r[0].from == "street" && r[0].to == "st" && r[1].from == "a" && r[1].to == "b", "the replacements loaded are those given");
        });
    }
    let n = fork(4);
    let ids: Vec<u32> = (0..n).map(|_| u32s()).collect();
    script(|s| s.id_map = ids.clone());
    let f = fail();
    if let Some(r) = result(method(b, "finish", vec![]), f) {
        let got = as_buffer(r);
        check(got.len() == ids.len(), "the id map has as many ids");
        let mut ok = true;
        for (a, b) in got.iter().zip(ids.iter()) {
            ok &= a == b;
            observe(*a as u64);
        }
        check(ok, "the id map is the one the phrase set made");
        cover("built");
    }
    script(|s| s.fail = false);
    for _ in 0..2 {
        let calls = script(|s| s.calls);
        let r = match fork(3) {
            0 => method(b, "insert", vec![words(&p)]),
            1 => method(b, "loadWordReplacements", vec![rep]),
            _ => method(b, "finish", vec![]),
        };
        check(r.is_none() & (script(|s| s.calls) == calls), "a finished builder throws");
    }
}

/// Asking.
fn asking() {
    let m = module();
    let s = set(&m);
    let p = phrase();
    let (je, e) = ending();
    let (dw, dp) = (u16s(), u16s());
    let d = (if dw > 255 { 255 } else { dw as u8 }, if dp > 255 { 255 } else { dp as u8 });
    let r = [found(), found()];
    let start = below(32, 1 << 31) as usize;
    let by_id = [None, Some(vec![]), Some(vec!["x".to_owned(), "y".to_owned()])][fork(3) as usize].clone();
    let yes = fork(2) == 1;
    script(|t| {
        t.found = yes;
        t.matches = r[..fork(3) as usize].to_vec();
        t.windows = vec![FuzzyWindowResult {
            phrase: vec!["a".to_owned(), "b".to_owned()],
            edit_distance: r[0].edit_distance,
            start_position: start,
            phrase_id_range: r[0].phrase_id_range,
            ending_type: EndingType::AnyPrefix,
        }];
        t.multi = vec![vec![r[0].clone()], vec![], vec![r[1].clone(), r[0].clone()]];
        t.by_id = by_id.clone();
    });
    let f = fail();
    match fork(5) {
        0 => {
            if let Some(v) = result(method(s, "contains", vec![words(&p), je]), f) {
                check(as_bool(v) == yes, "a phrase is contained when the set says so");
                asked(&p, (0, 0), e);
                cover("contains");
            }
        }
        1 => {
            if let Some(v) = result(method(s, "fuzzyMatch", vec![words(&p), num(dw), num(dp), je]), f) {
                let v = items(v);
                script(|t| {
                    check(v.len() == t.matches.len(), "as many matches are returned");
                    let mut ok = true;
                    for (a, b) in v.iter().zip(t.matches.iter()) {
                        ok &= same_match(a, b);
                    }
                    check(ok, "the matches returned are those found");
                });
                asked(&p, d, e);
                cover("match");
            }
        }
        2 => {
            if let Some(v) = result(method(s, "fuzzyMatchWindows", vec![words(&p), num(dw), num(dp), je]), f) {
                let v = items(v);
                check(v.len() == 1, "as many windows are returned");
                check(same_match(v[0], &r[0]) & (as_int(field(v[0], "start_position")) == start as u64), "the windows returned are those found");
                asked(&p, d, e);
                cover("windows");
            }
        }
        3 => {
            let q = array(vec![array(vec![words(&p), je]), array(vec![words(&["z"]), num(0u8)])]);
            if let Some(v) = result(method(s, "fuzzyMatchMulti", vec![q, num(dw), num(dp)]), f) {
                let v: Vec<Vec<V>> = items(v).iter().map(|v| items(v)).collect();
                check(v.len() == 3 && v[0].len() == 1 && v[1].is_empty() && v[2].len() == 2, "as many matches are returned for each phrase");
                check(same_match(v[0][0], &r[0]) & same_match(v[2][0], &r[1]) & same_match(v[2][1], &r[0]), "the matches returned are those found");
                script(|t| {
                    let a = &t.asked_phrases;
                    check(a.len() == 2 && a[0].0.len() == p.len() && a[0].0.iter().zip(p.iter()).all(|(a, b)| a == b) && a[1].0 == ["z"], "the phrases asked for are those given");
                    check(a[0].1 == e && a[1].1 == EndingType::NonPrefix, "the endings asked for are those given");
                    check((t.asked_dist.0 == d.0) & (t.asked_dist.1 == d.1), "the distances asked for are those given");
                });
                cover("multi");
            }
        }
        _ => {
            let id = u32s();
            if let Some(v) = result(method(s, "getByPhraseId", vec![num(id)]), f) {
                script(|t| check_eq(t.asked_id as u64, id as u64, "the phrase asked for is the one given"));
                match &by_id {
                    None => check(is_undefined(v), "an unknown phrase is undefined"),
                    Some(w) => {
                        let v: Vec<String> = items(v).iter().map(|w| as_text(w)).collect();
                        check(v == *w, "the phrase returned is the one found");
                    }
                }
                cover("by id");
            }
        }
    }
}

/// Bins: the first phrase of each, and one past the last of all; a store's bins built from them hold every phrase.
fn bins() {
    let m = module();
    let s = set(&m);
    let size = u32s();
    let n = fork(5) as usize;
    let mut firsts: Vec<u32> = Vec::new();
    let mut bins = Vec::new();
    let start = fork(4);
    let mut at = [0, 3, 70000][start.min(2) as usize];
    if start == 3 {
        at = u32s();
        assume(at < u32::MAX - 20);
    }
    let any = fork(2) == 1;
    for i in 0..n {
        let len = 1 + fork(3);
        // bins follow one another
        let end = if i + 1 == n && any {
            let e = u32s();
            assume((e >= at) & (e < u32::MAX));
            e
        } else {
            at + len - 1
        };
        firsts.push(at);
        bins.push(PrefixBin { prefix: vec![b'a' + i as u8], first: Output(at as u64), last: Output(end as u64), size: len as usize });
        at = end.wrapping_add(1);
    }
    script(|t| t.bins = bins);
    let f = fail();
    if let Some(v) = result(method(s, "getPrefixBins", vec![num(size)]), f) {
        script(|t| check_eq(t.asked_size as u64, size as u64, "the bin size asked for is the one given"));
        let got = as_buffer(v);
        check(got.len() == if n == 0 { 0 } else { n + 1 }, "one boundary more than bins");
        let mut ok = true;
        for (a, b) in got.iter().zip(firsts.iter()) {
            ok &= a == b;
        }
        check(ok, "each bin begins at its first phrase");
        if n > 0 {
            check_eq(got[n] as u64, at as u64, "the last boundary is one past the last phrase");
            observe(got[n] as u64);
            cover("bins");
        }
        if !any & (start < 2) {
            store(&m, v, &firsts, at);
        }
    }
}

/// A store built with these boundaries finds every phrase of every bin.
fn store(m: &[(String, V)], boundaries: V, firsts: &[u32], end: u32) {
    let p = path();
    let b = does(m, "GridStoreBuilder", vec![text(&p)]);
    for i in 0..end {
        let e = GridEntry { relev: 1.0, score: 1, x: 1, y: i as u16, id: i + 1, source_phrase_hash: 0 };
        run(b, "insert", vec![js_key(i, null()), js_entries(&[e])]);
    }
    run(b, "loadBinBoundaries", vec![boundaries]);
    run(b, "finish", vec![]);
    let s = must(GridStore::new(&p));
    for (i, lo) in firsts.iter().enumerate() {
        let hi = if i + 1 < firsts.len() { firsts[i + 1] } else { end };
        let got: Vec<MatchEntry> = must(s.streaming_get_matching(&range(*lo, hi, u128::MAX), &MatchOpts::default(), 100)).collect();
        check(got.len() == (hi - lo) as usize, "a bin's request finds its phrases");
        check(got.iter().all(|g| g.grid_entry.id > *lo && g.grid_entry.id <= hi), "a bin's request finds no other phrase");
    }
    cover("store");
}

fn run_case() {
    match case() {
        0 => building(),
        1 => asking(),
        2 => bins(),
        _ => {}
    }
}
harness::entry!(run_case);
